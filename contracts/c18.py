"""C18: no incoming message can stop the event loop.

any_message: the loop is cut at its head, so the message may come after any history; the item types' call_callbacks are
replaced by their contract (any tasks, or any error).  history: several messages through the real callbacks."""
import asyncio
import re

from pyown.client import Client
from pyown.client.session import SessionType
from pyown.exceptions import InvalidMessage, InvalidSession, InvalidTag, ParseError
from pyown.items.automation import Automation
from pyown.items.base import BaseItem
from pyown.items.camera import Camera
from pyown.items.energy import EnergyManagement
from pyown.items.gateway import Gateway
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Where, Who

from pyvc.api_common import harness

from . import frames, world

TYPES = {"1": Light, "2": Automation, "7": Camera, "13": Gateway, "18": EnergyManagement}
METER = "(1[0-9]+|5[0-9]+|7[0-9]+#0)"
JUNK = ["*1*1*12", "", "abc", "*1*x*1", "1*1*12", "*#1*a", "**"]
NOHASH = "[\x00-\x22\x24-\x7f]"


def _stubs():
    """The functions that turn an event into callbacks, by their current names."""
    names = []
    for cls in TYPES.values():
        f = cls.call_callbacks.__func__
        names.append(f.__module__ + ":" + f.__qualname__)
    return names


MESSAGES = ["normal", "response", "writing", "status", "request", "response2", "generic", "single", "ack", "nack", "junk"]


def _event(vc, name, k, whos=None):
    """An arbitrary complete piece of input of a kind: (text, who, where)."""
    if k == "junk":
        t = vc.text(name + ".junk", f"(#?{NOHASH})*", JUNK) + "##"
        vc.assume(not frames.accepted(vc, t))
        return t, None, None
    if k in ("ack", "nack"):
        return world.ACK if k == "ack" else world.NACK, None, None
    if k == "single":
        return "*" + vc.text(name + ".tag", "#?[0-9]+", ["#603356072", "12", "#0", "1"]) + "##", None, None
    if k == "generic":
        return vc.text(name + ".frame", world.generic(vc), world.GENERIC), None, None
    if k == "language":
        return vc.text(name + ".any", frames.FRAME, frames.CORPUS), None, None
    who = vc.choose(name + ".who", whos or list(TYPES) + ["4", "99"])
    where = vc.text(name + ".where", world.TAG, world.TAGS)
    if k == "status":
        return "*#" + who + "*" + where + "##", who, where
    if k == "normal":
        return "*" + who + "*" + vc.text(name + ".what", world.TAG, world.TAGS) + "*" + where + "##", who, where
    d = vc.text(name + ".dim", "[0-9](#?[0-9])*", world.TAGS)
    v = vc.text(name + ".value", world.TAG, world.TAGS)
    t = "*#" + who + "*" + where + "*" + ("#" if k == "writing" else "") + d
    if k != "request":
        t = t + "*" + v
    if k == "response2":
        t = t + "*" + vc.text(name + ".value2", world.TAG, world.TAGS)
    return t + "##", who, where


def _dispatched(who, where):
    """The message goes to an item."""
    return who in TYPES and (who != "18" or re.fullmatch(METER, where) is not None)


WHOS = ["1 2", "7 13", "18", "4 99"]
LONG = [k + ", " + w for k in ("response", "writing", "response2") for w in WHOS]


@harness("C18", only="sym", budget=120, params=[k for k in MESSAGES if k not in ("response", "writing", "response2")] + LONG)
def any_message(vc, kind):
    """One round of the loop with any message, any items held and any outcome of the callbacks."""
    kind, _, whos = kind.partition(", ")
    if whos:
        vc.expect_cover(*({"18": ["dispatched", "skipped", "closed"], "4 99": ["skipped"]}.get(whos, ["dispatched", "closed"])))
    elif kind in ("generic", "single", "ack", "nack", "junk"):
        vc.expect_cover("skipped")
    else:
        vc.expect_cover("dispatched", "skipped", "closed")

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        commands = Client("192.0.2.9", 20000, "12345", loop=vc.loop(None))
        owner = vc.choose("client", [None, commands])
        text, who, where = _event(vc, "m", kind, whos.split() or None)
        good = _dispatched(who, where)
        close = good and vc.choose("close", [False, True])
        held = None
        if good and vc.choose("held", [False, True]):
            held = client.get_item(Who(who), Where(where), client=client)
        gw.reset(None)
        log = []
        how = []

        def waits(what):
            """The loop waits for the next message."""
            vc.check(not isinstance(what, str) or what == "queue", "a callback that does not end does not hold up the loop")
            vc.check(not close, "the loop ends when the client is closed")
            vc.check(log == ["read"], "a message is dispatched before the next is read")
            vc.check(not good, "a message for an item is dispatched")
            vc.cover("skipped")
            vc.stop()

        def empty(q):
            if log:
                waits(q)
            log.append("read")
            gw.say(text)

        async def fails(cls):
            raise cls("callback")

        async def never():
            await asyncio.Future()

        async def call_callbacks(cls, item, message):
            log.append((cls, item, message))
            x = "close" if close else vc.choose("outcome", ["nothing", "tasks", "endless", "invalid message", "invalid tag", "error"])
            how.append(x)
            if x == "invalid message":
                raise InvalidMessage("unsupported")
            if x == "invalid tag":
                raise InvalidTag("unsupported")
            if x == "error":
                raise vc.choose("class", [ValueError, AttributeError, ResponseLike])("x")
            if x == "close":
                await client.close()
            if x == "tasks":
                return [asyncio.create_task(fails(ValueError)), asyncio.create_task(fails(ResponseLike))]
            if x == "endless":
                return [asyncio.create_task(never())]
            return []

        for n in _stubs():
            vc.stub(n, call_callbacks)

        def right():
            """What happened is what the message demands."""
            if not good:
                vc.check(log == ["read"], "nothing else is dispatched")
                vc.cover("skipped")
                return
            vc.cover("dispatched")
            vc.check(len(log) >= 2, "the message is dispatched")
            vc.check(len(log) == 2 and log[0] == "read", "it is dispatched once")
            cls, item, message = log[1]
            vc.check(isinstance(item, TYPES[who]) and issubclass(TYPES[who], cls), "to the item type of its WHO")
            vc.check(item.where.string == ("" if who == "13" else where), "to the item at its WHERE")
            vc.check(str(message) == text, "with the message that arrived")
            if held is not None:
                vc.check(item is held, "to the item the client holds")
            else:
                vc.check(item.client is (client if owner is None else owner), "a new item has the client of the loop")
                vc.check(client.get_item(Who(who), Where(where), client=client) is item, "a new item is held")

        def permit(loop, x):
            if x is log or x is how or x is vc.env.pending or x is vc.env.tasks or x is vc.env.blocked:
                return True  # callbacks still to run
            return (isinstance(x, dict) and all(isinstance(v, BaseItem) for v in x.values()))

        vc.env.on_empty, vc.env.on_block = empty, waits
        if not close:
            vc.ctx.cut_while = ("",)
            vc.ctx.on_back, vc.ctx.frame_ok = lambda loop: right(), permit
        o = await vc.aoutcome(client.loop(client=owner) if owner is not None else client.loop())
        right()
        vc.check(close, "the loop goes on while connected")
        vc.cover("closed")
        vc.check(o.ok, "the loop returns normally when the client is closed")

    vc.run(main())


class ResponseLike(Exception):
    pass


# ---------------------------------------------------------------------------- the real callbacks

LIGHT = {"1": 2, "2": 3, "12": 3, "14": 1}


def _known_event(vc, i):
    """An event every part of which is documented: (text, what the callbacks must see)."""
    k = vc.choose(f"k{i}", ["light", "timer", "automation", "camera", "firmware", "power", "bad light", "bad energy",
                            "bad gateway", "other", "junk", "odd energy"])
    w = vc.choose(f"w{i}", ["11", "12", "0115#4#01"])
    v = vc.text(f"v{i}", "[0-9]{1,4}", ["0", "1", "2", "17"])
    if k == "light":
        b = vc.choose(f"b{i}", ["0", "1"])
        return "*1*" + b + "*" + w + "##", ("status", Light, w, (b == "1",))
    if k == "timer":
        return "*#1*" + w + "*2*" + v + "*5*6##", ("timer", Light, w, (int(v), 5, 6))
    if k == "automation":
        b = vc.choose(f"b{i}", ["0", "1", "2"])
        return "*2*" + b + "*" + w + "##", ("automation", Automation, w, (b,))
    if k == "camera":
        return "*7*9*" + w + "##", ("camera", Camera, w, ("9",))
    if k == "firmware":
        return "*#13**16*1*" + v + "*3##", ("firmware", Gateway, "", ("1." + v + ".3",))
    if k == "power":
        e = vc.choose(f"e{i}", ["51", "52", "71#0"])
        return "*#18*" + e + "*113*" + v + "##", ("power", EnergyManagement, e, (int(v),))
    if k == "bad light":
        return "*#1*" + w + "*2*" + v + "##", None  # values missing
    if k == "bad gateway":
        return "*#13**0*" + v + "##", None
    if k == "bad energy":
        return "*#18*" + vc.choose(f"a{i}", ["71", "0", "99", "5", "#5"]) + "*113*" + v + "##", None  # refused address
    if k == "odd energy":
        return "*#18*51*72*" + v + "##", None
    if k == "junk":
        return vc.choose(f"j{i}", ["abc##", "*1*x*12##", "##", "*1*1##", "1*1*12##", "*99*9##", "*#*1##", "*#*0##"]), None
    return vc.choose(f"o{i}", ["*4*1*12##", "*#4*1*0*0251##", "*#1*12##", "*2*7*11##", "*#1*12*200*5##", "*1000*1*2##",
                               "*#1*12*#1*50*1##", "*#13**99*1##", "*7*55*4000##", "*18*1*51##", "*5*1*2##"]), None


KINDS = (("status", Light.on_status_change), ("timer", Light.on_temporization_change),
         ("automation", Automation.on_status_change), ("camera", Camera.on_status_change),
         ("power", EnergyManagement.on_instant_power),
         ("firmware", lambda cb: Gateway.register_callback(WhatGateway.FIRMWARE_VERSION, cb)))


ODD = [ValueError, ResponseLike, ZeroDivisionError, InvalidMessage, ConnectionError, TimeoutError]


def _register(calls, failing, then=None):
    def callback(kind, fails=False):
        async def run(item, *args):
            calls.append((kind, item, args))
            if fails == "endless":
                await asyncio.sleep(10 ** 6)
            if fails:
                raise ODD[len(calls) % len(ODD)]("a failing callback")
            if then is not None:
                await then()

        return run

    for kind, reg in KINDS:
        if failing:
            reg(callback("fails", failing))
        reg(callback(kind))


def _right(vc, calls, events, closed=False):
    """The callbacks that ran are those of the events, in order."""
    want = [e for _, e in events if e is not None]
    got = [c for c in calls if c[0] != "fails"]
    if not closed:
        vc.check(len(got) >= len(want), "every event is dispatched")
    vc.check(len(got) <= len(want), "nothing else is dispatched, and nothing twice")
    items = []
    for (kind, item, args), (wkind, cls, where, wargs) in zip(got, want):
        vc.check(kind == wkind, "the events are dispatched in arrival order")
        vc.check(isinstance(item, cls), "to an item of their WHO")
        vc.check(item.where.string == where, "to the item of their WHERE")
        for a, w in zip(args, wargs):
            vc.check(a.string == w if isinstance(w, str) and not isinstance(a, str) else a == w, "with the arguments of the message")
        for c, x, other in items:
            if c is cls:
                vc.check((other is item) == (x == where), "the same device is the same item")
        items.append((cls, where, item))


@harness("C18", only="sym", exact=True, fresh=True)
def events(vc):
    """One documented event, or a message that is none, then another event, through the real callbacks."""
    failing = vc.choose("failing", [False, True])
    last = vc.choose("last", ["11", "99"])
    todo = [_known_event(vc, 0), ("*1*1*" + last + "##", ("status", Light, last, (True,)))]
    calls = []

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        _register(calls, failing)
        at = [0]

        def empty(q):
            if at[0] == len(todo):
                vc.env.drain()
                _right(vc, calls, todo)
                vc.stop()
            at[0] += 1
            gw.say(todo[at[0] - 1][0])

        vc.env.on_empty = empty
        o = await vc.aoutcome(client.loop())
        vc.check(False, "the loop goes on while connected")

    vc.run(main())


@harness("C18", only="conc", fresh=True, weight=2)
def history(vc):
    """Bounded companion: up to six messages on the real event loop, some broken, with failing and closing callbacks."""
    n = vc.choose("messages", [1, 2, 3, 4, 6])
    failing = vc.choose("failing", [False, True, "endless"])
    where_close = vc.choose("close in", [None, None, 1, 2])
    todo = [_known_event(vc, i) for i in range(n)]
    together = vc.choose("in one read", [False, True])
    calls = []

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)

        async def then():
            if len(calls) == where_close:
                await client.close()

        _register(calls, failing, then)
        task = asyncio.ensure_future(client.loop())
        await asyncio.sleep(0)
        if together:
            gw.say("".join(t for t, _ in todo))
        else:
            for t, _ in todo:
                gw.say(t)
                await asyncio.sleep(0.01)
        await asyncio.sleep(0.05)
        _right(vc, calls, todo, where_close is not None)
        if where_close is None:
            vc.check(not task.done(), "the loop goes on while connected")
            gw.say("*1*1*99##")
            await asyncio.sleep(0.05)
            vc.check([c[1].where.string for c in calls if c[0] == "status"][-1:] == ["99"], "a later event is still dispatched")
            task.cancel()
        elif task.done():
            vc.check(task.exception() is None, "the loop returns normally when the client is closed")
        else:
            task.cancel()

    vc.run(main())


UNSUPPORTED = ["0", "3", "4", "5", "6", "14", "15", "16", "17", "22", "24", "25", "1001", "1004", "1013", "1018", "99", "1000"]


@harness("C18", only="conc", fresh=True, weight=2)
def survives(vc):
    """Bounded companion: arbitrary messages of every kind on the real event loop; a later event is still dispatched."""
    n = vc.choose("messages", [1, 1, 2, 3, 5, 40])
    bad = vc.choose("callbacks", ["none", "good", "failing", "cancelled", "at once"])
    todo = []
    for i in range(n):
        if vc.choose(f"where{i}", ["item", "none"]) == "none":
            k = vc.choose(f"k{i}", ["normal", "response", "writing", "status", "request", "response2"])
            todo.append(_event(vc, f"m{i}", k, UNSUPPORTED)[0])
        else:
            todo.append(_event(vc, f"m{i}", vc.choose(f"k{i}", MESSAGES + ["language"]))[0])
    together = vc.choose("in one read", [False, True])
    idle = vc.choose("idle", [0, 0, 0, 6, 61, 4000, 100000])  # seconds without a message (not waited for in real time)
    given = vc.choose("client given", [False, True])
    seen, calls, markers = [], [], []

    async def marker(item, *args):
        if item.where.string == "4242":
            seen.append(args)
            markers.append(item.client)

    def fails(item, *args):
        calls.append(item)
        raise ODD[len(calls) % len(ODD)]("before there is a coroutine")

    async def callback(item, *args):
        calls.append(item)
        if bad == "failing":
            raise ODD[len(calls) % len(ODD)]("a failing callback")
        if bad == "cancelled":
            raise asyncio.CancelledError()

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        Light.on_status_change(marker)
        if bad != "none":
            for kind, reg in KINDS:
                reg(callback if bad != "at once" else fails)
        owner = Client("192.0.2.9", 20000, "12345", loop=vc.loop(None)) if given else client
        task = asyncio.ensure_future(client.loop(client=owner) if given else client.loop())
        await asyncio.sleep(0)
        if together:
            gw.say("".join(todo))
        else:
            for t in todo:
                gw.say(t)
                await asyncio.sleep(0.01)
        await asyncio.sleep(0.05 + idle)
        vc.check(not task.done(), "the loop goes on while connected")
        k = len(seen)
        gw.say("*1*1*4242##")
        await asyncio.sleep(0.05)
        vc.check(seen[k:] == [(True,)], "a later event is still dispatched")
        vc.check(all(c is owner for c in markers), "a new item gets the client the loop was given")
        vc.check(not task.done(), "the loop goes on while connected")
        task.cancel()

    vc.run(main())


REPEATED = ["*1*x*11##", "abc##", "*99*1##", "*#603356072##", "*#*1##", "*#*0##", "*4*1*11##", "*99*1*11##", "*18*1*51##", "*#18*71*113*5##",
            "*#1*11*2*5##", "*#13**0*99##", "*#13**99*1##", "*#18*51*72*1##", "*1*1*11##", "*2*1*12##", "*#1*11##", "*7*9*4000##"]


@harness("C18", only="conc", fresh=True)
def many(vc):
    """Bounded companion: thousands of messages, all of the same kind; a later event is still dispatched."""
    n = vc.choose("messages", [70, 300, 1100, 3000])
    text = vc.choose("text", REPEATED)
    step = vc.choose("in one read", [1, 100, 5000])
    bad = vc.choose("callbacks", ["none", "good", "failing"])
    seen = []

    async def callback(item, *args):
        if item.where.string == "4242":
            seen.append(args)
        elif bad == "failing":
            raise ODD[len(seen) % len(ODD)]("a failing callback")

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        Light.on_status_change(callback)
        if bad != "none":
            for kind, reg in KINDS[1:]:
                reg(callback)
        task = asyncio.ensure_future(client.loop())
        for i in range(0, n, step):
            gw.say(text * min(step, n - i))
            for _ in range(3):
                await asyncio.sleep(0)
        await asyncio.sleep(0.05)
        vc.check(not task.done(), "the loop goes on while connected")
        gw.say("*1*1*4242##")
        await asyncio.sleep(0.05)
        vc.check(seen == [(True,)], "a later event is still dispatched")
        task.cancel()

    vc.run(main())


@harness("C18", only="conc", fresh=True)
def again(vc):
    """Bounded companion: the loop is cancelled and run again on the same connection."""
    rounds = vc.choose("rounds", [2, 3, 5])
    given = vc.choose("client given", [False, True])
    seen = []

    async def callback(item, on):
        seen.append(item.where.string)

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        owner = Client("192.0.2.9", 20000, "12345", loop=vc.loop(None))
        Light.on_status_change(callback)
        want = []
        for i in range(rounds):
            early = vc.choose(f"early{i}", [False, True])
            text, where = "*1*1*" + str(11 + i) + "##", str(11 + i)
            if early:
                gw.say(text)
            task = asyncio.ensure_future(client.loop(client=owner) if given else client.loop())
            await asyncio.sleep(0.01)
            if not early:
                gw.say(text)
            await asyncio.sleep(0.01)
            want.append(where)
            vc.check(not task.done(), "the loop goes on while connected")
            vc.check(seen == want, "every event is dispatched")
            task.cancel()
            await asyncio.wait([task])

    vc.run(main())


@harness("C18", exact=True)
def not_an_event_session(vc):
    """The loop refuses a command session and an unconnected client."""
    async def main():
        client, gw = await world.connect(vc, SessionType.CommandSession)
        o = await vc.aoutcome(client.loop())
        vc.check(o.raised(InvalidSession), "a command session is refused")
        c = Client("192.0.2.9", 20000, "12345", SessionType.EventSession, loop=vc.loop(None))
        o = await vc.aoutcome(c.loop())
        vc.check(o.raised(InvalidSession), "an unconnected client is refused")

    vc.run(main())
