"""C22: the event loop ends when the connection does.

Stated as safety: once the connection has ended (the transport is closing and has reported connection_lost), the loop
never waits for another message and never goes round again; it returns or raises.  The end may come while the loop
waits, while a message is dispatched, or with messages still unread, after any number of rounds."""
import asyncio

from pyown.client import Client
from pyown.client.session import SessionType
from pyown.tags import Where, Who

from pyvc.api_common import harness

from . import world
from .c18 import KINDS, MESSAGES, TYPES, _dispatched, _event, _stubs

HOW = ["lost", "error", "closed"]
SESSIONS = [SessionType.EventSession, SessionType.CommandSession]


def _ends(vc, client, gw, how):
    """The connection ends, as asyncio reports it: the transport is closing, then connection_lost.

    After client.close() it is the client that must have closed the transport."""
    if how == "closed":
        vc.check(gw.transport.is_closing(), "closing the client closes the connection")
    gw.transport.closed = True
    gw.protocol.connection_lost(OSError("reset by peer") if how == "error" else None)


ENDED = "the loop does not wait for messages once the connection has ended"


@harness("C22", only="sym", budget=120, params=MESSAGES)
def any_round(vc, kind):
    """A round of the loop after any others: the connection ends while it waits or while it dispatches."""
    vc.expect_cover("waiting")
    if kind in ("normal", "response", "writing", "status", "request", "response2"):
        vc.expect_cover("dispatching", "goes on")

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        when = vc.choose("when", ["waiting", "dispatching", "never"])
        text, who, where = _event(vc, "m", kind) if when != "waiting" else ("", None, None)
        good = _dispatched(who, where)
        vc.assume(good or when != "dispatching")
        if good and vc.choose("held", [False, True]):
            client.get_item(Who(who), Where(where), client=client)
        gw.reset(None)
        state = ["read" if when != "waiting" else "wait"]

        def end():
            vc.check(state[0] != "ended", ENDED)
            how = vc.choose("how", HOW)
            if how == "closed":
                vc.spawn(client.close())
            _ends(vc, client, gw, how)
            state[0] = "ended"

        def empty(q):
            vc.check(state[0] != "ended", ENDED)
            if state[0] == "wait":
                vc.cover("waiting")
                end()
                return
            if state[0] == "read":
                state[0] = "was read"
                gw.say(text)
                return
            vc.stop()  # waiting for the next message, still connected

        def block(what):
            vc.check(state[0] != "ended", ENDED)
            vc.stop()

        async def call_callbacks(cls, item, message):
            if when == "dispatching":
                vc.cover("dispatching")
                end()
            return []

        for n in _stubs():
            vc.stub(n, call_callbacks)

        def back(loop):
            # a round that comes back after the end is taken up by ended_before_a_round
            vc.check(state[0] != "ended" or gw.transport.is_closing(), ENDED)
            vc.cover("goes on")

        def permit(loop, x):
            return state[0] == "ended" or x is state or x is vc.env.pending or x is vc.env.tasks or vc.is_queue(loop, x) or isinstance(x, dict)

        vc.env.on_empty, vc.env.on_block = empty, block
        vc.ctx.cut_while = ("",)
        vc.ctx.on_back, vc.ctx.frame_ok = back, permit
        await vc.aoutcome(client.loop())
        vc.check(state[0] == "ended", "the loop goes on while connected")

    vc.run(main())


@harness("C22", only="sym", budget=60, params=["none", "ack", "normal", "junk"])
def ended_before_a_round(vc, unread):
    """A round that begins after the connection ended, with messages still unread: the loop is left."""
    vc.expect_cover("left")

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        how = vc.choose("how", HOW)
        gw.reset(None)

        waits = []

        def fails(what):
            waits.append(what)
            vc.check(not waits, ENDED)

        if unread != "none":
            gw.say(_event(vc, "m", unread)[0])
        task = client.loop()
        if how == "closed":
            await client.close()
        _ends(vc, client, gw, how)
        vc.env.on_empty = vc.env.on_block = fails
        await vc.aoutcome(task)
        vc.check(not waits, ENDED)
        vc.cover("left")

    vc.run(main())


@harness("C22", only="sym", exact=True, budget=60, params=["waiting", "first", "second", "dispatching"])
def first_rounds(vc, when):
    """The first rounds of the loop, followed exactly: the end comes at the first wait, or after one or two messages."""
    vc.expect_cover("ended")

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        how = vc.choose("how", HOW)
        n = {"waiting": 0, "first": 1, "second": 2, "dispatching": 1}[when]
        texts = [_event(vc, f"m{i}", vc.choose(f"k{i}", ["ack", "normal", "single"]), ["1", "4"])[0] for i in range(n)]
        gw.reset(None)
        at = [0]

        def end():
            if how == "closed":
                vc.spawn(client.close())
            _ends(vc, client, gw, how)

        async def call_callbacks(cls, item, message):
            if when == "dispatching":
                vc.check(at[0] == n, ENDED)
                at[0] += 1
                end()
            return []

        for name in _stubs():
            vc.stub(name, call_callbacks)

        def empty(q):
            i = at[0]
            at[0] += 1
            if i < n:
                gw.say(texts[i])
            elif i == n:
                end()
            else:
                vc.check(False, ENDED)

        def block(what):
            vc.check(False, ENDED)

        vc.env.on_empty, vc.env.on_block = empty, block
        await vc.aoutcome(client.loop())
        vc.check(at[0] == n + 1, "the loop goes on while connected")
        vc.cover("ended")

    vc.run(main())


CLOSES = "closing the client closes the connection"


@harness("C22", exact=True, params=["connected", "paused", "resumed", "unread", "waited", "ended", "dispatched"])
def closes(vc, state):
    """close() closes the connection, whatever the state of the client; doing it again is harmless."""
    session = vc.choose("session", SESSIONS)

    async def main():
        client, gw = await world.connect(vc, session)
        if state in ("paused", "resumed"):
            gw.protocol.pause_writing()
        if state == "resumed":
            gw.protocol.resume_writing()
        if state == "unread":
            gw.say(_event(vc, "m", vc.choose("kind", ["normal", "ack", "single"]), ["1", "4"])[0])
        if state == "waited":
            await vc.aoutcome(client.read_message())
        if state == "ended":
            gw.protocol.connection_lost(OSError("reset by peer") if vc.choose("error", [False, True]) else None)
        if state == "dispatched":
            gw.say("*1*1*11##")
            await vc.aoutcome(client.read_message(timeout=1))
            client.get_item(Who("1"), Where("11"), client=client)
        o = await vc.aoutcome(client.close())
        vc.check(o.ok and gw.transport.is_closing(), CLOSES)
        o = await vc.aoutcome(client.close())
        vc.check(o.ok and gw.transport.is_closing(), "closing again is harmless")

    vc.run(main())


@harness("C22", exact=True, params=["silent", "refused", "silent on the session", "no session", "password", "ended"])
def closes_unready(vc, failure):
    """close() closes the connection also when the handshake on it failed."""
    session = vc.choose("session", SESSIONS)
    answers = {"no session": [world.NACK], "password": ["*#603356072##"]}.get(failure, [])

    async def main():
        def answer(i, d):
            if failure == "ended":
                gw.protocol.connection_lost(None)
                return []
            return answers if i == 0 else [world.NACK]

        gw = world.Gateway(greeting={"silent": None, "refused": world.NACK}.get(failure, world.ACK), answer=answer)
        client = Client("192.0.2.1", 20000, "12345", session, loop=vc.loop(gw.connect))
        o = await vc.aoutcome(client.start())
        if o.ok:
            vc.stop()
        o = await vc.aoutcome(client.close())
        vc.check(o.ok and gw.transport.is_closing(), CLOSES)

    vc.run(main())


READ = "a read does not wait once the connection has ended"


@harness("C22", only="sym", exact=True, params=["now", "later"])
def a_read_ends(vc, when):
    """A read without a limit ends when the connection does, and so do the ones after it."""
    vc.expect_cover("ended")
    how = vc.choose("how", HOW)
    session = vc.choose("session", SESSIONS)

    async def main():
        client, gw = await world.connect(vc, session)
        ended = []

        def wait(what):
            vc.check(not ended, READ)
            ended.append(1)
            if how == "closed":
                vc.spawn(client.close())
            _ends(vc, client, gw, how)

        def block(what):
            vc.check(False, READ)

        if when == "now":
            ended.append(1)
            if how == "closed":
                await client.close()
            _ends(vc, client, gw, how)
        vc.env.on_empty, vc.env.on_block = wait, block
        for _ in range(2):
            o = await vc.aoutcome(client.read_message(timeout=None))
            vc.check(not o.ok, "no message is made up")
        vc.cover("ended")

    vc.run(main())


@harness("C22", exact=True)
def unread(vc):
    """What was received before the connection was lost is read first; then a read raises."""
    how = vc.choose("how", HOW[:2])
    session = vc.choose("session", SESSIONS)
    limit = vc.choose("limit", [None, 1])
    texts = [_event(vc, "m", vc.choose("kind", ["normal", "ack", "single"]), ["1"])[0]] + ["*1*0*12##"] * vc.choose("n", [0, 1])

    async def main():
        client, gw = await world.connect(vc, session)
        for t in texts:
            gw.say(t)
        _ends(vc, client, gw, how)

        def wait(what):
            vc.check(False, READ)

        if vc.symbolic:
            vc.env.on_empty = vc.env.on_block = wait
        for t in texts:
            o = await vc.aoutcome(client.read_message(timeout=limit))
            vc.check(o.ok and str(o.value) == t, "the messages received before are read first")
        for _ in range(2):
            o = await vc.aoutcome(client.read_message(timeout=limit))
            vc.check(not o.ok and not o.raised(TimeoutError), "then a read raises at once")

    vc.run(main())


@harness("C22", only="conc", fresh=True)
def reads(vc):
    """Bounded companion: reads pending or started when the connection ends, on the real event loop."""
    how = vc.choose("how", HOW)
    session = vc.choose("session", SESSIONS)
    when = vc.choose("when", ["now", "later"])
    unread = [_event(vc, f"m{i}", vc.choose(f"k{i}", ["normal", "ack", "generic"]))[0] for i in range(vc.choose("n", [0, 1, 2]))]

    async def main():
        client, gw = await world.connect(vc, session)
        readers = []
        if when == "later":
            readers = [asyncio.ensure_future(client.read_message(timeout=None)) for _ in range(vc.choose("readers", [1, 2, 3]))]
            await asyncio.sleep(0)
        for t in unread:
            gw.say(t)
        if how == "closed":
            await client.close()
        _ends(vc, client, gw, how)
        if when == "now" and how != "closed":
            readers = [asyncio.ensure_future(client.read_message(timeout=None)) for _ in range(len(unread) + 2)]
        if readers:
            await asyncio.wait(readers, timeout=60)
        vc.check(all(r.done() for r in readers), READ)
        vc.check(sum(r.exception() is None for r in readers) <= len(unread), "no message is made up")

    vc.run(main())


@harness("C22", only="conc", fresh=True, weight=2)
def histories(vc):
    """Bounded companion: messages on the real event loop, then the connection ends at some moment; the loop is over."""
    n = vc.choose("messages", [0, 1, 2, 3, 5, 40])
    how = vc.choose("how", HOW)
    when = vc.choose("when", ["idle", "unread", "same step", "in a callback"])
    bad = vc.choose("callbacks", ["none", "good", "failing", "slow"])
    todo = [_event(vc, f"m{i}", vc.choose(f"k{i}", MESSAGES + ["language"]))[0] for i in range(n)]

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession)
        loop = asyncio.get_running_loop()
        ended = []

        def end():
            if not ended:
                ended.append(1)
                _ends(vc, client, gw, how)

        async def closing():
            if how == "closed":
                await client.close()
                loop.call_soon(end)
            else:
                end()

        async def callback(item, *args):
            if when == "in a callback":
                await closing()
            if bad == "failing":
                raise ValueError("a failing callback")
            if bad == "slow":
                await asyncio.sleep(1)

        if bad != "none":
            for kind, reg in KINDS:
                reg(callback)
        task = asyncio.ensure_future(client.loop())
        await asyncio.sleep(0)
        for t in todo:
            gw.say(t)
            if when == "idle":
                await asyncio.sleep(0.01)
        if when == "same step":
            if how == "closed":
                await client.close()
            end()
        else:
            if when != "unread":
                await asyncio.sleep(0.05)
            if not ended:
                await closing()
        for _ in range(200):
            if task.done():
                break
            await asyncio.sleep(0.05)
        vc.check(task.done(), "the loop ends when the connection does")
        if task.done() and not task.cancelled():
            task.exception()
        task.cancel()

    vc.run(main())
