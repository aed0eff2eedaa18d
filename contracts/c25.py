"""C25: each received message goes to exactly one read, in order; a read that gives up takes none.

The order and the number of messages behind the first are the queue's business (its contract is assumed); what is proved
is what the client and the protocol do with it: one read takes exactly the oldest message, keeps its limit, and leaves
everything else alone, also when it gives up."""
import asyncio

from pyown.client.session import SessionType
from pyown.exceptions import InvalidSession
from pyown.messages import BaseMessage

from pyvc.api_common import harness

from . import world
from .c18 import MESSAGES, _event

SESSIONS = [SessionType.EventSession, SessionType.CommandSession, SessionType.OldCommandSession]
KINDS = [k for k in MESSAGES if k != "junk"]
CASES = [(SESSIONS[0], None, 3), (SESSIONS[1], "default", 1), (SESSIONS[0], 0, 1), (SESSIONS[1], 1, 0), (SESSIONS[2], 5, 3)]
LIMIT = "a read that gives up raises TimeoutError"


@harness("C25", exact=True, params=KINDS)
def the_oldest(vc, kind):
    """A read returns the oldest message and leaves the others for the next reads."""
    session, limit, behind = vc.choose("case", CASES[:2] if kind == "generic" else CASES)
    text = _event(vc, "m", kind, ["1", "99"])[0]

    async def main():
        client, gw = await world.connect(vc, session)
        gw.say(text)
        others = [f"*1*{i}*1{i}##" for i in range(behind)]
        for t in others:
            gw.say(t)
        vc.note("limit", limit)
        k = {} if limit == "default" else {"timeout": limit}
        if limit == 0 and not vc.symbolic:
            k = {"timeout": 1}  # asyncio may give up at once
        m = await client.read_message(**k)
        vc.check(isinstance(m, BaseMessage), "a message is returned")
        vc.check(str(m) == text, "it is the oldest one")
        for t in others:
            vc.check(str(await client.read_message(**k)) == t, "the others follow in order")
        o = await vc.aoutcome(client.read_message(timeout=1))
        vc.check(o.raised(TimeoutError), "then there is none")

    vc.run(main())


@harness("C25", only="sym", params=KINDS)
def any_pending(vc, kind):
    """However many messages are pending: one that arrives goes behind them all, and a read takes the oldest only."""
    session, first = vc.choose("case", [(SESSIONS[1], "*99*1##")] if kind == "generic" else
                               [(s, t) for s in SESSIONS for t in ("*1*1*11##", "*#*1##", "*99*1##")])
    text = _event(vc, "m", kind, ["1", "99"])[0]

    async def main():
        client, gw = await world.connect(vc, session)
        gw.say(first)
        crowd = vc.crowd()
        if not crowd:
            vc.stop()  # the messages are not held in a queue
        gw.say(text)
        vc.check([len(front) for front, _ in crowd] == [1], "nothing that is pending is dropped")
        vc.check([str(m) for m in crowd[0][1]] == [text], "the new message is the last one, once")
        m = await client.read_message()
        vc.check(str(m) == first, "a read returns the oldest")
        vc.check([str(m) for m in crowd[0][1]] == [text] and crowd[0][0] == [], "and takes nothing else")

    vc.run(main())


@harness("C25", only="conc")
def many_pending(vc):
    """Bounded companion: up to 5000 messages pending, in one or several network reads, with reads in between."""
    n = vc.choose("count", [20, 70, 130, 300, 1100, 5000])
    size = vc.choose("together", [1, 7, 100, 5000])
    between = vc.choose("reads between", [0, 0, 1, 3])

    async def main():
        client, gw = await world.connect(vc)
        texts = [f"*1*{i % 11}*{i}##" for i in range(n)]
        got = []
        for i in range(0, n, size):
            gw.say("".join(texts[i : i + size]))
            for _ in range(min(between, min(i + size, n) - len(got))):
                got.append(str(await client.read_message()))
        while len(got) < n:
            o = await vc.aoutcome(client.read_message(timeout=1))
            vc.check(o.ok, "every message is returned by a read")
            got.append(str(o.value))
        vc.check(got == texts, "each message goes to one read, in order")
        o = await vc.aoutcome(client.read_message(timeout=1))
        vc.check(o.raised(TimeoutError), "and then there is none")

    vc.run(main())


@harness("C25", exact=True)
def gives_up(vc):
    """A read on nothing keeps its limit, whatever it is, and the message that comes later goes to the next read."""
    session = vc.choose("session", SESSIONS)
    kind = vc.choose("kind", ["normal", "ack", "single"])
    text = _event(vc, "m", kind, ["1", "99"])[0]
    limit = vc.choose("limit", ["any", "default", 0.25, 0.5, 1.0, 2.5, 59.75])
    n = vc.int("n", 1, 1000) if limit == "any" else 5 if limit == "default" else limit
    times = vc.choose("times", [1, 2])

    async def main():
        client, gw = await world.connect(vc, session)
        seen = []
        if vc.symbolic:
            def empty(q):
                ts = [t for t in vc.env.timeouts if t is not None]
                vc.check(len(ts) > 0, "the wait has a limit")
                vc.check(any([t == n for t in ts]), "the limit is the one asked for")
                seen.append(1)

            vc.env.on_empty = empty
        for _ in range(times):
            t0 = _now(vc)
            o = await vc.aoutcome(client.read_message() if limit == "default" else client.read_message(timeout=n))
            vc.check(o.raised(TimeoutError), LIMIT)
            if not vc.symbolic:
                vc.check(abs(_now(vc) - t0 - n) < 0.01, "the limit is the one asked for")
        if vc.symbolic:
            vc.check(len(seen) == times, "the wait has a limit")
            vc.env.on_empty = None
        gw.say(text)
        await vc.settle()
        o = await vc.aoutcome(client.read_message(timeout=1))
        vc.check(o.ok and str(o.value) == text, "a read that gave up took nothing")

    vc.run(main())


def _now(vc):
    return 0 if vc.symbolic else asyncio.get_running_loop().time()


@harness("C25", exact=True)
def arrives(vc):
    """A message that arrives during the wait ends it."""
    session = vc.choose("session", SESSIONS)
    kind = vc.choose("kind", ["normal", "request", "single", "ack"])
    text = _event(vc, "m", kind, ["1", "99"])[0]
    limit = vc.choose("limit", [None, 1, 5])
    after = vc.choose("after", [0, 0.01, 0.9] + ([100, 4000, 10 ** 6] if limit is None else []))
    vc.expect_cover("arrived")

    async def main():
        client, gw = await world.connect(vc, session)
        if vc.symbolic:
            def empty(q):
                vc.check(limit is not None or all([t is None for t in vc.env.timeouts]), "without a limit the wait has no end")
                vc.env.on_empty = None
                gw.say(text)

            vc.env.on_empty = empty
        else:
            asyncio.get_running_loop().call_later(after, gw.say, text)
        m = await client.read_message(timeout=limit)
        vc.check(str(m) == text, "it is that message")
        vc.cover("arrived")

    vc.run(main())


@harness("C25", exact=True)
def after_the_end(vc):
    """Messages received before the connection is lost are still returned, each by one read, in order."""
    session = vc.choose("session", SESSIONS)
    limit = vc.choose("limit", [None, 1, 5])
    before = vc.choose("before", [0, 1])
    texts = [_event(vc, "m", vc.choose("kind", ["normal", "ack", "single"]), ["1"])[0]] + ["*1*0*12##"] * vc.choose("n", [0, 1])
    error = vc.choose("error", [False, True])

    async def main():
        client, gw = await world.connect(vc, session)
        for t in texts:
            gw.say(t)
        got = [str(await client.read_message(timeout=limit)) for _ in range(before)]
        gw.transport.closed = True
        gw.protocol.connection_lost(OSError("reset by peer") if error else None)
        for _ in texts[before:]:
            o = await vc.aoutcome(client.read_message(timeout=limit))
            vc.check(o.ok, "every message is returned by a read")
            got.append(str(o.value))
        vc.check(got == texts, "each message goes to one read, in order")
        o = await vc.aoutcome(client.read_message(timeout=limit))
        vc.check(not o.ok, "and then there is none")

    vc.run(main())


@harness("C25", exact=True)
def not_started(vc):
    """Without a connection there is nothing to read: an error at once, whatever the limit."""
    limit = vc.choose("limit", [None, 0, 5])
    closed = vc.choose("closed", [False, True])

    async def main():
        client, gw = await world.connect(vc)
        if closed:
            gw.say("*1*1*11##")
            await client.close()
        else:
            client = type(client)("192.0.2.1", 20000, "12345", loop=vc.loop(gw.connect))
        o = await vc.aoutcome(client.read_message(timeout=limit))
        vc.check(o.raised(InvalidSession), "a client that is not connected refuses to read")

    vc.run(main())


@harness("C25", only="conc", fresh=True, weight=2)
def readers(vc):
    """Bounded companion: several readers with limits, some cancelled, and messages at any moments, on the real loop."""
    nr, nm = vc.choose("readers", [1, 2, 3, 6]), vc.choose("messages", [0, 1, 2, 5, 12])
    start = [vc.int(f"start{i}", 0, 40) for i in range(nr)]
    limit = [vc.choose(f"limit{i}", [None, 1, 2, 3]) for i in range(nr)]
    cancel = [vc.choose(f"cancel{i}", [None, None, 5, 12, 31]) for i in range(nr)]
    at = sorted(vc.int(f"at{i}", 0, 60) for i in range(nm))
    one = vc.choose("one read", [False, True])

    async def main():
        client, gw = await world.connect(vc)
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        got, ends = [], {}

        async def reader(i):
            await asyncio.sleep(start[i] / 10)
            s = loop.time()
            try:
                m = await client.read_message(timeout=limit[i])
            except TimeoutError:
                ends[i] = loop.time() - s
            else:
                got.append((loop.time() - t0, str(m)))

        tasks = [asyncio.ensure_future(reader(i)) for i in range(nr)]
        for i, c in enumerate(cancel):
            if c is not None:
                loop.call_later(c / 10 + 0.003, tasks[i].cancel)
        texts = [f"*1*1*{i:02d}##" for i in range(nm)]
        for i, t in enumerate(texts):
            if one:
                if i == 0:
                    loop.call_later(at[0] / 10 + 0.007, gw.say, "".join(texts))
            else:
                loop.call_later(at[i] / 10 + 0.007 + i / 10000, gw.say, t)
        await asyncio.sleep(20)
        for t in tasks:
            t.cancel()
        left = []
        while True:
            o = await vc.aoutcome(client.read_message(timeout=1))
            if not o.ok:
                vc.check(o.raised(TimeoutError), LIMIT)
                break
            left.append(str(o.value))
        vc.check([m for _, m in got] + left == texts, "each message goes to one read, in order")
        for i, d in ends.items():
            vc.check(abs(d - limit[i]) < 0.01, "the limit is the one asked for")

    vc.run(main())


@harness("C25", only="conc", weight=2)
def given_up_at_the_arrival(vc):
    """Bounded companion: a read is cancelled, or reaches its limit, a few steps of the loop around an arrival."""
    nm = vc.choose("messages", [1, 2, 3, 4])
    ticks = vc.choose("steps", [0, 1, 2, 3, 4, 5])
    how = vc.choose("how", ["cancel", "limit", "wait_for"])
    limit = vc.choose("limit", [None, 1, 5]) if how == "cancel" else 1
    waiting = vc.choose("already waiting", [False, True])
    one = vc.choose("one read", [False, True])

    async def main():
        client, gw = await world.connect(vc)
        loop = asyncio.get_running_loop()
        texts = [f"*1*1*{i:02d}##" for i in range(nm)]

        def arrive():
            for t in ["".join(texts)] if one else texts:
                gw.say(t)

        if not waiting:
            arrive()
        read = client.read_message(timeout=limit)
        task = asyncio.ensure_future(asyncio.wait_for(read, 1) if how == "wait_for" else read)
        if waiting:
            for _ in range(10):
                await asyncio.sleep(0)
            if how != "cancel":
                loop.call_later(1 + (ticks - 2) * 1e-9, arrive)
                await asyncio.sleep(2)
            else:
                arrive()
        for _ in range(ticks):
            await asyncio.sleep(0)
        task.cancel()
        first = []
        try:
            first.append(str(await task))
        except (asyncio.CancelledError, TimeoutError):
            pass
        if waiting and how != "cancel":
            await asyncio.sleep(1)
        left = []
        for _ in range(nm + 2):
            o = await vc.aoutcome(client.read_message(timeout=1))
            if not o.ok:
                break
            left.append(str(o.value))
        vc.check(first + left == texts, "each message goes to one read, in order, and a read that gives up takes none")

    vc.run(main())
