"""C11: each sent message is written once, whole, and never while paused.

The transport's side (pause_writing/resume_writing, alternating) acts at every point where the code gives up control:
before the call, inside write (as real transports do), and at every sleep.  The waiting loop is cut: at its head the
transport is in either state, a round that waits changes nothing but that state."""
import asyncio

from pyown.client.session import SessionType
from pyown.messages import ACK, NACK, DimensionRequest, DimensionWriting, GenericMessage, NormalMessage, StatusRequest
from pyown.tags import Dimension, Value, What, Where, Who

from pyvc.api_common import harness

from . import world


class Flow:
    """Flow control of one connection, through the protocol's own interface."""

    _vc_env_ = True

    def __init__(self, gw):
        self.gw = gw
        self.paused = False
        self.bad = False
        self.pause_in_write = False
        gw.transport.on_write = self.wrote
        self.data = []

    def set(self, paused):
        if paused != self.paused:
            self.paused = paused
            if paused:
                self.gw.protocol.pause_writing()
            else:
                self.gw.protocol.resume_writing()

    def wrote(self, data):
        if self.paused:
            self.bad = True
        self.data.append(data)
        if self.pause_in_write:
            self.set(True)


def _message(vc, i):
    kind = vc.choose(f"kind{i}", ["ack", "nack", "normal", "generic", "status", "request", "writing"])
    if kind == "ack":
        return ACK(), world.ACK
    if kind == "nack":
        return NACK(), world.NACK
    tag = vc.text(f"tag{i}", world.TAG, world.TAGS)
    if kind == "normal":
        return NormalMessage((Who.LIGHTING, What(tag), Where("11"))), "*1*" + tag + "*11##"
    if kind == "generic":
        return GenericMessage([tag, "5"]), "*" + tag + "*5##"
    if kind == "status":
        return StatusRequest((Who.AUTOMATION, Where(tag))), "*#2*" + tag + "##"
    if kind == "request":
        return DimensionRequest((Who.GATEWAY, Where(""), Dimension(tag))), "*#13**" + tag + "##"
    return DimensionWriting((Who.GATEWAY, Where(""), Dimension("0"), Value(tag))), "*#13**#0*" + tag + "##"


async def _setup(vc, session=SessionType.CommandSession):
    client, gw = await world.connect(vc, session)
    return client, gw, Flow(gw)


def _joined(flow):
    out = b""
    for d in flow.data:
        out = out + d
    return out.decode("ascii")


@harness("C11", exact=True)
def unpaused(vc):
    """While writing is not paused a message goes out at once, once and whole."""
    n = 0

    async def main():
        client, gw, flow = await _setup(vc)
        how = vc.choose("before", ["never paused", "resumed"])
        if how == "resumed":
            flow.set(True)
            flow.set(False)
        msg, text = _message(vc, 0)
        flow.pause_in_write = vc.choose("full", [False, True])
        force = vc.choose("force", [False, True])
        o = await vc.aoutcome(client.send_message(msg, force=force))
        vc.check(o.ok, "the message is accepted")
        vc.check(_joined(flow) == text, "exactly its frame is written")
        vc.check(not flow.bad, "nothing is written while writing is paused")
        # a second message after it
        flow.set(False)
        flow.pause_in_write = False
        flow.data = []
        msg2, text2 = _message(vc, 1)
        o = await vc.aoutcome(client.send_message(msg2))
        vc.check(o.ok, "the message is accepted")
        vc.check(_joined(flow) == text2, "exactly its frame is written")

    vc.run(main())


@harness("C11", exact=True)
def ending(vc):
    """A send while the connection is being closed, or after it was lost, writes its frame or raises: never neither."""
    how = vc.choose("how", ["closing", "lost", "reset", "open"])
    start = vc.choose("before", ["never paused", "resumed"])
    force = vc.choose("force", [False, True])

    async def main():
        client, gw, flow = await _setup(vc)
        if start == "resumed":
            flow.set(True)
            flow.set(False)
        if how != "open":
            gw.transport.closed = True
        if how == "lost":
            gw.protocol.connection_lost(None)
        elif how == "reset":
            gw.protocol.connection_lost(ConnectionResetError("reset"))
        msg, text = _message(vc, 0)
        o = await vc.aoutcome(client.send_message(msg, force=force))
        if o.ok:
            vc.check(_joined(flow) == text, "a send that completes wrote its frame, once")
        else:
            vc.check(how != "open", "a send on an open connection completes")
            vc.check(_joined(flow) in ("", text), "a send that fails wrote its frame at most once")

    vc.run(main())


@harness("C11", exact=True)
def other_connections(vc):
    """Another connection that is paused, resumed or closed changes nothing for this one."""
    first = vc.choose("created first", [False, True])
    did = vc.choose("did", ["paused", "resumed", "closed", "lost", "sent"])

    async def main():
        async def other():
            c, g, f = await _setup(vc, vc.choose("session", [SessionType.CommandSession, SessionType.EventSession]))
            if did in ("paused", "resumed"):
                f.set(True)
            if did == "resumed":
                f.set(False)
            if did == "closed":
                await c.close()
            if did == "lost":
                g.transport.closed = True
                g.protocol.connection_lost(None)
            if did == "sent":
                await c.send_message(_message(vc, 1)[0], force=True)
            return g, f

        if first:
            g2, f2 = await other()
        client, gw, flow = await _setup(vc)
        if not first:
            g2, f2 = await other()
        n = len(f2.data)
        msg, text = _message(vc, 0)
        o = await vc.aoutcome(client.send_message(msg))
        vc.check(o.ok, "the message is accepted")
        vc.check(_joined(flow) == text, "exactly its frame is written, on its own connection")
        vc.check(len(f2.data) == n, "nothing is written on the other")

    vc.run(main())


@harness("C11", only="sym", exact=True)
def any_flow(vc):
    """Whatever the transport does, for however long it stays paused: a completed send wrote its frame once, unpaused."""
    vc.expect_cover("waited", "written")

    async def main():
        client, gw, flow = await _setup(vc)
        start = vc.choose("paused", [False, True])
        flow.set(start)
        flow.pause_in_write = vc.choose("full", [False, True])
        msg, text = _message(vc, 0)
        entry = []

        def step():
            flow.set(vc.choose("step", [False, True]))
            flow.set(vc.choose("step", [False, True]))

        def head(loop):
            step()

        def back(loop):
            vc.check(flow.data == [], "nothing is written by a round that waits")
            vc.cover("waited")
            flow.set(start)  # the state of the transport at the head is arbitrary; everything else must be as before

        vc.env.on_sleep = step
        vc.ctx.cut_while = ("",)
        vc.ctx.on_head, vc.ctx.before_back = head, back
        o = await vc.aoutcome(client.send_message(msg))
        vc.cover("written")
        vc.check(o.ok, "the message is accepted")
        vc.check(_joined(flow) == text, "exactly its frame is written, once")
        vc.check(not flow.bad, "nothing is written while writing is paused")

    vc.run(main())


@harness("C11", exact=True)
def gives_up(vc):
    """The sender is cancelled, or the connection ends, while it waits: nothing is written while writing is paused, and
    a send that completes wrote its frame."""
    how = vc.choose("how", ["cancelled", "closing", "lost", "reset"])
    when = vc.choose("when", [0, 1, 2])
    resumes = vc.choose("resumed", [False, True])

    async def main():
        client, gw, flow = await _setup(vc)
        flow.set(True)
        msg, text = _message(vc, 0)
        sleeps = []

        def end():
            if how in ("closing", "lost", "reset"):
                gw.transport.closed = True
            if how in ("lost", "reset"):
                gw.protocol.connection_lost(None if how == "lost" else ConnectionResetError("reset"))

        def right(ok):
            if ok:
                vc.check(_joined(flow) == text, "a send that completes wrote its frame, once")
            vc.check(_joined(flow) in ("", text), "a frame is written once, whole")
            vc.check(not flow.bad, "nothing is written while writing is paused")

        if vc.symbolic:
            def step():
                sleeps.append(0)
                n = len(sleeps) - 1
                if n == when:
                    end()
                    if how == "cancelled":
                        raise asyncio.CancelledError()
                if n == when + 1:
                    if not resumes:
                        right(False)
                        vc.stop()
                    flow.set(False)

            vc.env.on_sleep = step
            try:
                o = await vc.aoutcome(client.send_message(msg))
            except asyncio.CancelledError:
                right(False)
            else:
                right(o.ok)
            return
        task = asyncio.ensure_future(client.send_message(msg))
        await asyncio.sleep(0.05 + when / 10)
        end()
        if how == "cancelled":
            task.cancel()
        await asyncio.sleep(vc.choose("then", [0, 0.15, 5]))
        if resumes:
            right(task.done() and not task.cancelled() and task.exception() is None)
            flow.set(False)
            await asyncio.sleep(1)
        right(task.done() and not task.cancelled() and task.exception() is None)
        task.cancel()

    vc.run(main())


@harness("C11", only="conc", weight=2)
def schedules(vc):
    """Bounded companion: several senders and a pausing transport on the real event loop."""
    n = vc.choose("messages", [1, 2, 3, 4, 12])
    msgs = [_message(vc, i) for i in range(n)]
    starts = [vc.int(f"at{i}", 0, 12) for i in range(n)]
    flips = [vc.int(f"flip{i}", 0, 9) for i in range(vc.int("flips", 0, 6))]
    unit = vc.choose("unit", [0.03, 0.05, 0.1] * 5 + [1, 60])

    async def main():
        client, gw, flow = await _setup(vc)
        flow.set(vc.choose("paused", [False, True]))
        flow.pause_in_write = vc.choose("full", [False, True])
        done = []

        async def sender(i):
            await asyncio.sleep(starts[i] * unit)
            await client.send_message(msgs[i][0])
            done.append(msgs[i][1])
            vc_texts = _joined(flow)
            if vc_texts.count(msgs[i][1]) < 1:
                flow.bad = True

        tasks = [asyncio.ensure_future(sender(i)) for i in range(n)]
        for f in flips:
            await asyncio.sleep(f * unit)
            flow.set(not flow.paused)
        for _ in range(400):
            if all(t.done() for t in tasks):
                break
            await asyncio.sleep(unit)
            flow.set(False)
        vc.check(all(t.done() and t.exception() is None for t in tasks), "every send completes once writing is not paused")
        vc.check(not flow.bad, "nothing is written while writing is paused, and a completed send was written")
        vc.check(sorted(_joined(flow).replace("##", "##\n").split()) == sorted(t for _, t in msgs),
                 "every message is written exactly once, whole")

    vc.run(main())
