"""C10: delivered messages depend only on the byte stream, not on its chunking.

Argument.  Let r(S) be what follows the last complete frame of a stream S (frames are cut at the leftmost "##").
 - one_read / any_read: a read d that finds the remainder p (a text without "##") delivers exactly the parsed
   frames completed by p+d, in order, once each;
 - remainder: after a read the protocol is in the state in which it is when only r was received.
By induction on the reads the messages delivered by any chunking are those of the concatenated stream.
any_read has no bound on the number of frames (the loop is cut by its invariant); one_read unrolls up to three."""
import asyncio
import re

from pyown.exceptions import InvalidMessage
from pyown.messages import parse_message
from pyown.protocol import OWNProtocol

from pyvc.api_common import harness

from . import frames, world

ASCII = "[\\x00-\\x7f]"
NOHASH = "[\\x00-\\x22\\x24-\\x7f]"
PIECE = f"(#?{NOHASH})*"  # a complete piece: no ##, does not end with #
REST = f"(#?{NOHASH})*#?"  # an incomplete one: no ##
VIS = "[\\x21\\x22\\x24-\\x7e]"  # printable, not #
VPIECE = f"(#?{VIS})*"
VREST = f"(#?{VIS})*#?"
GOOD = [f[:-2] for f in frames.CORPUS if f.endswith("##") and "##" not in f[:-2]]
PIECES = GOOD + ["\r\n*1*1*12", " ", "", "*1*1*1x", "abc", "1*1*12", "*#1", "\n", "*1*a*2", "*1*1*12 "]


class Parsed:
    """What the contract of parse_message (C01, C02) promises: a message that prints the stripped text."""

    _vc_env_ = True

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    message = property(__str__)


def _wellformed(vc, text):
    return re.fullmatch(frames.FRAME, text.strip()) is not None


def _stub(vc):
    if vc.symbolic:

        def parse(message):
            if not _wellformed(vc, message):
                raise InvalidMessage(message)
            return Parsed(message.strip())

        vc.stub("pyown.messages.base:parse_message", parse)


async def _protocol(vc, writing="open"):
    gw = world.Gateway(greeting=None)
    loop = vc.loop(gw.connect)
    p = OWNProtocol(on_connection_start=loop.create_future(), on_connection_end=loop.create_future())
    p.connection_made(gw.transport)
    if writing != "open":
        p.pause_writing()
    if writing == "resumed":
        p.resume_writing()
    return p


async def _drain(vc, p):
    """Everything delivered so far."""
    out = []
    while len(out) < 10000:
        o = await vc.aoutcome(asyncio.wait_for(p.receive_messages(), 1))
        if not o.ok:
            return out
        out.append(o.value)


def _feed(vc, p, text):
    return vc.outcome(p.data_received, text.encode("ascii"))


def _same(vc, got, pieces):
    """got is the list of parsed messages of the well-formed pieces."""
    want = [(f + "##") for f in pieces if _wellformed(vc, f + "##")]
    vc.check(len(got) >= len(want), "every well-formed complete frame is delivered")
    vc.check(len(got) <= len(want), "nothing else is delivered")
    for m, t in zip(got, want):
        vc.check(str(m) == t.strip(), "the delivered message is that frame, in order")
        if not vc.symbolic:
            w = parse_message(t)
            vc.check(type(m) is type(w) and m == w, "the delivered message is the parsed frame")


def _piece(vc, name, lang=PIECE):
    return vc.text(name, lang, PIECES)


def _cut_piece(vc, name, ch=NOHASH):
    """An arbitrary complete piece cut at an arbitrary place (also inside its terminator): (before, after)."""
    piece = f"(#?{ch})*"
    how = vc.choose(name + ".cut", ["plain", "after #", "in ##"])
    a = vc.text(name + ".a", piece, PIECES + ["*1*", "*1*1", "*#", "*", "", "*#1*12*"])
    if how == "in ##":
        return a + "#", "#"
    if how == "plain":
        b = vc.text(name + ".b", piece, PIECES + ["1*12", "2", "*12", ""])
        return a, b + "##"
    b = vc.text(name + ".b", f"{ch}{piece}", ["1*12", "2", "*12", "*1"])
    return a + "#", b + "##"


@harness("C10", exact=True, params=["0", "1", "2", "3"], weight=2)
def one_read(vc, n):
    """One read with n complete frames (n = 3: without whitespace) and an incomplete one on a fresh connection."""
    _stub(vc)
    pieces = [_piece(vc, f"f{i}", PIECE if n < "3" else VPIECE) for i in range(int(n))]
    rest = vc.text("rest", REST if n < "2" else VREST, ["", "*1", "*1*1*12#", "*", " ", "x"])

    writing = vc.choose("writing", ["open", "paused"] if n < "3" else ["open"])

    async def main():
        p = await _protocol(vc, writing)
        _feed(vc, p, "".join(f + "##" for f in pieces) + rest)
        _same(vc, await _drain(vc, p), pieces)

    vc.run(main())


@harness("C10", exact=True, params=["1", "2"], weight=2)
def split_frame(vc, n):
    """A frame cut anywhere over two reads, another one after it (n = 2: without whitespace): delivered when
    complete, as one frame."""
    _stub(vc)
    a, b = _cut_piece(vc, "f0", NOHASH if n == "1" else VIS)
    pieces = [_piece(vc, f"f{i}", VPIECE) for i in range(1, int(n))]
    rest = vc.text("rest", VREST, ["", "*1", "*1*1*12#", "*", " ", "x"])
    writing = vc.choose("writing", ["open", "paused", "resumed", "meanwhile"])

    async def main():
        p = await _protocol(vc, writing if writing != "meanwhile" else "open")
        _feed(vc, p, a)
        vc.check(await _drain(vc, p) == [], "an incomplete frame is not delivered")
        if writing == "meanwhile":
            p.pause_writing()
            if n == "1":
                p.resume_writing()
        _feed(vc, p, b + "".join(f + "##" for f in pieces) + rest)
        _same(vc, await _drain(vc, p), [(a + b)[:-2]] + pieces)

    vc.run(main())


@harness("C10", exact=True, weight=2)
def three_reads(vc):
    """A frame after another one, cut over three reads (no whitespace)."""
    _stub(vc)
    f0 = _piece(vc, "f0", VPIECE)
    a, b = _cut_piece(vc, "f1", VIS)
    mid = vc.text("mid", f"{VIS}+", ["1", "*", "12", "*1"])

    async def main():
        p = await _protocol(vc)
        _feed(vc, p, f0 + "##" + a)
        _same(vc, await _drain(vc, p), [f0])
        if b != "#":
            _feed(vc, p, mid)
            vc.check(await _drain(vc, p) == [], "an incomplete frame is not delivered")
            _feed(vc, p, b)
            _same(vc, await _drain(vc, p), [(a + mid + b)[:-2]])
        else:
            _feed(vc, p, b)
            _same(vc, await _drain(vc, p), [(a + b)[:-2]])

    vc.run(main())


@harness("C10", exact=True, weight=2)
def two_connections(vc):
    """What another connection receives, or its end, changes nothing for this one (no whitespace)."""
    _stub(vc)
    a, b = _cut_piece(vc, "f0", VIS)
    c = _piece(vc, "f1", VPIECE)
    d = vc.text("rest", VREST, ["", "*1", "*1*1*12#", "*", "x"])
    before = vc.choose("created", ["before", "between"])
    lost = vc.choose("lost", [False, True])

    async def main():
        if before == "before":
            q = await _protocol(vc)
        p = await _protocol(vc)
        _feed(vc, p, a)
        if before == "between":
            q = await _protocol(vc)
        _feed(vc, q, c + "##" + d)
        if lost:
            q.connection_lost(None)
        vc.check(await _drain(vc, p) == [], "an incomplete frame is not delivered")
        _feed(vc, p, b)
        _same(vc, await _drain(vc, p), [(a + b)[:-2]])
        _same(vc, await _drain(vc, q), [c])

    vc.run(main())


@harness("C10", exact=True)
def not_ascii(vc):
    """Non-ASCII data is an error and delivers nothing from that read."""
    _stub(vc)
    before = vc.text("before", REST, ["", "*1*1", "*1*1*12#"])
    any_ = vc.lang.charset([(0, 255)]).star()
    a = vc.bytes("a", any_, ["*1*1*12##", ""])
    hi = vc.bytes("hi", vc.lang.charset([(128, 255)]), ["\u00e9", "\u00ff"])
    b = vc.bytes("b", any_, ["*1*1*12##", ""])

    async def main():
        p = await _protocol(vc)
        _feed(vc, p, before)
        await _drain(vc, p)
        o = vc.outcome(p.data_received, a + hi + b)
        vc.check(o.kind == "exc", "non-ASCII data raises an error")
        vc.check(await _drain(vc, p) == [], "and delivers nothing")

    vc.run(main())


@harness("C10", only="sym")
def any_read(vc):
    """A read with any number of frames after any remainder: each complete frame is handled as one_read says."""
    _stub(vc)
    before = vc.text("before", VREST)
    data = vc.text("data", f"{ASCII}*")
    writing = vc.choose("writing", ["open", "paused", "resumed"])

    async def main():
        p = await _protocol(vc, writing)
        _feed(vc, p, before)
        await _drain(vc, p)
        here = []

        def elem(loop, x):
            here.append((loop.id, x))

        def back(loop):
            # one generic iteration: the frame is delivered at once if it is well-formed, otherwise nothing is
            got = [m for m in vc.queued()]
            vc.check(here[-1][0] == loop.id, "one loop goes through the frames")
            _same(vc, got, [here[-1][1]])
            vc.cover("generic frame")

        vc.expect_cover("generic frame")
        vc.ctx.on_elem, vc.ctx.on_back = elem, back
        vc.ctx.hook_kinds = ("for", "while")
        vc.ctx.frame_ok = vc.is_queue  # the queue is judged by back(), iteration by iteration
        _feed(vc, p, data)
        # the state left behind is that of a connection that received only the remainder
        vc.ctx.on_elem = vc.ctx.on_back = None
        q = await _protocol(vc)
        _feed(vc, q, (before + data).split("##")[-1])
        vc.check(vc.same_state(p, q), "the state depends only on the text after the last complete frame")

    vc.run(main())


@harness("C10", only="sym")
def remainder(vc):
    """After f##rest the protocol is in the same state as after rest alone."""
    _stub(vc)
    f0 = _piece(vc, "f0")
    f1 = _piece(vc, "f1")
    a = vc.text("a", REST)
    b = vc.text("b", f"{NOHASH}{PIECE}#?")

    async def main():
        p, q, r = await _protocol(vc), await _protocol(vc), await _protocol(vc)
        k = vc.choose("reads", ["same", "next", "cut"])
        if k == "same":
            _feed(vc, p, f0 + "##" + f1 + "##" + a)
            _feed(vc, q, a)
        elif k == "next":
            _feed(vc, p, f0 + "##")
            _feed(vc, p, a)
            _feed(vc, q, a)
        else:
            _feed(vc, p, a)
            _feed(vc, p, b)
            _feed(vc, q, a + b)
        vc.check(vc.same_state(p, q), "the state depends only on the text after the last complete frame")

    vc.run(main())


@harness("C10", only="conc", weight=3)
def streams(vc):
    """Bounded companion: random streams cut into random reads on the real code."""
    n = vc.int("frames", 0, 6)
    pieces = [_piece(vc, f"f{i}") for i in range(n)]
    rest = vc.text("rest", REST, ["", "*1", "*1*1*12#", "*", " ", "x"])
    s = "".join(f + "##" for f in pieces) + rest
    cuts = sorted(vc.int(f"cut{i}", 0, len(s)) for i in range(vc.int("cuts", 0, 8)))
    cuts = [0] + cuts + [len(s)]

    async def main():
        p = await _protocol(vc)
        got = []
        paused = False
        for i, j in zip(cuts, cuts[1:]):
            if vc.choose(f"switch{i}", [False, False, True]):
                paused = not paused
                (p.pause_writing if paused else p.resume_writing)()
            elif not paused and vc.choose(f"send{i}", [False, True]):
                await p.send_message(parse_message("*1*1*11##"))
            _feed(vc, p, s[i:j])
            got += await _drain(vc, p)
            done = s[:j].split("##")[:-1]
            _same(vc, got, done)

    vc.run(main())


@harness("C10", only="conc", fresh=True)
def backlog(vc):
    """Bounded companion: many frames, in one read or one by one, before any of them is read."""
    n = vc.choose("frames", [2, 17, 65, 129, 260, 600, 1100])
    step = vc.choose("in one read", [1, 3, 50, 5000])
    pieces = ["*1*1*" + str(i) for i in range(n)]
    writing = vc.choose("writing", ["open", "paused", "resumed"])

    async def main():
        p = await _protocol(vc, writing)
        for i in range(0, n, step):
            o = _feed(vc, p, "".join(f + "##" for f in pieces[i : i + step]))
            vc.check(o.ok, "the frames are taken")
        got = []
        while len(got) <= n:
            o = await vc.aoutcome(asyncio.wait_for(p.receive_messages(), 1))
            if not o.ok:
                break
            got.append(str(o.value))
        vc.check(got == [f + "##" for f in pieces], "every frame is delivered, in order, once")

    vc.run(main())


@harness("C10", only="conc")
def long_frames(vc):
    """Bounded companion: one long frame in many small reads."""
    n = vc.choose("tags", [10, 300, 5000])
    step = vc.choose("read", [1, 7, 1400])
    t = "*#18*51*511#1#2" + "".join("*" + str(i % 97) for i in range(n)) + "##"

    async def main():
        p = await _protocol(vc)
        for i in range(0, len(t), step):
            _feed(vc, p, t[i : i + step])
        got = await _drain(vc, p)
        vc.check([str(m) for m in got] == [t], "the frame is delivered once")

    vc.run(main())
