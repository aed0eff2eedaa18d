"""C02: the parser accepts exactly the well-formed frames and fails only cleanly."""
from pyown.exceptions import ParseError

from pyvc.api_common import harness

from . import frames


@harness("C02", exact=True, budget=300, weight=8)
def acceptance(vc):
    """parse_message(s) for every text s."""
    s = vc.text("s", corpus=frames.CORPUS)
    o = frames.parse(vc, s)
    vc.expect_cover("accepted", "refused")
    if o.ok:
        vc.cover("accepted")
        vc.check(frames.accepted(vc, s), "only well-formed frames are accepted")
    else:
        vc.cover("refused")
        vc.check(o.raised(ParseError), "a refusal is one of the library's parse errors")
        vc.check(not frames.accepted(vc, s), "well-formed frames are not refused")


@harness("C02", only="conc")
def prompt(vc):
    """Bounded companion: long texts, well-formed or spoilt at one place, are answered within two seconds."""
    import signal

    unit = vc.choose("unit", ["1", "*1", "*1#2", "#1", "*", "*#1", "0123456789", "*1*2#3#4"])
    n = vc.choose("times", [10, 40, 400, 4000])
    head = vc.choose("head", ["*", "*#", "*1*1*", "*#13**", "*#18*51*511#1#2*", "*#1*1*#2*"])
    tail = vc.choose("tail", ["##", "x##", "#x##", " ##", "##x", "*##", "###", "", "##\n", "*x"])
    s = head + unit * n + tail

    def late(*_):
        raise TimeoutError("no answer")

    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 2)
    try:
        o = frames.parse(vc, s)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    vc.check(not (o.kind == "exc" and isinstance(o.value, TimeoutError)), "the parser answers")
    if o.ok:
        vc.check(frames.accepted(vc, s), "only well-formed frames are accepted")
        vc.check(str(o.value) == s.strip(), "the message prints the stripped text")
    else:
        vc.check(o.raised(ParseError), "a refusal is one of the library's parse errors")
        vc.check(not frames.accepted(vc, s), "well-formed frames are not refused")
