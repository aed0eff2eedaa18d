"""C01: accepted frames print back exactly."""
from pyvc.api_common import harness

from . import frames


@harness("C01", exact=True, budget=300, weight=8)
def round_trip(vc):
    """str(parse_message(s)) == s.strip() and bytes == its ASCII encoding, for every accepted s."""
    s = vc.text("s", corpus=frames.CORPUS)
    o = frames.parse(vc, s)
    vc.expect_cover("accepted")
    if not o.ok:
        vc.stop()
    vc.cover("accepted")
    m = o.value
    t = s.strip()
    vc.check(str(m) == t, "the message prints the stripped text")
    vc.check(m.message == t, "its message property is the stripped text")
    vc.check(m.bytes == t.encode("ascii"), "its byte form is the ASCII encoding")


@harness("C01", only="conc")
def long(vc):
    """Bounded companion: frames of many fields and of long fields."""
    head = vc.choose("head", ["*#1*11*1", "*#13**#0", "*1*1", "*#18*51*52#21#3", "*99", "*#98"])
    n = vc.choose("count", [10, 64, 255, 256, 257, 1000, 5000])
    if vc.choose("shape", ["fields", "digits", "parameters"]) == "fields":
        t = head + "".join([vc.choose(f"field{i}", ["*", "*5", "*07", "*1#2"]) for i in range(min(n, 12))]) * -(-n // 12) + "##"
    else:
        t = head + "*" + vc.choose("piece", ["7", "01", "#1", "#", "0"]) * n + "##"
    if t.count("##") != 1 or "###" in t:
        vc.stop()
    o = frames.parse(vc, t)
    vc.check(o.ok, "a well-formed frame is parsed")
    vc.check(str(o.value) == t and o.value.bytes == t.encode("ascii"), "the message prints the text")
