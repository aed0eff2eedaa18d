"""C20: addresses are classified correctly."""
from pyown.exceptions import InvalidTag
from pyown.tags.where import Where, WhereType

from pyvc.api_common import harness

CORPUS = ["", "0", "00", "000", "001", "0010", "01", "09", "010", "1", "9", "10", "100", "101", "1000", "11", "99",
          "#", "#1", "#12", "#1#2", "##", "#1#2#3", "##1", "1#4#01", "0#3", "00#1", "100#1", "0315#4#01", "#0", "#3#01"]


def _expected(vc, t, R):
    """The class the property names for the address t (None: value error)."""
    if t == "0":
        return "GENERAL"
    if t == "00" or t == "100" or R.fullmatch("[1-9]", t):
        return "AMBIENT"
    if R.fullmatch("([1-9]|0[0-9])[0-9#]*", t):
        return "LIGHT_POINT"
    if R.fullmatch("#[0-9]*", t):
        return "GROUP"
    if R.fullmatch("#[0-9]*#[0-9]*", t):
        return "LOCAL_BUS"
    return None


@harness("C20", exact=True)
def where_type(vc):
    """Where(t).type for every tag text t."""
    import re

    t = vc.text("where", "[0-9#]*", CORPUS)
    vc.expect_cover("GENERAL", "AMBIENT", "LIGHT_POINT", "GROUP", "LOCAL_BUS", "error")
    o = vc.outcome(Where, t)
    vc.check(o.ok, "a text of digits and # makes an address")
    w = o.value
    for _ in range(vc.choose("read before", [0, 1, 2] if vc.symbolic else [0, 0, 1, 2, 8])):
        vc.outcome(lambda: w.type)
    got = vc.outcome(lambda: w.type)
    want = _expected(vc, t, re)
    vc.cover(want or "error")
    if want is None:
        vc.check(got.raised(ValueError), "an address outside the classification raises a value error")
    else:
        vc.check(got.ok and got.value is getattr(WhereType, want), f"the address is {want}")


@harness("C20")
def where_type_of_number(vc):
    """Addresses given as integers classify as their decimal text."""
    n = vc.int("n", lo=0)
    got = vc.outcome(lambda: Where(n).type)
    txt = vc.outcome(lambda: Where(vc.num_text(n)).type)
    vc.check(got.kind == txt.kind, "same outcome as its decimal text")
    if got.ok:
        vc.check(got.value is txt.value, "same class as its decimal text")
