"""C03: frames are classified by structure, with every field at its place."""
import re

from pyown.messages import (ACK, NACK, DimensionRequest, DimensionResponse, DimensionWriting, GenericMessage,
                            NormalMessage, StatusRequest, parse_message)
from pyown.messages.base import MessageType
from pyown.tags import Dimension, What, Where, Who

from pyvc.api_common import harness

from . import frames

TAG = "[0-9]*(#[0-9]+)*"  # a tag without ## inside, not ending in #
DIG = "[0-9#]*"


def _parse(vc, s):
    o = vc.outcome(parse_message, s)
    vc.check(o.ok, "a well-formed frame is accepted")
    return o.value


def _who(vc):
    return vc.choose("who", list(frames.KNOWN))


TAGS = ["", "1", "12", "0", "1#4#01", "#1", "#3#01", "1#2", "1000#1", "001", "100", "#", "2#", "71#0"]
VALS = ["1", "1*2", "", "*", "1**3", "1#2*3", "#1*2", "12*34*56*001", "*".join("%d" % i for i in range(300)), "7" * 400, "0*" * 40]
NB = "(#?[0-9])*"  # a tag: no ## inside, does not end with #
BODY = "(#?[0-9])*#?"  # a tag that may end with #


def _again(vc, m, text):
    """Reading the fields changes nothing: the message still prints the same and reads the same."""
    vc.check(str(m) == text, "the message still prints its frame")
    for f in ("who", "what", "where", "dimension", "values", "tags"):
        x = getattr(m, f, None)
        y = getattr(m, f, None)
        vc.check(x == y, "reading a field twice gives the same")


def _is(vc, m, cls, typ):
    vc.check(type(m) is cls, f"it becomes a {cls.__name__}")
    vc.check(m.type == typ, f"its type is {typ.name}")


@harness("C03", exact=True)
def ack_nack(vc):
    """*#*1## and *#*0## are the only ACK and NACK."""
    _is(vc, _parse(vc, "*#*1##"), ACK, MessageType.ACK)
    _is(vc, _parse(vc, "*#*0##"), NACK, MessageType.NACK)


@harness("C03", exact=True, weight=2)
def normal(vc):
    """*WHO*WHAT*WHERE##"""
    who = _who(vc)
    what = vc.text("what", BODY, TAGS)
    where = vc.text("where", BODY, TAGS)
    t = "*" + who + "*" + what + "*" + where + "##"
    m = _parse(vc, t)
    _is(vc, m, NormalMessage, MessageType.NORMAL)
    vc.check(m.who == who and isinstance(m.who, Who), "WHO is the first tag")
    vc.check(m.what == what and isinstance(m.what, What), "WHAT is the second tag")
    vc.check(m.where == where and isinstance(m.where, Where), "WHERE is the third tag")
    _again(vc, m, t)


@harness("C03", exact=True, weight=2)
def status(vc):
    """*#WHO*WHERE##"""
    who = _who(vc)
    where = vc.text("where", BODY, TAGS)
    t = "*#" + who + "*" + where + "##"
    m = _parse(vc, t)
    _is(vc, m, StatusRequest, MessageType.STATUS_REQUEST)
    vc.check(m.who == who and isinstance(m.who, Who), "WHO is the first tag without #")
    vc.check(m.where == where and isinstance(m.where, Where), "WHERE is the second tag")
    _again(vc, m, t)


@harness("C03", exact=True, weight=2)
def dimension_request(vc):
    """*#WHO*WHERE*DIM##"""
    who = _who(vc)
    where = vc.text("where", BODY, TAGS)
    dim = vc.text("dim", "([0-9]" + BODY + ")?", TAGS)
    t = "*#" + who + "*" + where + "*" + dim + "##"
    m = _parse(vc, t)
    _is(vc, m, DimensionRequest, MessageType.DIMENSION_REQUEST)
    vc.check(m.who == who, "WHO is the first tag without #")
    vc.check(m.where == where and isinstance(m.where, Where), "WHERE is the second tag")
    vc.check(m.dimension == dim and isinstance(m.dimension, Dimension), "DIM is the third tag")
    _again(vc, m, t)


@harness("C03", exact=True, weight=3)
def dimension_writing(vc):
    """*#WHO*WHERE*#DIM*V1*..*Vn##, n >= 0"""
    who = _who(vc)
    where = vc.text("where", BODY, TAGS)
    dim = vc.text("dim", "([0-9]" + BODY + ")?", TAGS)
    vc.expect_cover("no values", "values")
    if vc.choose("values", [False, True]):
        vc.cover("values")
        vals = vc.text("vals", BODY + "(\\*" + BODY + ")*", VALS)
        t = "*#" + who + "*" + where + "*#" + dim + "*" + vals + "##"
        want = vals.split("*")
    else:
        vc.cover("no values")
        t = "*#" + who + "*" + where + "*#" + dim + "##"
        want = []
    m = _parse(vc, t)
    _is(vc, m, DimensionWriting, MessageType.DIMENSION_WRITING)
    vc.check(m.who == who, "WHO is the first tag without #")
    vc.check(m.where == where and isinstance(m.where, Where), "WHERE is the second tag")
    vc.check(m.dimension == dim and isinstance(m.dimension, Dimension), "DIM is the third tag without #")
    vc.check([str(v) for v in m.values] == want, "the values are the remaining tags in order")
    _again(vc, m, t)


@harness("C03", exact=True, weight=3)
def dimension_response(vc):
    """*#WHO*WHERE*DIM*V1*..*Vn##, n >= 1"""
    who = _who(vc)
    where = vc.text("where", BODY, TAGS)
    dim = vc.text("dim", "([0-9]" + BODY + ")?", TAGS)
    vals = vc.text("vals", BODY + "(\\*" + BODY + ")*", VALS)
    t = "*#" + who + "*" + where + "*" + dim + "*" + vals + "##"
    m = _parse(vc, t)
    _is(vc, m, DimensionResponse, MessageType.DIMENSION_RESPONSE)
    vc.check(m.who == who, "WHO is the first tag without #")
    vc.check(m.where == where and isinstance(m.where, Where), "WHERE is the second tag")
    vc.check(m.dimension == dim and isinstance(m.dimension, Dimension), "DIM is the third tag")
    vc.check([str(v) for v in m.values] == vals.split("*"), "the values are the remaining tags in order")
    _again(vc, m, t)


@harness("C03", exact=True, weight=4)
def generic(vc):
    """Every other well-formed frame becomes a generic message with the tags in order."""
    L = vc.lang
    t = vc.text("frame", L.regex(frames.FRAME) - L.regex(frames.STRUCTURED), [
        "*99*0##", "*#603356072##", "*1000*1*1##", "*#1000*1*1*1##", "*1*2##", "*1*2*3*4##", "*##", "**##", "*1##", "*#1##",
        "*#*2##", "*01*1*1##", "*#1#2*1##", "*1#2*1*1##", "*#01*1*1##", "*98*1##", "*#9999*0*1*2##", "*#**##", "*9*1*1##",
        "*#*1*##", "*#*0*0##", "*#*1#1##", "*99" + "*1" * 300 + "##", "*" + "*".join("%d" % i for i in range(300)) + "##"])
    m = _parse(vc, t)
    _is(vc, m, GenericMessage, MessageType.GENERIC)
    vc.check(list(m.tags) == t[1:-2].split("*"), "it carries the tags in order")
    _again(vc, m, t)
