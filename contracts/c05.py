"""C05: tags hold only protocol characters and decompose consistently."""
import enum
import re

from pyown.exceptions import InvalidTag
from pyown.messages import (ACK, NACK, DimensionRequest, DimensionResponse, DimensionWriting, GenericMessage,
                            NormalMessage, StatusRequest)
from pyown.tags import Dimension, Value, What, Where, Who
from pyown.tags.base import Tag, TagWithParameters

from pyown.items.automation.automation import WhatAutomation
from pyown.items.camera.camera import WhatCamera
from pyown.items.energy.enums import DimensionEnergy, WhatEnergy
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting.base import WhatLight

from pyvc.api_common import harness

CORPUS = ["", "0", "1", "12", "#", "#1", "1#2", "1#2#3", "##", "1##2", "#1#2", "a", "1 ", "*", "1*2", "-1", "\u0661", "1\n",
          "007", "1#", "²"]
CLASSES = {"Tag": Tag, "TagWithParameters": TagWithParameters, "Value": Value, "What": What, "Where": Where,
           "Dimension": Dimension}
PARAM = {"TagWithParameters": TagWithParameters, "What": What, "Where": Where, "Dimension": Dimension}
ENUMS = {"WhatLight": (WhatLight, What), "WhatAutomation": (WhatAutomation, What), "WhatCamera": (WhatCamera, What),
         "WhatGateway": (WhatGateway, What), "WhatEnergy": (WhatEnergy, What),
         "DimensionEnergy": (DimensionEnergy, Dimension)}
WHO = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25", "1001", "1004",
       "1013", "1018"]


@harness("C05", exact=True, params=list(CLASSES))
def creation(vc, cls):
    """Tag(t) exists exactly for texts of digits and #; anything else is an invalid tag."""
    C = CLASSES[cls]
    t = vc.text("t", corpus=CORPUS)
    vc.expect_cover("accepted", "refused")
    o = vc.outcome(C, t)
    if re.fullmatch("[0-9#]*", t):
        vc.cover("accepted")
        vc.check(o.ok, "a text of digits and # makes a tag")
        vc.check(o.value.string == t, "the tag holds the text")
        vc.check(str(o.value) == t, "the tag prints the text")
        vc.check(o.value == t, "the tag equals its own text")
        vc.check(C(t) == o.value, "tags of one text are equal")
        vc.check(hash(C(t)) == hash(o.value), "equal tags have equal hashes")
    else:
        vc.cover("refused")
        vc.check(o.raised(InvalidTag), "any other text raises the invalid-tag error")


@harness("C05", params=list(CLASSES))
def creation_from_int(vc, cls):
    """Tag(n) is the tag of the decimal text of n; negative numbers are invalid."""
    C = CLASSES[cls]
    n = vc.int("n")
    vc.expect_cover("accepted", "refused")
    o = vc.outcome(C, n)
    if n >= 0:
        vc.cover("accepted")
        vc.check(o.ok, "a non-negative integer makes a tag")
        vc.check(o.value.string == vc.num_text(n), "the tag holds its decimal text")
        vc.check(o.value == C(vc.num_text(n)), "it equals the tag of its decimal text")
    else:
        vc.cover("refused")
        vc.check(o.raised(InvalidTag), "a negative integer raises the invalid-tag error")


@harness("C05", exact=True, params=list(PARAM))
def decomposition(vc, cls):
    """value = text before the first #, parameters = the pieces after it."""
    C = PARAM[cls]
    t = vc.text("t", "[0-9#]*", CORPUS)
    vc.expect_cover("plain", "parameters")
    head, sep, rest = t.partition("#")
    g = C(t)
    vc.check(g.tag == head, "the value is the text before the first #")
    if sep == "":
        vc.cover("plain")
        vc.check(list(g.parameters) == [], "no # means no parameters")
    else:
        vc.cover("parameters")
        vc.check(list(g.parameters) == rest.split("#"), "the parameters are the pieces after the first #")


@harness("C05", exact=True, params=list(CLASSES))
def adding_a_parameter(vc, cls):
    """with_parameter appends # and the parameter."""
    C = CLASSES[cls]
    t = vc.text("t", "[0-9#]*", CORPUS)
    p = vc.text("p", "[0-9]*", CORPUS)
    g = C(t)
    r = g.with_parameter(p)
    vc.check(r.string == t + "#" + p, "the old text followed by # and the parameter")
    vc.check(g.string == t and g == t, "the old tag is unchanged")
    n = vc.int("n", lo=0)
    q = g.with_parameter(n)
    vc.check(q.string == t + "#" + vc.num_text(n), "the same with a number")
    vc.check(r.string == t + "#" + p and g.string == t, "and nothing else has changed")
    if cls in PARAM:
        vc.check(isinstance(q, C), "the result is a tag of the same kind")
        vc.check(list(g.parameters) == t.split("#")[1:], "the old tag decomposes as before")
        vc.check(list(r.parameters) == (t + "#" + p).split("#")[1:], "and the new one into one piece more")


@harness("C05", exact=True, params=list(ENUMS))
def adding_a_parameter_to_enumerated(vc, name):
    """The same for the tags the items use as commands and dimensions."""
    E, base = ENUMS[name]
    m = vc.choose("member", list(E))
    p = vc.text("p", "[0-9]*", CORPUS)
    vc.check(str(m) == m.value, "an enumerated tag prints its own text")
    vc.check(m == base(m.value), "an enumerated tag equals the plain tag of its text")
    vc.check(hash(m) == hash(base(m.value)), "and has its hash")
    o = vc.outcome(m.with_parameter, p)
    vc.check(o.ok, "a parameter can be added")
    vc.check(str(o.value) == m.value + "#" + p, "the old text followed by # and the parameter")
    vc.check(isinstance(o.value, base), "the result is a tag of the same kind")
    vc.check(o.value.tag == m.value and list(o.value.parameters) == [p], "and decomposes again")
    vc.check(str(m) == m.value and m == base(m.value) and list(m.parameters) == [], "the enumerated tag is unchanged")


@harness("C05", exact=True, params=list(ENUMS))
def made_from_enumerated(vc, name):
    """An enumerated tag is a text too: a tag made from it is the tag of that text, and leaves it as it was."""
    E, base = ENUMS[name]
    m = vc.choose("member", list(E))
    C = CLASSES[vc.choose("class", list(CLASSES))]
    o = vc.outcome(C, m)
    vc.check(o.ok, "a tag can be made from an enumerated one")
    p = vc.outcome(str, o.value)
    vc.check(p.ok and p.value == m.value, "it prints that text")
    vc.check(o.value == C(m.value) and hash(o.value) == hash(C(m.value)), "it equals the tag of that text, and hashes equally")
    if C not in (Tag, Value):
        r = vc.outcome(lambda: str(o.value.with_parameter("3")))
        vc.check(r.ok and r.value == m.value + "#3", "a parameter can be added")
    vc.check(str(m) == m.value and m == base(m.value), "the enumerated tag is unchanged")


@harness("C05", exact=True, params=list(CLASSES))
def equality(vc, cls):
    """Equal exactly when the texts are equal, whatever the kind of tag; equal tags hash equally."""
    C = CLASSES[cls]
    D = CLASSES[vc.choose("other", list(CLASSES))]
    a = vc.text("a", "[0-9#]*", CORPUS)
    b = a if vc.choose("same", [False, True]) else vc.text("b", "[0-9#]*", CORPUS)
    same = a == b
    x, y = C(a), D(b)
    if same:
        vc.check(x == y, "tags of equal texts are equal")
        vc.check(not (x != y), "and not different")
        vc.check(hash(x) == hash(y), "and hash equally")
        vc.check(x == b, "a tag equals its own text")
    else:
        vc.check(not (x == y), "tags of different texts are different")
        vc.check(x != y, "also by the inequality operator")
        vc.check(x != b, "a tag differs from another text")


@harness("C05", exact=True, params=list(CLASSES))
def other_texts(vc, cls):
    """A tag equals its own text and no other text at all."""
    C = CLASSES[cls]
    a = vc.text("a", "[0-9#]*", CORPUS)
    t = vc.text("t", corpus=["", " ", "1 ", " 1", "01", "1", "#1", "1#", "１", "1\n", "+1", "1.0", "0", "00", "None", "١"])
    x = C(a)
    vc.check((x == t) == (a == t), "it equals exactly its own text")
    vc.check((x != t) == (a != t), "and differs from every other")


@harness("C05", exact=True)
def who_descriptions(vc):
    """Exactly the documented WHO values exist, each with a description."""
    w = vc.choose("who", WHO)
    o = vc.outcome(Who, w)
    vc.check(o.ok, "every documented WHO exists")
    vc.check(str(o.value) == w and o.value == w, "a WHO prints and equals its own text")
    d = vc.outcome(lambda: o.value.name)
    vc.check(d.ok and isinstance(d.value, str) and d.value != "", "every WHO has a description")
    vc.check(len({x.name for x in Who}) == len(list(Who)), "descriptions tell the WHOs apart")
    vc.check(o.value == Who(w) and hash(o.value) == hash(Who(w)), "equal WHOs hash equally")


def _fields(vc, i):
    return vc.choose(f"who{i}", ["1", "13", "1018"]), [vc.text(f"t{i}{j}", "[0-9#]*", CORPUS) for j in range(4)]


def _message(kind, who, tx):
    who = Who(who)
    if kind == "ack":
        return ACK()
    if kind == "nack":
        return NACK()
    if kind == "normal":
        return NormalMessage((who, What(tx[0]), Where(tx[1])))
    if kind == "status":
        return StatusRequest((who, Where(tx[0])))
    if kind == "request":
        return DimensionRequest((who, Where(tx[0]), Dimension(tx[1])))
    if kind == "writing none":
        return DimensionWriting((who, Where(tx[0]), Dimension(tx[1])))
    if kind == "writing":
        return DimensionWriting((who, Where(tx[0]), Dimension(tx[1]), Value(tx[2])))
    if kind == "one response":
        return DimensionResponse((who, Where(tx[0]), Dimension(tx[1]), Value(tx[2])))
    if kind == "response":
        return DimensionResponse((who, Where(tx[0]), Dimension(tx[1]), Value(tx[2]), Value(tx[3])))
    return GenericMessage([tx[0], tx[1]] if kind == "generic" else [tx[0], tx[1], tx[2]])


KINDS = ["ack", "nack", "normal", "status", "request", "writing none", "writing", "one response", "response", "generic", "longer"]
CLASS = {"writing none": "writing", "one response": "response", "longer": "generic"}


@harness("C05", exact=True, params=KINDS)
def message_hashes(vc, kind):
    """Equal messages have equal hashes; a message equals a rebuilt copy of itself and no other kind."""
    f = _fields(vc, 1)
    x = _message(kind, *f)
    h = vc.outcome(hash, x)
    vc.check(h.ok, "every message can be hashed")
    other = vc.choose("other", KINDS)
    y = _message(other, *(f if vc.choose("copy", [False, True]) else _fields(vc, 2)))
    e = x == y
    if e:
        vc.check(CLASS.get(other, other) == CLASS.get(kind, kind), "only messages of the same kind are equal")
        vc.check(hash(x) == hash(y), "equal messages have equal hashes")
        vc.check(str(x) == str(y), "equal messages print the same")
    else:
        vc.check(x != y, "equality and inequality agree")
        vc.check(CLASS.get(kind, kind) != CLASS.get(other, other) or str(x) != str(y), "messages of one kind that print the same are equal")
