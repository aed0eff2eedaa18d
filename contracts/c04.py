"""C04: built messages survive serialise-and-parse unchanged."""
from pyown.messages import (ACK, NACK, DimensionRequest, DimensionResponse, DimensionWriting, NormalMessage,
                            StatusRequest, parse_message)
from pyown.tags import Dimension, Value, What, Where, Who

from pyown.items.automation.automation import WhatAutomation
from pyown.items.energy.enums import DimensionEnergy, WhatEnergy
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting.base import WhatLight

from pyvc.api_common import harness

from . import frames
from .c03 import BODY, TAGS, VALS

DIM = "([0-9]" + BODY + ")?"
KINDS = ["ack", "nack", "normal", "status", "request", "writing0", "writing1", "response1"]


def _build(vc, kind):
    if kind == "ack":
        return ACK(), ()
    if kind == "nack":
        return NACK(), ()
    who = Who(vc.choose("who", list(frames.KNOWN)))
    where = Where(vc.text("where", BODY, TAGS))
    if kind == "normal":
        return NormalMessage((who, What(vc.text("what", BODY, TAGS)), where)), ("who", "what", "where")
    if kind == "status":
        return StatusRequest((who, where)), ("who", "where")
    dim = Dimension(vc.text("dim", DIM, TAGS))
    if kind == "request":
        return DimensionRequest((who, where, dim)), ("who", "where", "dimension")
    vals = [Value(vc.text(f"v{i}", BODY, TAGS)) for i in range(int(kind[-1]))]
    cls = DimensionWriting if kind.startswith("writing") else DimensionResponse
    return cls((who, where, dim, *vals)), ("who", "where", "dimension", "values")


@harness("C04", exact=True, params=KINDS, weight=2, budget=200)
def rebuild(vc, kind):
    """parse_message(str(m)) equals m, for messages with at most one value."""
    m, fields = _build(vc, kind)
    _same(vc, m, fields)


def _same(vc, m, fields):
    o = vc.outcome(lambda: parse_message(str(m)))
    vc.check(o.ok, "the printed form of a built message is accepted")
    r = o.value
    vc.check(type(r) is type(m) and r.type == m.type, "it parses to the same kind")
    vc.check(r == m, "the parsed message equals the built one")
    vc.check(m == r, "and the built one equals the parsed one")
    for f in fields:
        vc.check(getattr(r, f) == getattr(m, f), "the fields are equal")
    vc.check(hash(r) == hash(m), "and so are the hashes")
    vc.check(str(r) == str(m), "it prints the same again")
    b = vc.outcome(lambda: parse_message(m.bytes.decode("ascii")))
    vc.check(b.ok and b.value == m, "the byte form decodes to the same message")


@harness("C04", exact=True, params=["writing", "response"], weight=3, budget=200)
def rebuild_many_values(vc, kind):
    """The same for any number of values (at least one)."""
    who = Who(vc.choose("who", list(frames.KNOWN)))
    where = Where(vc.text("where", BODY, TAGS))
    dim = Dimension(vc.text("dim", DIM, TAGS))
    vals = vc.text("vals", BODY + "(\\*" + BODY + ")*", VALS)
    cls = DimensionWriting if kind == "writing" else DimensionResponse
    m = cls((who, where, dim, *[Value(v) for v in vals.split("*")]))
    _same(vc, m, ("who", "where", "dimension", "values"))


@harness("C04", exact=True, params=["WhatLight", "WhatAutomation", "WhatEnergy", "WhatGateway", "DimensionEnergy"])
def rebuild_enumerated(vc, name):
    """The same for messages built from the enumerated tags the items use."""
    E = dict(WhatLight=WhatLight, WhatAutomation=WhatAutomation, WhatEnergy=WhatEnergy, WhatGateway=WhatGateway,
             DimensionEnergy=DimensionEnergy)[name]
    t = vc.choose("member", list(E))
    who = Who("18")
    where = Where(vc.text("where", BODY, TAGS))
    how = vc.choose("how", ["plain", "wrapped"])
    if name in ("WhatLight", "WhatAutomation", "WhatEnergy"):
        _same(vc, NormalMessage((who, t if how == "plain" else What(t), where)), ("who", "what", "where"))
        return
    d = t if how == "plain" else Dimension(t)
    kind = vc.choose("kind", ["request", "writing", "response"])
    if kind == "request":
        _same(vc, DimensionRequest((who, where, d)), ("who", "where", "dimension"))
    else:
        v = Value(vc.text("v", BODY, TAGS))
        _same(vc, (DimensionWriting if kind == "writing" else DimensionResponse)((who, where, d, v)), ("who", "where", "dimension", "values"))
