"""C16: item state and measurements are decoded from the documented reply fields.

replies: up to two replies, exactly the documented values come out (both modes).
any_reply: the reading loop is cut, so the reply decoded may come after any number of others."""
import datetime
import re

from pyown.exceptions import InvalidTag
from pyown.items.automation import Automation, WhatAutomation
from pyown.items.energy import EnergyManagement, StopGo
from pyown.items.energy.enums import DimensionEnergy, TypeEnergy
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Where

from pyvc.api_common import harness

from . import world
from .c14 import EVERY

NUM = "[0-9]{1,12}"
NUMS = ["0", "1", "7", "10", "42", "100", "255", "65534", "007", "100000"]
LEVEL = "([0-9]|10)"

# how a request is asked and how one reply to it looks: name -> (item type, method, dimension or None, fields)
ITEMS = {
    "light": (Light, "1", "get_status", None, 1),
    "dimmer": (Dimmer, "1", "get_status", None, 1),
    "automation": (Automation, "2", "get_status", None, 1),
    "timer": (Light, "1", "temporization_request", "2", 3),
    "dimmer timer": (Dimmer, "1", "temporization_request", "2", 3),
    "hours": (Light, "1", "request_working_time_lamp", "8", 1),
    "brightness": (Dimmer, "1", "request_current_brightness_speed", "1", 2),
    "hsv": (Dimmer, "1", "request_current_hsv", "12", 3),
    "white": (Dimmer, "1", "request_current_white_temperature", "14", 1),
}


def _fields(vc, name, kind):
    """The values of one reply."""
    n = ITEMS[kind][4]
    if kind == "light":
        return [vc.choose(name, ["0", "1"])]
    if kind == "automation":
        return [vc.choose(name, ["0", "1", "2"])]
    if kind == "dimmer":
        return [vc.text(name, LEVEL, ["0", "1", "2", "5", "9", "10"])]
    return [vc.text(f"{name}.{i}", NUM, NUMS) for i in range(n)]


def _reply(kind, where, values):
    cls, who, method, dim, n = ITEMS[kind]
    if dim is None:
        return "*" + who + "*" + values[0] + "*" + where + "##"
    return "*#" + who + "*" + where + "*" + dim + "*" + "*".join(values) + "##"


def _is_decoded(vc, kind, got, where, values):
    vc.check(isinstance(got[0], Where) and got[0].string == where, "the address is that of the reply")
    if kind == "light":
        want = (values[0] == "1",)
    elif kind == "automation":
        want = ({"0": WhatAutomation.STOP, "1": WhatAutomation.UP, "2": WhatAutomation.DOWN}[values[0]],)
    elif kind == "dimmer":
        want = (int(values[0]) * 10,)
    else:
        want = [int(v) for v in values]
    vc.check(len(got) == len(want) + 1, "one value per field")
    for g, w in zip(got[1:], want):
        vc.check(g is w if kind in ("light", "automation") else g == w, "every field is decoded from its position")


def _request(kind, where):
    cls, who, method, dim, n = ITEMS[kind]
    return "*#" + who + "*" + where + ("" if dim is None else "*" + dim) + "##"


@harness("C16", exact=True, params=list(ITEMS))
def replies(vc, kind):
    """Zero to two replies."""
    n = vc.choose("replies", [1, 2, 0])
    where = vc.text("where", world.TAG, world.TAGS)
    wheres = [vc.text(f"where{i}", world.TAG, world.TAGS) for i in range(n)]
    values = [_fields(vc, f"v{i}", kind) for i in range(n)]

    async def main():
        client, gw = await world.connect(vc)
        item = ITEMS[kind][0](client, where)
        got, before = [], []
        if vc.choose("earlier", [False, True]):
            # the same request was answered otherwise before
            old = {"light": ["1"], "dimmer": ["7"], "automation": ["2"]}.get(kind, ["5", "6", "7"][: ITEMS[kind][4]])
            gw.reset(lambda i, d: [_reply(kind, where, old), world.ACK])
            async for r in getattr(item, ITEMS[kind][2])():
                before.append(r)
            _is_decoded(vc, kind, before[0], where, old)
        gw.reset(lambda i, d: [_reply(kind, w, v) for w, v in zip(wheres, values)] + [world.ACK])

        async def consume():
            async for r in getattr(item, ITEMS[kind][2])():
                got.append(r)

        o = await vc.aoutcome(consume())
        vc.check(o.ok, "the replies are decoded")
        vc.check(gw.sent == [_request(kind, where)], "the documented request is sent")
        vc.check(len(got) == n, "one result per reply")
        for g, w, v in zip(got, wheres, values):
            _is_decoded(vc, kind, g, w, v)
        for g in before:
            _is_decoded(vc, kind, g, where, old)

    vc.run(main())


@harness("C16", only="sym", params=list(ITEMS))
def any_reply(vc, kind):
    """The reply after any number of replies is decoded the same way."""
    vc.expect_cover("round")
    where = vc.text("where", world.TAG, world.TAGS)
    here = vc.text("here", world.TAG, world.TAGS)
    values = _fields(vc, "v", kind)

    async def main():
        client, gw = await world.connect(vc)
        item = ITEMS[kind][0](client, where)
        gw.reset(None)
        got = []
        vc.env.on_empty = lambda q: gw.say(_reply(kind, here, values))

        def back(loop):
            vc.check(len(got) == 1, "one result for the reply")
            _is_decoded(vc, kind, got[0], here, values)
            vc.cover("round")

        vc.ctx.cut_while = ("",)
        vc.ctx.on_back, vc.ctx.frame_ok = back, lambda loop, x: x is got
        it = getattr(item, ITEMS[kind][2])()

        async def consume():
            async for r in it:
                got.append(r)

        await vc.aoutcome(consume())
        vc.check(False, "the request does not end at a reply")

    vc.run(main())


# ---------------------------------------------------------------------------- energy

METERS = {"get_active_power": "113", "get_energy_unit_totalizer": "51", "get_partial_totalizer_current_month": "53",
          "get_partial_totalizer_current_day": "54", "get_differential_current_level": "73",
          "get_energy_unit_per_month": "52", "get_totalizers": "72", "get_actuators_info": "71"}
METER = "(1[0-9]+|5[0-9]+|7[0-9]+#0)"
METERS_AT = ["51", "5255", "71#0", "7255#0"]


async def _ask(vc, method, dim, values, *args):
    client, gw = await world.connect(vc)
    where = vc.text("where", METER, METERS_AT)
    item = EnergyManagement(client, where)
    t = "*#18*" + where + "*" + dim
    for v in values:
        t = t + "*" + v
    row = vc.choose("earlier", [None] + EVERY[method][2][:1 if vc.symbolic else 3])
    if row is not None:
        gw.reset(lambda i, d: ["*#18*" + where + "*" + dim + "*" + row + "##", world.ACK])
        e = await vc.aoutcome(getattr(item, method)(*args))
        vc.check(e.ok, "the earlier reply is decoded")
        was = None if vc.symbolic else repr(e.value)
    gw.reset(lambda i, d: [t + "##", world.ACK])
    o = await vc.aoutcome(getattr(item, method)(*args))
    vc.check(gw.sent == ["*#18*" + where + "*" + dim + "##"], "the documented dimension is requested")
    vc.check(o.ok, "the reply is decoded")
    if row is not None and not vc.symbolic:
        vc.check(repr(e.value) == was, "what was returned before is unchanged")
    return o.value


@harness("C16", exact=True)
def meter(vc):
    """Power, energy and level: the first value."""
    m = vc.choose("what", ["get_active_power", "get_energy_unit_totalizer", "get_partial_totalizer_current_month",
                           "get_partial_totalizer_current_day", "get_differential_current_level"])
    v = vc.text("value", NUM, NUMS)
    more = vc.choose("more", [0, 1])

    async def main():
        got = await _ask(vc, m, METERS[m], [v] + ["3"] * more)
        vc.check(got == int(v), "the first value")

    vc.run(main())


@harness("C16", exact=True)
def per_month(vc):
    """Energy of a month: the first value of dimension 52#year#month."""
    v = vc.text("value", NUM, NUMS)
    month, year = vc.int("month", 1, 12), vc.int("year", 0, 99)

    async def main():
        dim = "52#" + vc.num_text(year) + "#" + vc.num_text(month)
        got = await _ask(vc, "get_energy_unit_per_month", dim, [v], month, year)
        vc.check(got == int(v), "the first value")

    vc.run(main())


@harness("C16", only="conc")
def current_month(vc):
    """Bounded companion: without a month and a year, those of today."""
    given = vc.choose("given", [(), ("month",), ("year",)])
    v = vc.text("value", NUM, NUMS)
    m, y = vc.int("month", 1, 12), vc.int("year", 0, 99)

    async def main():
        client, gw = await world.connect(vc)
        item = EnergyManagement(client, "51")
        gw.reset(lambda i, d: [d.decode()[:-2] + "*" + v + "##", world.ACK])
        k = {n: {"month": m, "year": y}[n] for n in given}
        a = datetime.datetime.now()
        o = await vc.aoutcome(item.get_energy_unit_per_month(**k))
        b = datetime.datetime.now()
        vc.check(o.ok and o.value == int(v), "the first value")
        want = [f"*#18*51*52#{y if 'year' in given else t.year % 100}#{m if 'month' in given else t.month}##" for t in (a, b)]
        vc.check(len(gw.sent) == 1 and gw.sent[0] in want, "the current month and year are requested")

    vc.run(main())


@harness("C16", exact=True)
def totalizers(vc):
    """Energy since the last reset: energy, day, month, year, hour, minute."""
    n = vc.choose("n", [1, 2])
    e = vc.text("energy", NUM, NUMS)
    d, m, y = vc.text("d", "0?[1-9]|[12][0-9]|3[01]", ["1", "31", "28", "05"]), vc.text("mo", "0?[1-9]|1[0-2]", ["2", "12", "1", "08"]), vc.text("y", "0{0,3}[1-9][0-9]{0,3}", ["2024", "1999", "24", "09"])
    h, mi = vc.text("h", "0?[0-9]|1[0-9]|2[0-3]", ["0", "23", "7", "09"]), vc.text("mi", "0?[0-9]|[1-5][0-9]", ["0", "59", "8", "00"])
    vc.assume(vc.outcome(datetime.date, int(y), int(m), int(d)).ok)

    async def main():
        got = await _ask(vc, "get_totalizers", "72#" + str(n), [e, d, m, y, h, mi], n)
        vc.check(len(got) == 2, "moment and energy")
        at, energy = got
        vc.check(energy == int(e), "the energy is the first value")
        vc.check(at.year == int(y) and at.month == int(m) and at.day == int(d), "the day, month and year of the last reset")
        vc.check(at.hour == int(h) and at.minute == int(mi), "the hour and minute of the last reset")

    vc.run(main())


@harness("C16", exact=True)
def actuator(vc):
    """Actuator: six values; the last is 1 in advanced mode and 2 in basic mode."""
    f = [vc.choose(f"flag{i}", ["0", "1"]) for i in range(5)]
    mode = vc.choose("mode", ["1", "2"])

    async def main():
        a = await _ask(vc, "get_actuators_info", "71", f + [mode])
        for name, v in zip(["disabled", "forcing", "threshold", "protection", "phase"], f):
            vc.check(getattr(a, name) is (v == "1"), name + " is its own value")
        vc.check(a.advanced is (mode == "1"), "advanced is mode 1")

    vc.run(main())


FLAGS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off",
         "check_off", "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]


async def _earlier(vc, item, where, gw):
    """Perhaps an earlier request of the same item; calling the result checks that what it returned has not changed."""
    k = vc.choose("earlier", ["none", "mask", "single"])
    if k == "none":
        return lambda: None
    d, v = ("250", "1010101010101") if k == "mask" else ("253", "1")
    gw.reset(lambda i, x: ["*#18*" + where + "*" + d + "*" + v + "##", world.ACK])
    o = await vc.aoutcome(item.request_status() if k == "mask" else item.request_status(dim_req=DimensionEnergy(d)))
    vc.check(o.ok, "the earlier reply is decoded")
    was = [getattr(o.value, n) for n in FLAGS]

    def unchanged():
        for n, w in zip(FLAGS, was):
            vc.check(getattr(o.value, n) == w, "what was returned before is unchanged")

    return unchanged


@harness("C16", exact=True)
def stop_go_mask(vc):
    """Stop&Go status: a flag per bit, the lowest bit last."""
    bits = [vc.text(f"bit{i}", "[01]", ["0", "1"]) for i in range(13)]
    where = vc.text("where", "1[0-9]{1,3}", ["11", "1127"])

    async def main():
        client, gw = await world.connect(vc)
        item = StopGo(client, where)
        t = ""
        for b in bits:
            t = b + t
        e = await _earlier(vc, item, where, gw)
        gw.reset(lambda i, d: ["*#18*" + where + "*250*" + t + "##", world.ACK])
        o = await vc.aoutcome(item.request_status())
        vc.check(gw.sent == ["*#18*" + where + "*250##"], "the general status is requested")
        vc.check(o.ok, "the reply is decoded")
        for i, name in enumerate(FLAGS):
            vc.check(getattr(o.value, name) == (int(bits[i]) == 1), name + " is its own bit")
        e()

    vc.run(main())


@harness("C16", exact=True)
def stop_go_single(vc):
    """Stop&Go status of single dimensions: each sets its own flag only."""
    n = vc.choose("replies", [1, 2])
    ks = [vc.choose(f"flag{i}", list(range(13))) for i in range(n)]
    vs = [vc.choose(f"value{i}", ["0", "1"]) for i in range(n)]
    dims = [str(251 + k) for k in ks]

    async def main():
        client, gw = await world.connect(vc)
        item = StopGo(client, "11")
        e = await _earlier(vc, item, "11", gw)
        gw.reset(lambda i, d: ["*#18*11*" + d + "*" + v + "##" for d, v in zip(dims, vs)] + [world.ACK])
        o = await vc.aoutcome(item.request_status(dim_req=DimensionEnergy(dims[0])))
        vc.check(gw.sent == ["*#18*11*" + dims[0] + "##"], "the dimension is requested")
        vc.check(o.ok, "the reply is decoded")
        want = dict(zip(ks, vs))
        for i, name in enumerate(FLAGS):
            g = getattr(o.value, name)
            vc.check(g is (want[i] == "1") if i in want else g is None, "each dimension sets its own flag only")
        e()

    vc.run(main())


KINDS = {"1": TypeEnergy.STOP_GO, "5": TypeEnergy.POWER_METER, "7": TypeEnergy.ACTUATOR}
ADDRESSES = ["1", "5", "7", "7#0", "1#0", "11", "11#0", "51", "51#0", "71", "71#0", "71#1", "71#0#0", "71#00", "", "0", "01",
             "#1", "1#1", "5#51", "5255", "7255#0", "61", "711#0", "#71#0", "7#0#0", "71#4#0", "05"]


@harness("C16", exact=True, params=["energy", "stop"])
def addresses(vc, which):
    """Exactly the documented addresses are accepted, as the kind they are."""
    vc.expect_cover("accepted", "refused")
    cls = EnergyManagement if which == "energy" else StopGo
    where = vc.text("where", world.TAG, ADDRESSES)
    as_text = vc.choose("as text", [True, False])

    async def main():
        client, gw = await world.connect(vc)
        at = where if as_text else Where(where)
        o = vc.outcome(cls, client, at)
        good = re.fullmatch("(1[0-9]+|5[0-9]+|7[0-9]+#0)" if which == "energy" else "1[0-9]+", where) is not None
        if good:
            vc.cover("accepted")
            vc.check(o.ok, "a documented address is accepted")
            vc.check(o.value.where.string == where, "the item is at its address")
            vc.check(o.value.get_type() is KINDS[where[0]], "the item knows its kind")
        else:
            vc.cover("refused")
            vc.check(o.raised(InvalidTag), "any other address raises the invalid-tag error")

    vc.run(main())
