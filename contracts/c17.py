"""C17: events reach exactly the right callbacks, once, in registration order, with decoded arguments.

Callbacks are registered through the public registration methods; an event of any content is then given to the item
type.  None to three callbacks per kind of event, or one and any number of others behind it; the values are arbitrary."""
import asyncio
import datetime
import functools

from pyown.client import Client
from pyown.client.session import SessionType
from pyown.items.automation import Automation, WhatAutomation
from pyown.items.camera import Camera, WhatCamera
from pyown.items.energy import EnergyManagement, StopGo
from pyown.items.gateway import Gateway, GatewayModel
from pyown.items.gateway.gateway import WhatGateway
from pyown.items.lighting import Dimmer, Light
from pyown.messages import parse_message

from pyvc.api_common import harness

from . import world

NUM = "[0-9]{1,12}"
NAMES = "[0-9]+(,[0-9]+)*"
NUMS = ["0", "1", "7", "10", "42", "100", "255", "65534", "007"]
HOUR, MIN, DAY, MONTH = "([01][0-9]|2[0-3])", "[0-5][0-9]", "(0[1-9]|1[0-9]|2[0-8])", "(0[1-9]|1[0-2])"


class Handler:
    """Callbacks that are not plain functions; what they record tells them apart."""

    def __init__(self, calls, who):
        self.calls, self.who = calls, who

    async def handle(self, *args):
        self.calls.append((self.who, args))

    __call__ = handle


def _callback(calls, who, form="function"):
    """A callback that records its calls; its name, a later registration's name being the smaller, tells nothing."""
    if form != "function":
        h = Handler(calls, who)
        return {"method": h.handle, "object": h, "partial": functools.partial(Handler.handle, h), "lambda": lambda *args: h.handle(*args)}[form]

    async def callback(*args):
        calls.append((who, args))

    name = f"callback_{99 - who if isinstance(who, int) else who}"
    callback.__name__ = callback.__qualname__ = name
    return callback


class Many:
    """One known callback and behind it any number of others, named by the pieces of a text."""

    def __init__(self, names):
        self.names = names


async def _dispatch(vc, cls, item, text, calls, order=None):
    """Give the event to the item type and let everything scheduled run; the callbacks that ran."""
    message = parse_message(text)
    o = await vc.aoutcome(cls.call_callbacks(item, message))
    if o.ok:
        tasks = o.value
        if isinstance(order, Many):
            tasks, order.args, order.called = vc.followers(tasks)
        for t in tasks:
            await t
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    return o, message


def _register(vc, registers, kind, calls):
    """Callbacks for the kind of event under consideration, and one for every other kind, in some order."""
    n = vc.choose("callbacks", [1, 2, 0, 3, "any number"])
    names = None
    if n == "any number":
        n, names = 1, vc.text("names", NAMES, ["0,0", "1,0,2", "2,2,2,2,2,2,2,2,2,2,2,2", ",".join(["3"] * 40), ",".join(["4"] * 150)])
    twice = n == 2 and vc.choose("the same twice", [False, True])
    other = vc.choose("others first", [False, True])

    def others():
        for k in registers:
            if k != kind:
                registers[k](_callback(calls, "other " + str(k)))

    if other:
        others()
    cb = None
    for i in range(n):
        if not (twice and i == 1):
            form = "function"
            if not vc.symbolic or (n == 1 and names is None):
                form = vc.choose(f"form{i}", ["function", "method", "partial", "object", "lambda"])
            cb = _callback(calls, i, form)
        registers[kind](cb)
    if not other:
        others()
    if names is not None:
        if vc.symbolic:
            vc.follow(cb, names)
            return Many(names)
        for i in range(len(names.split(","))):
            registers[kind](_callback(calls, i + 1))
        return list(range(1 + len(names.split(","))))
    return [0, 0] if twice else list(range(n))


def _order(vc, calls, order):
    """Each registered callback of the kind ran once, in order; the arguments of the calls."""
    if isinstance(order, Many):
        vc.check([who for who, args in calls] == [0], "every callback of the kind runs exactly once, in order")
        vc.check(order.called is not None and order.called == order.names, "every callback of the kind runs exactly once, in order")
        return [args for who, args in calls] + order.args
    vc.check([who for who, args in calls] == order, "every callback of the kind runs exactly once, in order")
    return [args for who, args in calls]


def _check(vc, calls, order, item, want, same=None):
    """Each registered callback ran once, in order, with the item and the wanted arguments."""
    for who, args in calls:
        vc.check(isinstance(who, int), "no callback of another kind is scheduled")
    for args in _order(vc, calls, order):
        vc.check(len(args) == len(want) + 1, "the documented number of arguments")
        vc.check(args[0] is item, "the first argument is the item")
        for g, w in zip(args[1:], want):
            if same is not None:
                same(g, w)
            else:
                vc.check(g is w if isinstance(w, bool) else g == w, "the arguments are decoded from their positions")


# ---------------------------------------------------------------------------- lights

LIGHT = {"status": Light.on_status_change, "timer": Light.on_temporization_change, "luminosity": Dimmer.on_luminosity_change,
         "hsv": Dimmer.on_hsv_change, "white": Dimmer.on_white_temp_change}
LIGHT_DIM = {"timer": ("2", 3), "luminosity": ("1", 2), "hsv": ("12", 3), "white": ("14", 1)}


@harness("C17", exact=True, params=list(LIGHT), fresh=True)
def light(vc, kind):
    """Lights and dimmers."""
    cls = vc.choose("item", [Light, Dimmer])
    registers = dict(LIGHT)
    by = vc.choose("registered with", [Light, Dimmer])
    registers["status"], registers["timer"] = by.on_status_change, by.on_temporization_change
    where = vc.text("where", world.TAG, world.TAGS)
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = cls(client, where)
        order = _register(vc, registers, kind, calls)
        if kind == "status":
            v = vc.choose("what", ["0", "1"])
            o, m = await _dispatch(vc, cls, item, "*1*" + v + "*" + where + "##", calls, order)
            _check(vc, calls, order, item, [v == "1"])
        else:
            dim, n = LIGHT_DIM[kind]
            vs = [vc.text(f"v{i}", NUM, NUMS) for i in range(n)]
            o, m = await _dispatch(vc, cls, item, "*#1*" + where + "*" + dim + "*" + "*".join(vs) + "##", calls, order)
            _check(vc, calls, order, item, [int(v) for v in vs])
        vc.check(gw.sent == [], "an event sends nothing")

    vc.run(main())


def _silent(vc, calls):
    vc.check(calls == [], "an unsupported message schedules nothing")


def _strange(vc, who, where, kinds):
    """A message of a kind that is not an event of the item."""
    k = vc.choose("kind", kinds)
    d = vc.text("dim", "[0-9]+(#[0-9]+)*", ["8", "3", "200", "1000", "1", "15#1", "0#0", "51", "2#1", "01", "22", "113#1", "251", "257",
                                               "263", "1200", "74", "16", "11"])
    v = vc.text("value", world.TAG, NUMS + world.TAGS)
    if k in ("response", "writing") and vc.choose("values", [1, 2]) == 2:
        v = v + "*" + vc.text("value2", world.TAG, NUMS + world.TAGS)
    if k == "generic":
        return k, d, v, vc.text("frame", world.generic(vc), world.GENERIC)
    return k, d, v, {"request": "*#" + who + "*" + where + "*" + d + "##", "status": "*#" + who + "*" + where + "##",
                     "writing": "*#" + who + "*" + where + "*#" + d + "*" + v + "##",
                     "response": "*#" + who + "*" + where + "*" + d + "*" + v + "##",
                     "normal": "*" + who + "*" + v + "*" + where + "##", "ack": world.ACK, "nack": world.NACK}[k]


def _base(d):
    return d.split("#")[0]


@harness("C17", exact=True, fresh=True)
def light_others(vc):
    """Messages that are no light events schedule nothing."""
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = Light(client, "12")
        for k in LIGHT:
            LIGHT[k](_callback(calls, k))
        k, d, v, t = _strange(vc, "1", "12", ["response", "request", "status", "writing", "ack", "nack", "generic"])
        vc.assume(k != "response" or _base(d) not in ("1", "2", "12", "14"))
        await _dispatch(vc, Light, item, t, calls)
        _silent(vc, calls)

    vc.run(main())


# ---------------------------------------------------------------------------- automations, cameras


@harness("C17", exact=True, fresh=True)
def automation(vc):
    """Automations."""
    where = vc.text("where", world.TAG, world.TAGS)
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = Automation(client, where)
        order = _register(vc, {"all": Automation.on_status_change}, "all", calls)
        v = vc.choose("what", ["0", "1", "2"])
        await _dispatch(vc, Automation, item, "*2*" + v + "*" + where + "##", calls, order)
        want = {"0": WhatAutomation.STOP, "1": WhatAutomation.UP, "2": WhatAutomation.DOWN}[v]
        _check(vc, calls, order, item, [want], lambda g, w: vc.check(g is w, "the state of the event"))

    vc.run(main())


@harness("C17", exact=True, fresh=True, params=["automation", "camera"])
def others(vc, which):
    """Messages that are no automation or camera events schedule nothing."""
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        cls, who, known = (Automation, "2", ["0", "1", "2"]) if which == "automation" else (Camera, "7", CAMERA)
        item = cls(client, "12")
        cls.on_status_change(_callback(calls, "all"))
        k, d, v, t = _strange(vc, who, "12", ["normal", "response", "request", "status", "writing", "ack", "nack", "generic"])
        vc.assume(k != "normal" or v not in known)
        await _dispatch(vc, cls, item, t, calls)
        _silent(vc, calls)

    vc.run(main())


CAMERA = ["0", "9", "120", "121", "130", "131", "140", "141", "150", "151", "160", "161", "170", "171", "180", "181",
          "311", "312", "313", "314", "321", "322", "323", "324", "331", "332", "333", "334", "341", "342", "343", "344"]


@harness("C17", exact=True, fresh=True)
def camera(vc):
    """Cameras: the item, the state and the message."""
    where = vc.text("where", world.TAG, world.TAGS)
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = Camera(client, where)
        order = _register(vc, {"all": Camera.on_status_change}, "all", calls)
        v = vc.choose("what", CAMERA)
        o, m = await _dispatch(vc, Camera, item, "*7*" + v + "*" + where + "##", calls, order)
        for args in _order(vc, calls, order):
            vc.check(len(args) == 3 and args[0] is item, "the item, the state and the message")
            vc.check(isinstance(args[1], WhatCamera) and args[1].string == v, "the state of the event")
            vc.check(args[2] is m or str(args[2]) == str(m), "the message of the event")

    vc.run(main())


# ---------------------------------------------------------------------------- gateway

GATEWAY = {"0": WhatGateway.TIME, "1": WhatGateway.DATE, "10": WhatGateway.IP_ADDRESS, "11": WhatGateway.NET_MASK,
           "12": WhatGateway.MAC_ADDRESS, "15": WhatGateway.DEVICE_TYPE, "16": WhatGateway.FIRMWARE_VERSION,
           "19": WhatGateway.UPTIME, "22": WhatGateway.DATE_TIME, "23": WhatGateway.KERNEL_VERSION,
           "24": WhatGateway.DISTRIBUTION_VERSION}


def _gateway_event(vc, dim):
    """Values of an event and a check of the one decoded argument."""
    t = vc.text
    if dim in ("0", "22"):
        h, m, s, z = t("h", HOUR), t("m", MIN), t("s", MIN), t("z", HOUR)
        if dim == "0":
            return [h, m, s, "0" + z], lambda x: (x.hour == int(h) and x.minute == int(m) and x.second == int(s)
                                                  and x.utcoffset() == datetime.timedelta(hours=int(z)))
    if dim in ("1", "22"):
        d, mo, y = t("d", DAY), t("mo", MONTH), t("y", "20[0-9][0-9]")
        if dim == "1":
            return ["03", d, mo, y], lambda x: x.day == int(d) and x.month == int(mo) and x.year == int(y)
        return [h, m, s, "0" + z, "03", d, mo, y], lambda x: (
            x.hour == int(h) and x.minute == int(m) and x.second == int(s) and x.day == int(d) and x.month == int(mo)
            and x.year == int(y) and x.utcoffset() == datetime.timedelta(hours=int(z)))
    if dim in ("10", "11"):
        v = [t(f"v{i}", "(0|[1-9][0-9]?|1[0-9][0-9]|2[0-4][0-9]|25[0-5])", ["0", "10", "255", "192"]) for i in range(4)]
        return v, lambda x: str(x) == ".".join(v)
    if dim == "12":
        k, x = vc.choose("octet", list(range(6))), vc.choose("value", ["0", "10", "171"])
        v = [x if i == k else o for i, o in enumerate(["171", "0", "10", "0", "171", "10"])]
        return v, lambda x: x.upper() == ":".join({"0": "00", "10": "0A", "171": "AB"}[i] for i in v)
    if dim == "15":
        v = vc.choose("v", ["2", "4", "6", "7", "11", "12", "23", "200"])
        return [v], lambda x: isinstance(x, GatewayModel) and x.value == v
    if dim == "19":
        v = [t(n, "[0-9]{1,4}", ["0", "1", "23", "24", "59", "60", "400"]) for n in "dhms"]
        return v, lambda x: (x.days * 86400 + x.seconds
                             == int(v[0]) * 86400 + int(v[1]) * 3600 + int(v[2]) * 60 + int(v[3]))
    v = [t(f"v{i}", NUM, NUMS) for i in range(3)]
    return v, lambda x: x == v[0] + "." + v[1] + "." + v[2]


@harness("C17", exact=True, fresh=True, params=list(GATEWAY))
def gateway(vc, dim):
    """Gateway events: the item and the one decoded value, whether reported or set."""
    calls = []

    def register(w):
        return lambda cb: Gateway.register_callback(w, cb)

    async def main():
        client, gw = await world.connect(vc)
        item = Gateway(client)
        registers = {d: register(GATEWAY[d]) for d in GATEWAY}
        order = _register(vc, registers, dim, calls)
        values, good = _gateway_event(vc, dim)
        written = vc.choose("written", ["", "#"])
        await _dispatch(vc, Gateway, item, "*#13**" + written + dim + "*" + "*".join(values) + "##", calls, order)
        _check(vc, calls, order, item, [None], lambda g, w: vc.check(good(g), "the value is decoded as by the request"))
        vc.check(gw.sent == [], "an event sends nothing")

    vc.run(main())


@harness("C17", exact=True, fresh=True)
def gateway_others(vc):
    """Messages that are no gateway events schedule nothing."""
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = Gateway(client)
        for d in GATEWAY:
            Gateway.register_callback(GATEWAY[d], _callback(calls, d))
        k, d, v, t = _strange(vc, "13", "", ["response", "request", "status", "writing", "normal", "ack", "nack", "generic"])
        vc.assume(k not in ("response", "writing") or d not in GATEWAY)
        await _dispatch(vc, Gateway, item, t, calls)
        _silent(vc, calls)

    vc.run(main())


# ---------------------------------------------------------------------------- energy

E = EnergyManagement
ENERGY = {"511": E.on_daily_totalizers_hourly, "512": E.on_monthly_average_hourly,
          "513": E.on_monthly_totalizers_current_year, "514": E.on_monthly_totalizers_last_year,
          "250": E.on_stop_go_status, "113": E.on_instant_power, "51": E.on_energy_unit_totalizer,
          "52": E.on_energy_unit_per_month, "53": E.on_partial_totalizer_current_month,
          "54": E.on_partial_totalizer_current_day, "71": E.on_actuators_info, "72": E.on_totalizer_since_reset,
          "73": E.on_differential_current_level}
FLAGS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off",
         "check_off", "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]


def _energy_event(vc, dim):
    """(dimension with parameters, values, wanted arguments or checks)"""
    t = vc.text
    v = t("v", NUM, NUMS)
    w = t("w", NUM, NUMS)
    p, q = t("p", "[0-9]{1,2}", ["1", "12", "31", "0"]), t("q", "[0-9]{1,2}", ["1", "12", "31", "21"])
    if dim == "511":
        return dim + "#" + p + "#" + q, [v, w], [int(q), int(p), int(v), int(w)]
    if dim in ("512", "513", "514"):
        return dim + "#" + p, [v, w], [int(p), int(v), int(w)]
    if dim == "52":
        return dim + "#" + p + "#" + q, [v], [int(q), int(p), int(v)]
    if dim == "250":
        bits = [t(f"bit{i}", "[01]", ["0", "1"]) for i in range(13)]
        m = ""
        for b in bits:
            m = b + m

        def status(x):
            for i, name in enumerate(FLAGS):
                vc.check(getattr(x, name) == (int(bits[i]) == 1), name + " is its own bit")

        return dim, [m], [status]
    if dim == "71":
        f = [vc.choose(f"flag{i}", ["0", "1"]) for i in range(5)]
        mode = vc.choose("mode", ["1", "2"])

        def info(x):
            for name, b in zip(["disabled", "forcing", "threshold", "protection", "phase"], f):
                vc.check(getattr(x, name) is (b == "1"), name + " is its own value")
            vc.check(x.advanced is (mode == "1"), "advanced is mode 1")

        return dim, f + [mode], [info]
    if dim == "72":
        d, m, y, h, mi = (t("d", "[1-9]|1[0-9]|2[0-8]", ["1", "28"]), t("mo", "[1-9]|1[0-2]", ["2", "12"]),
                          t("y", "20[0-9][0-9]", ["2024"]), t("h", "[0-9]|1[0-9]|2[0-3]", ["0", "23"]),
                          t("mi", "[0-9]|[1-5][0-9]", ["0", "59"]))

        def moment(x):
            vc.check(x.day == int(d) and x.month == int(m) and x.year == int(y), "the day of the last reset")
            vc.check(x.hour == int(h) and x.minute == int(mi), "the time of the last reset")

        n = vc.choose("n", ["1", "2"])
        return "72#" + n, [v, d, m, y, h, mi], [int(n), moment, int(v)]
    return dim, [v], [int(v)]


@harness("C17", exact=True, fresh=True, params=list(ENERGY))
def energy(vc, dim):
    """Energy events."""
    calls = []
    cls = vc.choose("item", [EnergyManagement, StopGo])

    async def main():
        client, gw = await world.connect(vc)
        where = "51" if cls is EnergyManagement else "11"
        item = cls(client, where)
        order = _register(vc, ENERGY, dim, calls)
        d, values, want = _energy_event(vc, dim)

        def same(g, w):
            if callable(w):
                w(g)
            else:
                vc.check(g == w, "the arguments are decoded from their positions")

        await _dispatch(vc, cls, item, "*#18*" + where + "*" + d + "*" + "*".join(values) + "##", calls, order)
        _check(vc, calls, order, item, want, same)
        vc.check(gw.sent == [], "an event sends nothing")

    vc.run(main())


@harness("C17", exact=True, fresh=True)
def energy_others(vc):
    """Messages that are no energy events schedule nothing."""
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        item = EnergyManagement(client, "51")
        for d in ENERGY:
            ENERGY[d](_callback(calls, d))
        k, d, v, t = _strange(vc, "18", "51", ["response", "request", "status", "writing", "normal", "ack", "nack", "generic"])
        vc.assume(k != "response" or _base(d) not in ENERGY)
        await _dispatch(vc, EnergyManagement, item, t, calls)
        _silent(vc, calls)

    vc.run(main())


# ---------------------------------------------------------------------------- histories

CHANNELS = ([("light", k) for k in LIGHT] + [("automation", "all"), ("camera", "all")] + [("gateway", d) for d in GATEWAY]
            + [("energy", d) for d in ENERGY])


def _channel_register(ch, cb):
    kind, k = ch
    if kind == "light":
        LIGHT[k](cb)
    elif kind == "automation":
        Automation.on_status_change(cb)
    elif kind == "camera":
        Camera.on_status_change(cb)
    elif kind == "gateway":
        Gateway.register_callback(GATEWAY[k], cb)
    else:
        ENERGY[k](cb)


def _channel_event(vc, ch, items):
    """(item type, item, text, check of the arguments after the item)"""
    kind, k = ch

    def same(want):
        return lambda args: len(args) == len(want) and all(g is w if isinstance(w, bool) else g == w for g, w in zip(args, want))

    if kind == "light":
        cls, where = vc.choose("class", [Light, Dimmer]), vc.choose("where", ["12", "0115#4#01"])
        if k == "status":
            v = vc.choose("what", ["0", "1"])
            text, good = "*1*" + v + "*" + where + "##", same([v == "1"])
        else:
            dim, n = LIGHT_DIM[k]
            vs = [vc.text(f"v{i}", NUM, NUMS) for i in range(n)]
            text, good = "*#1*" + where + "*" + dim + "*" + "*".join(vs) + "##", same([int(v) for v in vs])
    elif kind == "automation":
        cls, where, v = Automation, "12", vc.choose("what", ["0", "1", "2"])
        text, good = "*2*" + v + "*12##", lambda a: len(a) == 1 and isinstance(a[0], WhatAutomation) and a[0].string == v
    elif kind == "camera":
        cls, where, v = Camera, "4000", vc.choose("what", CAMERA)
        text, good = "*7*" + v + "*4000##", lambda a: len(a) == 2 and a[0].string == v and str(a[1]) == "*7*" + v + "*4000##"
    elif kind == "gateway":
        cls, where = Gateway, ""
        values, ok = _gateway_event(vc, k)
        text = "*#13**" + vc.choose("written", ["", "#"]) + k + "*" + "*".join(values) + "##"
        good = lambda a: len(a) == 1 and ok(a[0])
    else:
        cls, where = vc.choose("class", [(EnergyManagement, "51"), (StopGo, "11")])
        d, values, want = _energy_event(vc, k)
        text = "*#18*" + where + "*" + d + "*" + "*".join(values) + "##"

        def good(a):
            if len(a) != len(want):
                return False
            for g, w in zip(a, want):
                if callable(w):
                    w(g)
                elif g != w:
                    return False
            return True

    item = items.get((cls, where))
    if item is None:
        item = items[cls, where] = cls(items["client"]) if cls is Gateway else cls(items["client"], where)
    return cls, item, text, good


@harness("C17", only="conc", fresh=True, weight=2)
def histories(vc):
    """Bounded companion: registrations and events of every kind in any order, many callbacks per kind."""
    n = vc.choose("steps", [3, 6, 12, 30])
    channels = [vc.choose(f"channel{i}", CHANNELS) for i in range(vc.choose("channels", [1, 2, 4, 9]))]
    many = vc.choose("at once", [1, 1, 2, 5, 40])
    calls = []

    async def main():
        client, gw = await world.connect(vc)
        items = {"client": client}
        registered = {}
        count = 0
        last = None
        for i in range(n):
            ch = vc.choose(f"on{i}", channels)
            step = vc.choose(f"step{i}", ["register", "event", "event", "again", "junk"])
            if step in ("register", "again"):
                for j in range(many if step == "register" else 1):
                    if step == "register" or last is None:
                        count += 1
                        last = (count, _callback(calls, count))
                    _channel_register(ch, last[1])
                    registered.setdefault(ch, []).append(last[0])
            elif step == "junk":
                cls, item, text, good = _channel_event(vc, ch, items)
                bad = vc.choose(f"junk{i}", [world.ACK, world.NACK, "*99*1##", "*#1*12##", "*#2*11*1##", "*#18*51*999*1##", "*#13**99*5##"])
                await vc.aoutcome(cls.call_callbacks(item, parse_message(bad)))
                for _ in range(3):
                    await asyncio.sleep(0)
                vc.check(calls == [], "an unsupported message schedules nothing")
            else:
                cls, item, text, good = _channel_event(vc, ch, items)
                o = await vc.aoutcome(cls.call_callbacks(item, parse_message(text)))
                vc.check(o.ok, "the event is accepted")
                await asyncio.gather(*o.value)
                for _ in range(3):
                    await asyncio.sleep(0)
                vc.check([who for who, args in calls] == registered.get(ch, []),
                         "every callback of the kind runs exactly once, in registration order, and no other")
                for who, args in calls:
                    vc.check(args[0] is item, "the first argument is the item")
                    vc.check(good(args[1:]), "the arguments are decoded from their positions")
            calls.clear()
        vc.check(gw.sent == [], "events send nothing")

    vc.run(main())


# ---------------------------------------------------------------------------- one event after another

AGAIN = {"light": (Light.on_status_change, Light, "*1*1*11##", "11", [True]),
         "timer": (Light.on_temporization_change, Light, "*#1*11*2*1*2*3##", "11", [1, 2, 3]),
         "luminosity": (Dimmer.on_luminosity_change, Dimmer, "*#1*11*1*150*7##", "11", [150, 7]),
         "hsv": (Dimmer.on_hsv_change, Dimmer, "*#1*11*12*1*2*3##", "11", [1, 2, 3]),
         "white": (Dimmer.on_white_temp_change, Dimmer, "*#1*11*14*300##", "11", [300]),
         "automation": (Automation.on_status_change, Automation, "*2*1*11##", "11", [WhatAutomation.UP]),
         "camera": (Camera.on_status_change, Camera, "*7*9*4000##", "4000", None),
         "gateway": (lambda cb: Gateway.register_callback(WhatGateway.FIRMWARE_VERSION, cb), Gateway, "*#13**16*1*2*3##", "", ["1.2.3"]),
         "energy": (EnergyManagement.on_instant_power, EnergyManagement, "*#18*51*113*7##", "51", [7])}


@harness("C17", exact=True, params=list(AGAIN), fresh=True)
def again(vc, kind):
    """The same event again, with callbacks registered in between, for an item whose client is in any state."""
    register, cls, text, where, want = AGAIN[kind]
    state = vc.choose("client", ["connected", "unstarted", "closed", "lost", "event"])
    same = vc.choose("item", ["the same", "another"])
    n = vc.choose("rounds", [2, 3] if vc.symbolic else [2, 3, 8])
    calls = []

    async def main():
        client, gw = await world.connect(vc, SessionType.EventSession if state == "event" else SessionType.CommandSession)
        if state == "unstarted":
            client = Client("192.0.2.2", 20000, "12345", loop=vc.loop(None))
        if state == "closed":
            await client.close()
        if state == "lost":
            gw.transport.closed = True
            gw.protocol.connection_lost(None)
        item = cls(client) if cls is Gateway else cls(client, where)
        known = 0
        for i in range(n):
            for _ in range(vc.choose(f"register{i}", [1, 0] if i else [1])):
                register(_callback(calls, known))
                known += 1
            if i and same == "another":
                item = cls(client) if cls is Gateway else cls(client, where)
            del calls[:]
            await _dispatch(vc, cls, item, text, calls)
            vc.check([who for who, args in calls] == list(range(known)), "every callback of the kind runs exactly once, in order")
            for who, args in calls:
                vc.check(args[0] is item, "the first argument is the item")
                if want is not None:
                    vc.check(list(args[1:]) == want, "the arguments are decoded from their positions")

    vc.run(main())
