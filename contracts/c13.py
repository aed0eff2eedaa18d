"""C13: out-of-range arguments are rejected before anything is sent; every in-range combination is accepted."""
from pyown.items.camera import Camera
from pyown.items.lighting import Dimmer, Light

from pyvc.api_common import harness

from . import world

NUMS = [-1, 0, 1, 4, 5, 23, 24, 59, 60, 100, 101, 255, 256, 359, 360, 65534, 65535, -2, 2, 3, 1000]


def _ints(vc, *names):
    return [vc.int(n, corpus=NUMS) for n in names]


def _in(x, lo, hi):
    return x >= lo and x <= hi


def _judge(vc, cls, call, good):
    vc.expect_cover("accepted", "rejected")

    async def main():
        client, gw = await world.connect(vc)
        item = cls(client, vc.text("where", world.TAG, world.TAGS))
        for _ in range(vc.choose("times", [1, 2])):
            gw.reset(lambda i, d: [world.ACK])
            o = await vc.aoutcome(call(item))
            if good():
                vc.cover("accepted")
                vc.check(o.ok and len(gw.sent) == 1, "in-range arguments are accepted")
            else:
                vc.cover("rejected")
                vc.check(not o.ok, "an out-of-range argument raises an error")
                vc.check(gw.sent == [], "nothing is sent")

    vc.run(main())


@harness("C13", exact=True)
def speed(vc):
    """Dimmer on and off: speed 0-255."""
    m = vc.choose("command", ["turn_on", "turn_off"])
    (s,) = _ints(vc, "speed")
    _judge(vc, Dimmer, lambda i: getattr(i, m)(s), lambda: _in(s, 0, 255))


@harness("C13", exact=True)
def step(vc):
    """Dimmer up and down: percentage 0-100, speed 0-255."""
    m = vc.choose("command", ["up_percent", "down_percent"])
    how = vc.choose("arguments", ["value", "speed", "both", "none"])
    v, s = _ints(vc, "value", "speed")
    if how == "value":
        _judge(vc, Dimmer, lambda i: getattr(i, m)(v), lambda: _in(v, 0, 100))
    elif how == "speed":
        _judge(vc, Dimmer, lambda i: getattr(i, m)(speed=s), lambda: _in(s, 0, 255))
    elif how == "both":
        _judge(vc, Dimmer, lambda i: getattr(i, m)(v, s), lambda: _in(v, 0, 100) and _in(s, 0, 255))
    else:
        _judge(vc, Dimmer, lambda i: getattr(i, m)(), lambda: True)


@harness("C13", exact=True)
def hsv(vc):
    """Colour: hue 0-359, saturation and value 0-100."""
    h, s, v = _ints(vc, "hue", "saturation", "value")
    _judge(vc, Dimmer, lambda i: i.set_hsv(h, s, v), lambda: _in(h, 0, 359) and _in(s, 0, 100) and _in(v, 0, 100))


@harness("C13", exact=True)
def white(vc):
    """White temperature 1-65534."""
    (t,) = _ints(vc, "temperature")
    _judge(vc, Dimmer, lambda i: i.set_white_temperature(t), lambda: _in(t, 1, 65534))


@harness("C13", exact=True)
def temporised(vc):
    """Temporisation: hours 0-23, minutes and seconds 0-59."""
    cls = vc.choose("class", [Light, Dimmer])
    h, m, s = _ints(vc, "hour", "minute", "second")
    _judge(vc, cls, lambda i: i.temporization_command(h, m, s), lambda: _in(h, 0, 23) and _in(m, 0, 59) and _in(s, 0, 59))


@harness("C13", exact=True)
def dial(vc):
    """Camera dial coordinates 1-4."""
    x, y = _ints(vc, "x", "y")
    _judge(vc, Camera, lambda i: i.display_dial(x, y), lambda: _in(x, 1, 4) and _in(y, 1, 4))


LIMITS = {"turn_on": ("speed",), "turn_off": ("speed",), "up_percent": ("value", "speed"), "down_percent": ("value", "speed"),
          "set_hsv": ("hue", "value", "value"), "set_white_temperature": ("temperature",), "temporization_command": ("hour", "minute", "minute")}
RANGES = {"speed": (0, 255), "value": (0, 100), "hue": (0, 359), "temperature": (1, 65534), "hour": (0, 23), "minute": (0, 59)}


@harness("C13", only="conc")
def one_after_another(vc):
    """Bounded companion: several calls on the same dimmer; what came before changes nothing."""
    async def main():
        client, gw = await world.connect(vc)
        item = Dimmer(client, vc.text("where", world.TAG, world.TAGS))
        same = vc.choose("same command", [False, True])
        m = vc.choose("command", list(LIMITS))
        for i in range(vc.choose("count", [2, 4, 8, 30])):
            if not same:
                m = vc.choose(f"command{i}", list(LIMITS))
            args, good = [], True
            for k, n in enumerate(LIMITS[m]):
                lo, hi = RANGES[n]
                x = vc.choose(f"arg{i}.{k}", [lo, hi, lo + 1, lo, hi, lo - 1, hi + 1])
                if m == "temporization_command":
                    x = max(x, 0)
                good = good and lo <= x <= hi
                args.append(x)
            gw.reset(lambda i, d: [world.ACK])
            o = await vc.aoutcome(getattr(item, m)(*args))
            if good:
                vc.check(o.ok and len(gw.sent) == 1, "in-range arguments are accepted")
            else:
                vc.check(not o.ok and gw.sent == [], "out-of-range arguments raise an error and send nothing")

    vc.run(main())
