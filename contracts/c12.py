"""C12: every item command sends exactly its documented frame and checks the reply.

The tables give, for every command, the documented WHAT (or dimension and values) written from the protocol
documentation; addresses and arguments are arbitrary."""
from datetime import datetime

from pyown.exceptions import ResponseError
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import EnergyManagement, StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Dimension, Value, What, Where

from pyvc.api_common import harness

from . import world

LIGHT = {"turn_on": "1", "turn_off": "0", "turn_on_1_min": "11", "turn_on_2_min": "12", "turn_on_3_min": "13",
         "turn_on_4_min": "14", "turn_on_5_min": "15", "turn_on_15_min": "16", "turn_on_30_min": "17",
         "turn_on_0_5_sec": "18"}
BLINK = {"blink_0_5_sec": "20", "blink_1_0_sec": "21", "blink_1_5_sec": "22", "blink_2_0_sec": "23",
         "blink_2_5_sec": "24", "blink_3_0_sec": "25", "blink_3_5_sec": "26", "blink_4_0_sec": "27",
         "blink_4_5_sec": "28", "blink_5_0_sec": "29"}
LEVELS = {"set_20_percent": "2", "set_30_percent": "3", "set_40_percent": "4", "set_50_percent": "5",
          "set_60_percent": "6", "set_70_percent": "7", "set_80_percent": "8", "set_90_percent": "9",
          "set_100_percent": "10", "up_percent": "30", "down_percent": "31"}
AUTOMATION = {"stop": "0", "up": "1", "down": "2"}
CAMERA = {"free_resources": "9", "zoom_in": "120", "zoom_out": "121", "increase_x_coordinate": "130",
          "decrease_x_coordinate": "131", "increase_y_coordinate": "140", "decrease_y_coordinate": "141",
          "increase_luminosity": "150", "decrease_luminosity": "151", "increase_contrast": "160",
          "decrease_contrast": "161", "increase_color": "170", "decrease_color": "171",
          "increase_quality": "180", "decrease_quality": "181"}
ENERGY = {"enable_actuator": "71", "force_actuator_on": "73", "force_actuator_off": "74"}
STOPGO = {"enable_automatic_reset": "26", "disable_automatic_reset": "27"}
MONTHLY = {"start_sending_monthly_average_hourly": "58", "start_sending_monthly_totalizers_current_year": "59",
           "start_sending_monthly_totalizers_last_year": "510"}

LIGHT_WHERE = ["11", "0", "00", "1", "100", "0115", "#3", "11#4#01", "#3#4#01", "1005", "", "0315#4#02"]
ENERGY_WHERE = {EnergyManagement: ("(1[0-9]+|5[0-9]+|7[0-9]+#0)", ["51", "5255", "71#0", "7255#0", "11", "1127", "10"]),
                StopGo: ("1[0-9]+", ["11", "1127", "10", "100"])}


def _where(vc, cls):
    lang, corpus = ENERGY_WHERE.get(cls, (world.TAG, LIGHT_WHERE))
    return vc.text("where", lang, corpus)


def _reply(vc):
    """What the gateway answers: (kind, texts)."""
    k = vc.choose("reply", ["ack", "nack", "silence", "status", "other", "request", "response", "writing", "generic",
                            "single", "sign", "late ack"])
    if k == "ack":
        return k, [world.ACK]
    if k == "nack":
        return k, [world.NACK]
    if k == "silence":
        return k, []
    if k == "sign":
        return k, ["*#*0##"] if vc.choose("sign", [0, 1]) else ["*#*2##"]
    t = vc.text("reply.tag", "[0-9]{1,4}", ["1", "0", "11"])
    text = {"status": "*1*" + t + "*11##", "late ack": "*1*1*" + t + "##", "other": "*25*" + t + "#3*#1##",
            "request": "*#13**" + t + "##", "response": "*#1*11*" + t + "*5*" + t + "##", "writing": "*#1*11*#1*" + t + "##",
            "generic": "*99*" + t + "##", "single": "*" + t + "##"}[k]
    return k, [text, world.ACK] if k == "late ack" else [text]


async def _item(vc, cls):
    client, gw = await world.connect(vc)
    where = _where(vc, cls)
    item = cls(client, where if vc.choose("as text", [True, False]) else Where(where))
    return item, where, gw


async def _judge(vc, gw, call, text):
    """Run one command: exactly `text` is sent; it returns exactly when the answer is ACK."""
    kind, texts = _reply(vc)
    vc.expect_cover("acknowledged", "refused")
    gw.reset(lambda i, d: texts)
    o = await vc.aoutcome(call())
    vc.check(len(gw.sent) >= 1, "the command sends a frame")
    vc.check(len(gw.sent) <= 1, "the command sends only one frame")
    vc.check(gw.sent[0] == text, "the frame is the documented one")
    if kind == "ack":
        vc.cover("acknowledged")
        vc.check(o.ok, "an acknowledged command returns")
    else:
        vc.cover("refused")
        vc.check(not o.ok, "a command that is not acknowledged does not return")
        if kind != "silence":
            vc.check(o.raised(ResponseError), "any other answer raises the response error")


def _simple(vc, cls, who, table):
    m = vc.choose("command", list(table))

    async def main():
        item, where, gw = await _item(vc, cls)
        await _judge(vc, gw, lambda: getattr(item, m)(), "*" + who + "*" + table[m] + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def light(vc):
    """Lights: every command without arguments."""
    _simple(vc, Light, "1", {**LIGHT, **BLINK})


@harness("C12", exact=True)
def dimmer(vc):
    """Dimmers: every command without arguments."""
    _simple(vc, Dimmer, "1", {**LIGHT, **LEVELS})


@harness("C12", exact=True)
def automation(vc):
    """Automations."""
    _simple(vc, Automation, "2", AUTOMATION)


@harness("C12", exact=True)
def temporised(vc):
    """Lights and dimmers: temporisation."""
    cls = vc.choose("class", [Light, Dimmer])
    h, m, s = vc.int("hour", 0, 23), vc.int("minute", 0, 59), vc.int("second", 0, 59)

    async def main():
        item, where, gw = await _item(vc, cls)
        n = vc.num_text
        await _judge(vc, gw, lambda: item.temporization_command(h, m, s),
                     "*#1*" + where + "*#2*" + n(h) + "*" + n(m) + "*" + n(s) + "##")

    vc.run(main())


@harness("C12", exact=True)
def dimmer_speed(vc):
    """Dimmers: on and off with a speed."""
    m = vc.choose("command", ["turn_on", "turn_off"])
    speed = vc.int("speed", 0, 255)
    named = vc.choose("named", [True, False])

    async def main():
        item, where, gw = await _item(vc, Dimmer)
        f = getattr(item, m)
        await _judge(vc, gw, lambda: f(speed=speed) if named else f(speed),
                     "*1*" + LIGHT[m] + "#" + vc.num_text(speed) + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def dimmer_step(vc):
    """Dimmers: step up and down with a percentage, a speed or both (the percentage defaults to 1)."""
    m = vc.choose("command", ["up_percent", "down_percent"])
    how = vc.choose("arguments", ["value", "speed", "both", "None"])
    value = vc.int("value", 0, 100) if how in ("value", "both") else None
    speed = vc.int("speed", 0, 255) if how in ("speed", "both") else None

    async def main():
        item, where, gw = await _item(vc, Dimmer)
        f = getattr(item, m)
        n = vc.num_text
        t = "*1*" + LEVELS[m]
        if how == "value":
            t = t + "#" + n(value)
        elif how != "None":
            t = t + "#" + (n(value) if how == "both" else "1") + "#" + n(speed)
        await _judge(vc, gw, lambda: f(value=value, speed=speed), t + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def dimmer_dimensions(vc):
    """Dimmers: brightness with speed (numbers or texts), colour, white temperature."""
    m = vc.choose("command", ["brightness", "brightness text", "hsv", "white"])

    async def main():
        item, where, gw = await _item(vc, Dimmer)
        n = vc.num_text
        head = "*#1*" + where + "*#"
        if m == "brightness":
            b, s = vc.int("brightness", 0), vc.int("speed", 0)
            await _judge(vc, gw, lambda: item.set_brightness_with_speed(b, s), head + "1*" + n(b) + "*" + n(s) + "##")
        elif m == "brightness text":
            b, s = vc.text("brightness", "[0-9]+", ["100", "150"]), vc.text("speed", "[0-9]+", ["0", "255"])
            await _judge(vc, gw, lambda: item.set_brightness_with_speed(b, s), head + "1*" + b + "*" + s + "##")
        elif m == "hsv":
            h, s, v = vc.int("hue", 0, 359), vc.int("saturation", 0, 100), vc.int("value", 0, 100)
            await _judge(vc, gw, lambda: item.set_hsv(h, s, v), head + "12*" + n(h) + "*" + n(s) + "*" + n(v) + "##")
        else:
            t = vc.int("temperature", 1, 65534)
            await _judge(vc, gw, lambda: item.set_white_temperature(t), head + "14*" + n(t) + "##")

    vc.run(main())


@harness("C12", exact=True)
def camera(vc):
    """Cameras: only the video request carries the address."""
    m = vc.choose("command", ["receive_video"] + list(CAMERA))

    async def main():
        item, where, gw = await _item(vc, Camera)
        await _judge(vc, gw, lambda: getattr(item, m)(),
                     "*7*0*" + where + "##" if m == "receive_video" else "*7*" + CAMERA[m] + "##")

    vc.run(main())


@harness("C12", exact=True)
def camera_dial(vc):
    """Cameras: dial positions."""
    x, y = vc.choose("x", [1, 2, 3, 4]), vc.choose("y", [1, 2, 3, 4])

    async def main():
        item, where, gw = await _item(vc, Camera)
        await _judge(vc, gw, lambda: item.display_dial(x, y), "*7*3" + vc.num_text(x) + vc.num_text(y) + "##")

    vc.run(main())


@harness("C12", exact=True)
def energy(vc):
    """Energy devices and Stop&Go: every command without arguments."""
    if vc.choose("class", [0, 1]) == 0:
        _simple(vc, EnergyManagement, "18", ENERGY)
    else:
        _simple(vc, StopGo, "18", {**ENERGY, **STOPGO})


@harness("C12", exact=True)
def energy_arguments(vc):
    """Energy devices: commands with one argument."""
    m = vc.choose("command", ["force_actuator_on", "reset_totalizers"] + list(MONTHLY))
    a = vc.int("argument", 0)
    what = {"force_actuator_on": "73", "reset_totalizers": "75", **MONTHLY}[m]

    async def main():
        item, where, gw = await _item(vc, EnergyManagement)
        await _judge(vc, gw, lambda: getattr(item, m)(a), "*18*" + what + "#" + vc.num_text(a) + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def energy_daily(vc):
    """Energy devices: hourly totals of a day: 57#month#day."""
    day, month = vc.int("day", 0), vc.int("month", 0)

    async def main():
        item, where, gw = await _item(vc, EnergyManagement)
        named = vc.choose("named", [True, False])
        f = item.start_sending_daily_totalizers_hourly
        await _judge(vc, gw, lambda: f(day=day, month=month) if named else f(day, month),
                     "*18*57#" + vc.num_text(month) + "#" + vc.num_text(day) + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def energy_now(vc):
    """Energy devices: an argument left out is the current day or month."""
    m = vc.choose("command", ["day", "month", "both"] + list(MONTHLY))
    a = vc.int("argument", 1, 31)

    async def main():
        item, where, gw = await _item(vc, EnergyManagement)
        n = vc.num_text
        now = datetime.now()
        if m in MONTHLY:
            await _judge(vc, gw, lambda: getattr(item, m)(None), "*18*" + MONTHLY[m] + "#" + n(now.month) + "*" + where + "##")
        else:
            d = None if m in ("day", "both") else a
            mo = None if m in ("month", "both") else a
            await _judge(vc, gw, lambda: item.start_sending_daily_totalizers_hourly(d, mo),
                         "*18*57#" + n(now.month if mo is None else mo) + "#" + n(now.day if d is None else d) + "*" + where + "##")

    vc.run(main())


@harness("C12", exact=True)
def instant_power(vc):
    """Energy devices: automatic updates of a power: dimension 1200#type."""
    m = vc.choose("command", ["start", "start default", "stop", "stop default"])
    time, kind = vc.int("time", 0), vc.int("type", 0)

    async def main():
        item, where, gw = await _item(vc, EnergyManagement)
        head = "*#18*" + where + "*#1200#"
        n = vc.num_text
        if m == "start":
            await _judge(vc, gw, lambda: item.start_sending_instant_power(time, kind), head + n(kind) + "*" + n(time) + "##")
        elif m == "start default":
            await _judge(vc, gw, lambda: item.start_sending_instant_power(time), head + "1*" + n(time) + "##")
        elif m == "stop":
            await _judge(vc, gw, lambda: item.stop_sending_instant_power(kind), head + n(kind) + "*0##")
        else:
            await _judge(vc, gw, lambda: item.stop_sending_instant_power(), head + "1*0##")

    vc.run(main())


OWN = {"light": (Light, "1"), "dimmer": (Dimmer, "1"), "automation": (Automation, "2"), "camera": (Camera, "7"),
       "energy": (EnergyManagement, "18"), "stop": (StopGo, "18"), "gateway": (Gateway, "13")}


@harness("C12", exact=True, params=list(OWN))
def own_command(vc, kind):
    """Every item: a command given by its WHAT, or a dimension written with any values."""
    cls, who = OWN[kind]
    m = vc.choose("command", ["what", "write 0", "write 1", "write 2"])
    tag = vc.text("tag", world.TAG if m == "what" else "[0-9]*(#[0-9]+)*", world.TAGS)
    values = [vc.text(f"value{i}", world.TAG, world.TAGS) for i in range(0 if m == "what" else int(m[-1]))]
    as_text = vc.choose("tag as text", [True, False])

    async def main():
        if kind == "gateway":
            client, gw = await world.connect(vc)
            item, where = Gateway(client), ""
        else:
            item, where, gw = await _item(vc, cls)
        if m == "what":
            await _judge(vc, gw, lambda: item.send_normal_message(tag if as_text else What(tag)), "*" + who + "*" + tag + "*" + where + "##")
        else:
            text = "*#" + who + "*" + where + "*#" + tag
            for v in values:
                text = text + "*" + v
            await _judge(vc, gw, lambda: item.send_dimension_writing(tag if as_text else Dimension(tag), *[Value(v) for v in values]), text + "##")

    vc.run(main())


@harness("C12", exact=True, weight=2)
def any_answer(vc):
    """Whatever single frame the gateway answers, a command returns exactly when it is the ACK."""
    m = vc.choose("command", ["light", "automation", "energy"] + ([] if vc.symbolic else ["camera", "dimmer", "stop"]))
    cls, who, method, what = {"light": (Light, "1", "turn_on", "1"), "automation": (Automation, "2", "down", "2"),
                              "energy": (EnergyManagement, "18", "enable_actuator", "71"),
                              "camera": (Camera, "7", "receive_video", "0"), "dimmer": (Dimmer, "1", "set_70_percent", "7"),
                              "stop": (StopGo, "18", "enable_automatic_reset", "26")}[m]
    where = vc.text("where", *ENERGY_WHERE[StopGo])
    vc.expect_cover("acknowledged", "refused")

    async def main():
        client, gw = await world.connect(vc)
        item = cls(client, where)
        kind, t = world.frame(vc, "answer")
        gw.reset(lambda i, d: [t])
        o = await vc.aoutcome(getattr(item, method)())
        vc.check(gw.sent == ["*" + who + "*" + what + "*" + where + "##"], "the frame is the documented one")
        if kind == "ack":
            vc.cover("acknowledged")
            vc.check(o.ok, "an acknowledged command returns")
        else:
            vc.cover("refused")
            vc.check(o.raised(ResponseError), "any other answer raises the response error")

    vc.run(main())


@harness("C12", exact=True)
def late(vc):
    """An answer may take its time: the ACK within the time a read waits by default acknowledges the command."""
    cls, who, m, what = vc.choose("command", [(Light, "1", "turn_on", "1"), (Automation, "2", "down", "2"),
                                              (EnergyManagement, "18", "enable_actuator", "71"), (Camera, "7", "receive_video", "0"),
                                              (Dimmer, "1", "set_70_percent", "7"), (StopGo, "18", "enable_automatic_reset", "26"),
                                              (Dimmer, "1", "set_white_temperature", None)])
    kind = vc.choose("answer", ["ack", "ack", "nack", "status", "never"])
    after = vc.choose("after", [0, 1, 2, 3, 4])

    async def main():
        item, where, gw = await _item(vc, cls)
        args = () if what else (vc.int("temperature", 1, 65534),)
        text = "*" + who + "*" + what + "*" + where + "##" if what else "*#1*" + where + "*#14*" + vc.num_text(args[0]) + "##"
        t = {"ack": world.ACK, "nack": world.NACK, "status": "*1*1*11##"}.get(kind)
        gw.reset()
        world.later(vc, gw, [after], [] if kind == "never" else [t])
        o = await vc.aoutcome(getattr(item, m)(*args))
        vc.check(gw.sent == [text], "exactly the documented frame is sent, once")
        if kind == "ack":
            vc.check(o.ok, "an acknowledged command returns")
        elif kind == "never":
            vc.check(not o.ok, "a command that is not acknowledged does not return")
        else:
            vc.check(o.raised(ResponseError), "any other answer raises the response error")

    vc.run(main())


ALL = [(c, w, m, t) for c, w, table in ((Light, "1", {**LIGHT, **BLINK}), (Dimmer, "1", {**LIGHT, **LEVELS}),
                                        (Automation, "2", AUTOMATION), (EnergyManagement, "18", ENERGY),
                                        (StopGo, "18", {**ENERGY, **STOPGO}), (Camera, "7", {"receive_video": "0"}))
       for m, t in table.items()]


WITH = [(Dimmer, "1", "turn_on", (a,), f"1#{a}") for a in (0, 7, 255)] + [
    (Dimmer, "1", "turn_off", (a,), f"0#{a}") for a in (0, 7, 255)] + [
    (Dimmer, "1", "up_percent", (a, b), f"30#{a}#{b}") for a in (0, 10) for b in (0, 255)] + [
    (Dimmer, "1", "down_percent", (a,), f"31#{a}") for a in (0, 10)] + [
    (EnergyManagement, "18", "force_actuator_on", (a,), f"73#{a}") for a in (1, 2)] + [
    (EnergyManagement, "18", "reset_totalizers", (a,), f"75#{a}") for a in (1, 2)]
ALL = [(c, w, m, (), t) for c, w, m, t in ALL] + WITH * 2


@harness("C12", only="conc", weight=2)
def sequences(vc):
    """Bounded companion: several commands on several items of one client, answered in any way."""
    n = vc.choose("commands", [2, 3, 5, 12])

    async def main():
        both = [await world.connect(vc), await world.connect(vc)]
        items = {}
        for i in range(n):
            client, gw = both[0] if vc.choose(f"client{i}", [True, True, False]) else both[1]
            other = both[1][1] if gw is both[0][1] else both[0][1]
            cls, who, m, args, what = ALL[vc.choose(f"command{i}", list(range(len(ALL))))]
            where = vc.choose(f"where{i}", ["11", "12", "1127"])
            if vc.choose(f"new{i}", [False, True]) or (cls, where) not in items:
                items[cls, where] = cls(client, where)
            items[cls, where].client = client
            kind = vc.choose(f"answer{i}", ["ack", "ack", "nack", "normal", "response", "generic"])
            t = {"ack": world.ACK, "nack": world.NACK, "normal": "*1*1*11##", "response": "*#1*11*1*100*1##", "generic": "*99*1##"}[kind]
            other.reset(lambda i, d: [world.ACK])
            gw.reset(lambda i, d: [t])
            o = await vc.aoutcome(getattr(items[cls, where], m)(*args))
            vc.check(other.sent == [], "a command goes to the gateway of the item's client")
            vc.check(gw.sent == ["*" + who + "*" + what + "*" + where + "##"], "the frame is the documented one")
            if kind == "ack":
                vc.check(o.ok, "an acknowledged command returns")
            else:
                vc.check(o.raised(ResponseError), "any other answer raises the response error")

    vc.run(main())


@harness("C12", exact=True)
def another_client(vc):
    """An item that is given another client sends its commands through that one."""
    cls, who, m, args, what = ALL[vc.choose("command", list(range(len(ALL))))]
    before = vc.choose("commands before", [0, 1])

    async def main():
        (c1, g1), (c2, g2) = await world.connect(vc), await world.connect(vc)
        item = cls(c1, "11")
        g1.reset(lambda i, d: [world.ACK])
        g2.reset(lambda i, d: [world.ACK])
        if before:
            await getattr(item, m)(*args)
        g1.reset(lambda i, d: [world.ACK])
        item.client = c2
        vc.check(item.client is c2, "the item has its new client")
        o = await vc.aoutcome(getattr(item, m)(*args))
        vc.check(g1.sent == [] and g2.sent == ["*" + who + "*" + what + "*11##"], "a command goes to the gateway of the item's client")
        vc.check(o.ok, "an acknowledged command returns")

    vc.run(main())
