"""Planted bugs (developer data; no check reads it)."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C20-prefix", "C20", [("pyown/tags/where.py", 'startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09"))',
                           'startswith(("01", "02", "03", "04", "05", "06", "07", "08"))')],
    """
    from pyown.tags import Where
    from pyown.tags.where import WhereType
    assert Where("0915#4#01").type == WhereType.LIGHT_POINT
    """, "an address in the 09 ambient", "a light point in ambient 09 is not classified")

bug("C20-bus", "C20", [("pyown/tags/where.py", 'elif self.tag == "" and len(self.parameters) == 2:',
                        'elif self.tag == "" and len(self.parameters) >= 2:')],
    """
    from pyown.tags import Where
    try:
        Where("#1#2#3").type
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
    """, "an address with three parameters and no value", "an invalid address is classified as a local bus")

bug("C06-mask", "C06", [("pyown/auth/open.py", "num1 = (num2 & 0xFFFFFF80) >> 7", "num1 = (num2 & 0xFFFFFF00) >> 7")],
    """
    from pyown.auth.open import own_calc_pass
    def rot(p): return ((p >> 7) | (p << 25)) & 0xFFFFFFFF
    for p in (12345, 0x80, 128 + 5, 255):
        assert own_calc_pass(str(p), "1") == str(rot(p)), p
    """, "a password whose bit 7 is set when digit 1 of the nonce is reached", "a bit is lost in the rotation")

bug("C06-start", "C06", [("pyown/auth/open.py", "            if start:\n                num2 = password\n            start = False\n",
                          "            if start:\n                num2 = password\n        start = False\n")],
    """
    from pyown.auth.open import own_calc_pass
    assert own_calc_pass("12345", "012345") == own_calc_pass("12345", "12345")
    """, "a nonce that starts with 0", "the password is never loaded")

bug("C02-count", "C02", [("pyown/messages/base.py", "    if message.count(BaseMessage.suffix) != 1:\n        raise InvalidMessage(message=message)\n",
                          "    if message.count(BaseMessage.suffix) > 1 and not message.endswith(\"####\"):\n        raise InvalidMessage(message=message)\n")],
    """
    from pyown.messages import parse_message
    from pyown.exceptions import ParseError
    try:
        m = parse_message("*1*1*11####")
    except ParseError:
        pass
    else:
        raise SystemExit(repr(m))
    """, "a frame followed by an empty suffix", "text that is not one frame is accepted")

bug("C05-unicode", "C05", [("pyown/tags/base.py", "    return all(c in VALID_TAG_CHARS for c in tag)\n",
                           '    return all(c == "#" or c.isdigit() for c in tag)\n')],
    """
    from pyown.tags import Value
    from pyown.exceptions import InvalidTag
    for t in ("\\u0661", "1\\u00b2", "\\uff11#1"):
        try:
            Value(t)
        except InvalidTag:
            continue
        raise SystemExit("accepted " + ascii(t))
    """, "a digit outside ASCII", "a tag holds characters the protocol does not have")

NET = '''
import asyncio
from pyown.client import Client, SessionType
from pyown.messages import *
from pyown.tags import *

class FakeTransport(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.out = []
        self.closing = False
    def write(self, data):
        self.out.append(bytes(data).decode())
    def is_closing(self):
        return self.closing
    def close(self):
        self.closing = True

def client(session=SessionType.CommandSession, password="12345"):
    """A client whose connection is a pair of lists."""
    c = Client("127.0.0.1", 1, password, session, loop=asyncio.get_running_loop())
    t = FakeTransport()
    box = {}
    async def create_connection(factory, *a, **k):
        p = factory()
        box["p"] = p
        p.connection_made(t)
        return t, p
    class Loop:
        def __init__(self, real): self.real = real
        def __getattr__(self, n): return create_connection if n == "create_connection" else getattr(self.real, n)
    c._loop = Loop(c._loop)
    return c, t, box

async def started(session=SessionType.CommandSession):
    """A client after a handshake without password."""
    c, t, box = client(session)
    task = asyncio.ensure_future(c.start())
    while "p" not in box:
        await asyncio.sleep(0)
    box["p"].data_received(b"*#*1##*#*1##")
    await task
    t.out.clear()
    return c, t, box["p"]

def refused(f, *kinds):
    try:
        r = f()
    except kinds or (Exception,):
        return True
    raise SystemExit("accepted: %r" % (r,))

async def arefused(co, *kinds):
    try:
        r = await co
    except kinds or (Exception,):
        return True
    raise SystemExit("accepted: %r" % (r,))
'''


def nbug(id, prop, edits, demo, needs, breaks):
    import textwrap
    body = textwrap.dedent(demo)
    bug(id, prop, edits, NET + "\n\nasync def main():\n" + textwrap.indent(body, "    ") + "\n\nasyncio.run(asyncio.wait_for(main(), 60))\n",
        needs, breaks)


MB, MD, MN = "pyown/messages/base.py", "pyown/messages/dimension.py", "pyown/messages/normal.py"
TB, TW = "pyown/tags/base.py", "pyown/tags/where.py"
CB, CC, PR = "pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"
IB, LB, LD, LL = "pyown/items/base.py", "pyown/items/lighting/base.py", "pyown/items/lighting/dimmer.py", "pyown/items/lighting/light.py"
AU, CA, GW, EN, EE, SG = ("pyown/items/automation/automation.py", "pyown/items/camera/camera.py", "pyown/items/gateway/gateway.py",
                          "pyown/items/energy/energy.py", "pyown/items/energy/enums.py", "pyown/items/energy/stop_go.py")

# ---------------------------------------------------------------- C01
bug("C01-tail", "C01", [(MB, """        return f"*{'*'.join(self._tags)}##\"""", """        return f"*{'*'.join(self._tags).rstrip('*')}##\"""")],
    """
    from pyown.messages import parse_message
    assert str(parse_message("*99*1*##".replace("*##", "**2*##"))) == "*99*1**2*##"
    """, "a generic frame that ends with an empty tag", "the last empty tag is dropped")
bug("C01-bytes", "C01", [(MB, 'return self.message.encode("ascii")', 'return self.message.strip("*").join(("*", "")).encode("ascii")')],
    """
    from pyown.messages import parse_message
    for t in ("*1*1*11##", "**1*2##"):
        assert parse_message(t).bytes == t.encode(), t
    """, "a frame whose first tag is empty", "the byte form loses the empty first tag")

# ---------------------------------------------------------------- C02
bug("C02-white", "C02", [(MB, "    message = message.strip()\n", '    message = message.strip(" \\r\\n")\n')],
    """
    from pyown.messages import parse_message
    assert str(parse_message("\\t*1*1*11##")) == "*1*1*11##"
    """, "whitespace other than blanks and line ends around the frame", "a well-formed frame is refused")
# ---------------------------------------------------------------- C03
bug("C03-strip", "C03", [(MD, 'Dimension(tags[2].removeprefix("#")),', 'Dimension(tags[2].strip("#")),')],
    """
    from pyown.messages import parse_message
    assert parse_message("*#1*11*#1#*5##").dimension.string == "1#"
    """, "a dimension whose last parameter is empty", "the parameter is lost")
# ---------------------------------------------------------------- C04
bug("C04-pad", "C04", [(MD, "values: list[Value] = [Value(t) for t in tags[3:]]", 'values: list[Value] = [Value(t) for t in tags[3:] if t != ""] or [Value("")] * len(tags[3:])')],
    """
    from pyown.messages import parse_message, DimensionResponse
    from pyown.tags import *
    m = DimensionResponse((Who("13"), Where(""), Dimension("0"), Value("1"), Value(""), Value("2")))
    p = parse_message(str(m))
    assert type(p) is type(m) and p == m and p.values == m.values
    """, "an empty value among others", "the parsed message has fewer values")
bug("C04-eq", "C04", [(MB, "return self._type == other._type and self._tags == other._tags", "return self._type == other._type and repr(self._tags) == repr(other._tags)")],
    """
    from pyown.messages import parse_message, NormalMessage
    from pyown.items.lighting.base import WhatLight
    from pyown.tags import *
    m = NormalMessage((Who("1"), WhatLight.ON, Where("11")))
    assert parse_message(str(m)) == m
    """, "a message built with an enumerated command", "it does not equal its parsed form")

# ---------------------------------------------------------------- C05
bug("C05-params", "C05", [(TB, 'return self.string.split("#")[1:]', 'return self.string.split("#")[1:] if not self.string.endswith("#") else self.string.split("#")[1:-1]')],
    """
    from pyown.tags import Where
    assert Where("11#4#").parameters == ["4", ""]
    """, "an empty last parameter", "the parameter list loses it")
bug("C05-desc", "C05", [("pyown/tags/who.py", '    Who.DEVICE_DIAGNOSTICS: "Device diagnostics",\n', '')],
    """
    from pyown.tags import Who
    for w in Who:
        assert w.name
    """, "one particular WHO", "it has no description")

# ---------------------------------------------------------------- C06
bug("C06-eight", "C06", [("pyown/auth/open.py", "num2 = (num2 & 0x00FF0000) >> 8", "num2 = (num2 & 0x00FF0000) >> 8 if num2 < 0x80000000 else (num2 & 0x007F0000) >> 8")],
    """
    from pyown.auth.open import own_calc_pass
    def perm(p): return (((p & 0xFFFF) << 16) | (p >> 24) | ((p & 0xFF0000) >> 8)) & 0xFFFFFFFF
    for p in (12345, 0xFFFFFFFF, 0x80800000):
        assert own_calc_pass(str(p), "8") == str(perm(p)), p
    """, "a state with bits 31 and 23 set at digit 8", "a bit is lost in the permutation")
bug("C06-int", "C06", [("pyown/auth/open.py", "        nonce = str(nonce)\n", '        nonce = f"{nonce:08d}"[:10]\n')],
    """
    from pyown.auth.open import own_calc_pass
    for n in (1, 603356072, 12345678912):
        assert own_calc_pass("12345", n) == own_calc_pass("12345", str(n)), n
    """, "an integer nonce with more than ten digits", "the nonce is cut")

# ---------------------------------------------------------------- C07
H = "pyown/auth/hmac.py"
bug("C07-nine", "C07", [(H, "out += str(value // 10) + str(value % 10)", 'out += f"{value:02d}" if value else "0" * (2 if out else 1) if len(hex_string) < 3 else "00"')],
    """
    from pyown.auth.hmac import hex_to_digits, digits_to_hex
    for h in ("0", "00", "0a", "00a", "a0", "f" * 40):
        assert hex_to_digits(h) == "".join("%02d" % int(c, 16) for c in h), h
    """, "a short string that starts with 0", "the first digit is written with one character")

# ---------------------------------------------------------------- C08
nbug("C08-open", "C08", [(CB, """        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password")
""", """        if resp.type == MessageType.NACK:
            raise InvalidAuthentication("Invalid password")
""")], """
    c, t, box = client()
    task = asyncio.ensure_future(c.start())
    while "p" not in box:
        await asyncio.sleep(0)
    box["p"].data_received(b"*#*1##*#603356072##*1*1*11##")
    await arefused(task)
    """, "a gateway that answers the password with something other than ACK or NACK", "the client becomes ready without an acknowledgement")
nbug("C08-98", "C08", [(CB, 'elif resp.tags[0] == "98":', 'elif resp.tags[0].endswith("98"):')], """
    c, t, box = client()
    task = asyncio.ensure_future(c.start())
    while "p" not in box:
        await asyncio.sleep(0)
    box["p"].data_received(b"*#*1##*198*9##")
    await arefused(task)
    assert t.out == ["*99*9##"], t.out
    """, "a first answer whose tag ends in 98", "a reply is sent to a frame that is not an authentication request")
# ---------------------------------------------------------------- C09
nbug("C09-old", "C09", [(CB, """            self._session_type == SessionType.CommandSession
            or self._session_type == SessionType.OldCommandSession
""", """            self._session_type == SessionType.CommandSession
            or self._session_type.name == "OldCommand"
""")], """
    from pyown.exceptions import InvalidSession
    c, t, p = await started(SessionType.OldCommandSession)
    await arefused(asyncio.wait_for(c.loop(), 5), InvalidSession)
    """, "an old-style command session", "the event loop runs on a command session")

# ---------------------------------------------------------------- C10
nbug("C10-ascii", "C10", [(PR, "            raise e\n", "            if b\"##\" not in data:\n                raise e\n            text = data.decode(\"ascii\", errors=\"ignore\")\n")], """
    c, t, p = await started()
    try:
        p.data_received(b"*1*1*1\\xe92##")
    except UnicodeDecodeError:
        pass
    await arefused(c.read_message(timeout=0.05), TimeoutError)
    """, "a frame damaged on the way into a byte that is not ASCII", "a different frame is delivered")

# ---------------------------------------------------------------- C11
nbug("C11-once", "C11", [(PR, "while self._lock.locked():", "if self._lock.locked():")], """
    c, t, p = await started()
    p.pause_writing()
    task = asyncio.ensure_future(c.send_message(parse_message("*1*1*11##")))
    await asyncio.sleep(0.35)
    assert t.out == []
    p.resume_writing()
    await task
    assert t.out == ["*1*1*11##"]
    """, "a pause longer than one delay", "the frame is written while the transport is paused")

# ---------------------------------------------------------------- C12
nbug("C12-dial", "C12", [(CA, '    (3, 4): WhatCamera.DISPLAY_DIAL_34,', '    (3, 4): WhatCamera.DISPLAY_DIAL_43,')], """
    from pyown.items.camera import Camera
    c, t, p = await started()
    for x in range(1, 5):
        for y in range(1, 5):
            p.data_received(b"*#*1##")
            await Camera(c, "4000").display_dial(x, y)
            assert t.out.pop() == "*7*3%d%d##" % (x, y)
    """, "dial position 3-4", "another dial is shown")
nbug("C12-zero", "C12", [(EN, "        if time is None:\n            await self.send_normal_message(WhatEnergy.FORCE_ACTUATOR_ON)",
                         "        if not time:\n            await self.send_normal_message(WhatEnergy.FORCE_ACTUATOR_ON)")], """
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    for time, f in ((None, "73"), (5, "73#5"), (0, "73#0")):
        p.data_received(b"*#*1##")
        await EnergyManagement(c, "71#0").force_actuator_on(time)
        assert t.out.pop() == "*18*%s*71#0##" % f, f
    """, "a time of zero", "the parameter is left out")
nbug("C12-ack", "C12", [(IB, "if resp.type != MessageType.ACK:", "if resp.type not in (MessageType.ACK, MessageType.DIMENSION_RESPONSE):")], """
    from pyown.items.lighting import Light
    from pyown.exceptions import ResponseError
    c, t, p = await started()
    p.data_received(b"*#1*11*2*1*2*3##")
    await arefused(Light(c, "11").turn_on(), ResponseError)
    """, "a dimension response in place of the ACK", "the command returns as if it was acknowledged")
nbug("C12-power", "C12", [(EN, """            DimensionEnergy.END_AUTOMATIC_UPDATE_SIZE.with_parameter(power_type),
            Value(0),
""", """            DimensionEnergy.END_AUTOMATIC_UPDATE_SIZE.with_parameter(1),
            Value(0),
""")], """
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    for k in (1, 2):
        p.data_received(b"*#*1##")
        await EnergyManagement(c, "51").stop_sending_instant_power(k)
        assert t.out.pop() == "*#18*51*#1200#%d*0##" % k
    """, "a power type other than 1", "the wrong report is stopped")

# ---------------------------------------------------------------- C13
nbug("C13-hue", "C13", [(LD, "if hue < 0 or hue > 359:", "if hue < 0 or hue > 360:")], """
    from pyown.items.lighting import Dimmer
    c, t, p = await started()
    p.data_received(b"*#*1##")
    await arefused(Dimmer(c, "11").set_hsv(360, 1, 1))
    assert t.out == []
    """, "hue 360", "an out-of-range hue is sent")
nbug("C13-down", "C13", [(LD, '''        """Decreases the light percentage.

        Args:
            value: the percentage to decrease, by default 1
            speed: decrease the light percentage with a specific speed [0-255]
        """
        if value is not None and (value < 0 or value > 100):''', '''        """Decreases the light percentage.

        Args:
            value: the percentage to decrease, by default 1
            speed: decrease the light percentage with a specific speed [0-255]
        """
        if value is not None and speed is None and (value < 0 or value > 100):''')], """
    from pyown.items.lighting import Dimmer
    c, t, p = await started()
    p.data_received(b"*#*1##")
    await arefused(Dimmer(c, "11").down_percent(101, 3))
    assert t.out == []
    """, "a step above 100 together with a speed", "an out-of-range step is sent")
nbug("C13-hour", "C13", [(LB, "if hour >= 24 or minute >= 60 or second >= 60:", "if hour >= 24 or minute >= 60 or second > 60:")], """
    from pyown.items.lighting import Light
    c, t, p = await started()
    p.data_received(b"*#*1##")
    await arefused(Light(c, "11").temporization_command(1, 2, 60))
    assert t.out == []
    """, "second 60", "an out-of-range time is sent")

# ---------------------------------------------------------------- C14
nbug("C14-write", "C14", [(IB, "            if not isinstance(resp, DimensionResponse):\n                raise ResponseError(", "            if not isinstance(resp, DimensionWriting):\n                raise ResponseError(")], """
    from pyown.items.lighting import Light
    from pyown.exceptions import ResponseError
    c, t, p = await started()
    p.data_received(b"*#1*11*#2*1*2*3##*#*1##")
    async def run():
        return [m async for m in Light(c, "11").send_dimension_request("2")]
    await arefused(run(), ResponseError)
    """, "a dimension write among the replies", "it is yielded as a response")
nbug("C14-last", "C14", [(IB, "resp = messages[0]", "resp = messages[-1]")], """
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    p.data_received(b"*#18*51*113*10##*#18*51*113*20##*#*1##")
    assert await EnergyManagement(c, "51").get_active_power() == 10.0
    """, "more than one reply to a single-value request", "a later reply is returned")
nbug("C14-after", "C14", [(IB, '''            if not isinstance(resp, NormalMessage):
                raise ResponseError(f"Received {resp} instead of a normal message")

            yield resp
''', '''            if not isinstance(resp, NormalMessage):
                raise ResponseError(f"Received {resp} instead of a normal message")

            if resp.where == self._where or resp.where.type != self._where.type:
                yield resp
''')], """
    from pyown.items.lighting import Light
    c, t, p = await started()
    p.data_received(b"*1*1*11##*1*0*12##*#*1##")
    assert [str(m) async for m in Light(c, "11").send_status_request()] == ["*1*1*11##", "*1*0*12##"]
    """, "a reply of another light point", "the reply is dropped")

# ---------------------------------------------------------------- C15
nbug("C15-tz", "C15", [(GW, "hours = int(t.string[1:3])", "hours = int(t.string[1:3].strip('0') or 0)")], """
    import datetime
    from pyown.items.gateway import Gateway
    c, t, p = await started()
    for h in (0, 1, 9, 10, 12):
        p.data_received(b"*#13**0*10*20*30*0%02d##*#*1##" % h)
        assert (await Gateway(c).get_time()).utcoffset() == datetime.timedelta(hours=h), h
    """, "an offset of ten hours", "it is read as one hour")
nbug("C15-week", "C15", [(GW, 'w = Value(f"{bus_date.weekday() + 1:02d}")', 'w = Value(f"{bus_date.isoweekday() % 6:02d}")')], """
    import datetime
    from pyown.items.gateway import Gateway
    c, t, p = await started()
    for d in range(1, 8):
        day = datetime.date(2024, 9, d)
        p.data_received(b"*#*1##")
        await Gateway(c).set_date(day)
        assert t.out.pop() == "*#13**#1*%02d*%02d*09*2024##" % (day.isoweekday() % 7, d), day
    """, "a Saturday", "the weekday sent is Sunday's")
nbug("C15-up", "C15", [(GW, "uptime = datetime.timedelta(days=d, hours=h, minutes=m, seconds=s)", "uptime = datetime.timedelta(days=d, hours=h % 24, minutes=m % 60, seconds=s % 60)")], """
    import datetime
    from pyown.items.gateway import Gateway
    c, t, p = await started()
    p.data_received(b"*#13**19*1*30*2*3##*#*1##")
    assert await Gateway(c).get_uptime() == datetime.timedelta(days=1, hours=30, minutes=2, seconds=3)
    """, "an uptime with more than 23 hours in the hour field", "whole days are lost")

# ---------------------------------------------------------------- C16
nbug("C16-bit", "C16", [(SG, "status.first_24h_open = bool(val & 0x400)  # bit 11", "status.first_24h_open = bool(val & 0x40)  # bit 11")], """
    from pyown.items.energy.stop_go import StopGo
    c, t, p = await started()
    p.data_received(b"*#18*11*250*0010000000000##*#*1##")
    s = await StopGo(c, "11").request_status()
    assert s.first_24h_open and not s.self_test_off
    """, "the 24-hour flag alone", "it is read from another bit")
nbug("C16-lvl", "C16", [(LD, "yield message.where, int(message.what.tag) * 10", "yield message.where, int(message.what.tag[:1]) * 10")], """
    from pyown.items.lighting import Dimmer
    c, t, p = await started()
    p.data_received(b"*1*10*11##*#*1##")
    assert [r async for r in Dimmer(c, "11").get_status()] == [(Where("11"), 100)]
    """, "level 10 (100 %)", "it is read as 10 %")
nbug("C16-min", "C16", [(EN, "return datetime(int(y), int(m), int(d), int(h), int(mi)), energy", "return datetime(int(y), int(m), int(d), int(h), int(mi) if int(h) else 0), energy")], """
    import datetime
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    p.data_received(b"*#18*51*72#1*7*2*3*2024*0*45##*#*1##")
    assert await EnergyManagement(c, "51").get_totalizers(1) == (datetime.datetime(2024, 3, 2, 0, 45), 7.0)
    """, "a reset in the first hour of the day", "the minute is lost")

# ---------------------------------------------------------------- C17
nbug("C17-rev", "C17", [(IB, "return [asyncio.create_task(func(*args)) for func in funcs]", "return [asyncio.create_task(func(*args)) for func in sorted(funcs, key=lambda f: f.__name__)]")], """
    from pyown.items.automation import Automation
    got = []
    async def zeta(*a): got.append("zeta")
    async def alpha(*a): got.append("alpha")
    Automation.on_status_change(zeta)
    Automation.on_status_change(alpha)
    c, t, p = await started()
    await asyncio.gather(*await Automation.call_callbacks(Automation(c, "11"), parse_message("*2*1*11##")))
    assert got == ["zeta", "alpha"], got
    """, "two callbacks whose names are not in registration order", "they run in another order")
nbug("C17-hsv", "C17", [(LD, "cls._event_callbacks.setdefault(LightEvents.WHITE_TEMP_CHANGE, []).append(callback)", "cls._event_callbacks.setdefault(LightEvents.WHITE_TEMP_CHANGE, cls._event_callbacks.get(LightEvents.HSV_CHANGE, [])).append(callback)")], """
    from pyown.items.lighting import Dimmer
    got = []
    async def hsv(*a): got.append("hsv")
    async def white(*a): got.append("white")
    Dimmer.on_hsv_change(hsv)
    Dimmer.on_white_temp_change(white)
    c, t, p = await started()
    await asyncio.gather(*await Dimmer.call_callbacks(Dimmer(c, "11"), parse_message("*#1*11*12*1*2*3##")), return_exceptions=True)
    assert got == ["hsv"], got
    """, "a colour callback registered before the first temperature callback", "both kinds share one list")

# ---------------------------------------------------------------- C18
nbug("C18-except", "C18", [(CC, "except Exception as e:", "except (ValueError, KeyError, TypeError) as e:")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    p.data_received(b"*#1*11*2*1##*1*1*11##")
    await asyncio.sleep(0.1)
    assert not task.done(), task
    task.cancel()
    """, "a temporisation event with too few values", "the event loop ends")
# ---------------------------------------------------------------- C19
nbug("C19-param", "C19", [(CC, "        if (who, where) in self._items:\n            return self._items[(who, where)]", "        if (who, where.tag) in self._items:\n            return self._items[(who, where.tag)]")], """
    c, t, p = await started()
    a = c.get_item(Who("1"), Where("11"), client=c)
    b = c.get_item(Who("1"), Where("11#4#01"), client=c)
    assert a is not b and b.where == "11#4#01"
    """, "two addresses that differ only in their parameters", "they share one item")
nbug("C19-client", "C19", [(CC, "            return self._items[(who, where)]\n", "            item = self._items[(who, where)]\n            if item.client is self:\n                item.client = client\n            return item\n")], """
    c, t, p = await started()
    d, _, _ = await started()
    a = c.get_item(Who("1"), Where("11"), client=c)
    b = c.get_item(Who("1"), Where("11"), client=d)
    assert a is b and a.client is c
    """, "a second lookup with another client", "the item changes its client")

# ---------------------------------------------------------------- C20
bug("C20-ten", "C20", [(TW, 'elif self.string in ["00", "100"]:', 'elif self.tag in ["00", "100"]:')],
    """
    from pyown.tags import Where
    from pyown.tags.where import WhereType
    assert Where("100#4#01").type == WhereType.LIGHT_POINT
    """, "an ambient number followed by parameters", "it is classified as an ambient")

bug("C01-who", "C01", [(MN, 'return cls(tags=(Who(tags[0]), What(tags[1]), Where(tags[2])))', 'return cls(tags=(Who(tags[0].strip("#")), What(tags[1]), Where(tags[2])))')],
    """
    from pyown.messages import parse_message
    assert str(parse_message("*1#*1*11##")) == "*1#*1*11##"
    """, "a WHO with an empty parameter", "the '#' disappears")
bug("C03-dim3", "C03", [(MN, r"\*[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*##$", r"\*[0-9#]+\*[0-9]*(?:#[0-9]*){0,2}\*[0-9]*(?:#[0-9]*)*##$")],
    """
    from pyown.messages import parse_message, NormalMessage
    m = parse_message("*1*30#5#255#1*11##")
    assert type(m) is NormalMessage and m.what.parameters == ["5", "255", "1"]
    """, "a WHAT with three parameters", "the frame is classified as generic")
bug("C07-key", "C07", [("pyown/auth/hmac.py", """    hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
""", """    hmac_message = f"{server_key[:64]}{client_key}{client_identity}{server_identity}{kab}"
""")],
    """
    import hashlib
    from hmac import new
    from pyown.auth import client_hmac
    ra, rb = "ab" * 40, "cd" * 32
    kab = hashlib.sha256(b"pw").hexdigest()
    assert client_hmac(ra, rb, "pw") == new(ra.encode(), (ra + rb + "736F70653E" + "636F70653E" + kab).encode(), "sha256").digest()
    """, "a server key longer than 64 characters", "the proof leaves out the end of the key")
bug("C07-sha", "C07", [("pyown/auth/hmac.py", """    kab = hash_function(password.encode()).hexdigest()
    hmac_message = f"{server_key}{client_key}{kab}"
""", """    kab = sha256(password.encode()).hexdigest()
    hmac_message = f"{server_key}{client_key}{kab}"
""")],
    """
    import hashlib
    from hmac import new
    from pyown.auth import server_hmac, AuthAlgorithm
    ra, rb = "ab" * 20, "cd" * 20
    kab = hashlib.sha1(b"pw").hexdigest()
    assert server_hmac(ra, rb, "pw", AuthAlgorithm.SHA1) == new(ra.encode(), (ra + rb + kab).encode(), "sha1").digest()
    """, "the SHA-1 variant", "the password is hashed with the wrong algorithm")
nbug("C08-nack", "C08", [(CB, """            raise InvalidAuthentication("Expected ACK message")
""", """            if message.type == MessageType.NACK:
                raise InvalidAuthentication("Expected ACK message")
""")], """
    c, t, box = client()
    task = asyncio.ensure_future(c.start())
    while "p" not in box:
        await asyncio.sleep(0)
    box["p"].data_received(b"*99*1##*#*1##")
    await arefused(task)
    assert t.out == []
    """, "a gateway whose first frame is neither ACK nor NACK", "the handshake goes on")
nbug("C09-force", "C09", [(CB, "        if self._protocol is None:\n            raise InvalidSession(\"Client not started\")\n\n        await self._protocol.send_message(message)", "        if self._protocol is None and not force:\n            raise InvalidSession(\"Client not started\")\n\n        await self._protocol.send_message(message)")], """
    from pyown.exceptions import InvalidSession
    c, t, box = client()
    await arefused(c.send_message(parse_message("*1*1*11##"), force=True), InvalidSession)
    """, "a forced message on a client that was never started", "another error than the invalid-session one escapes")
nbug("C11-twice", "C11", [(PR, "        self._transport.write(data)\n", "        self._transport.write(data[:64])\n        if len(data) > 64:\n            await asyncio.sleep(0)\n            self._transport.write(data[64:])\n")], """
    c, t, p = await started()
    await c.send_message(GenericMessage(["1" * 100]))
    assert t.out == ["*" + "1" * 100 + "##"], t.out
    """, "a frame longer than 64 bytes", "it is written in two parts, between which others can be written")
nbug("C17-auto", "C17", [(GW, "            what = WhatGateway(message.dimension.string)\n", "            what = WhatGateway(message.dimension.tag)\n")], """
    from pyown.items.gateway import Gateway, WhatGateway
    got = []
    async def cb(*a): got.append(a[1:])
    Gateway.register_callback(WhatGateway.DEVICE_TYPE, cb)
    c, t, p = await started()
    g = Gateway(c)
    try:
        r = await Gateway.call_callbacks(g, parse_message("*#13**15#1*2##"))
    except Exception:
        r = []
    await asyncio.gather(*r)
    assert got == [], got
    """, "a gateway dimension with a parameter", "a dimension the item does not support reaches a callback")
nbug("C18-generic", "C18", [(CC, 'log.info(f"Item type not supported, WHO={who}, WHERE={where}")', 'log.info(f"Item type not supported, WHO={who}, WHERE={where.type.name}")')], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    p.data_received(b"*4*1*1##*4*1*#1#2#3##*1*1*11##")
    await asyncio.sleep(0.1)
    assert not task.done(), task
    task.cancel()
    """, "an unsupported WHO at an address without a type", "the event loop ends")

# ---------------------------------------------------------------- C22, C25
nbug("C22-error", "C22", [(PR, """        else:
            log.info("Connection lost")
        if exc is None:
            self._on_connection_end.set_result(None)
        else:
            self._on_connection_end.set_exception(exc)
""", """            self._on_connection_end.set_exception(exc)
            return
        log.info("Connection lost")
        self._on_connection_end.set_result(None)
""")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    await asyncio.sleep(0)
    t.closing = True
    p.connection_lost(OSError("reset"))
    await asyncio.wait([task], timeout=2)
    assert task.done()
    """, "the connection ends with an error while the loop waits", "the loop waits for ever")
nbug("C22-close", "C22", [(CB, "        if self._transport is not None:\n            self._transport.close()\n", "        if self._transport is not None and self.is_cmd_session():\n            self._transport.close()\n")], """
    c, t, p = await started(SessionType.EventSession)
    await c.close()
    assert t.closing
    """, "an event session closed by the user", "the connection stays open and the loop never ends")
nbug("C22-read", "C22", [(CB, "            message = await self._protocol.receive_messages()\n", "            while True:\n                try:\n                    message = await self._protocol.receive_messages()\n                    break\n                except OSError as e:\n                    log.warning(f\"Error reading message: {e}\")\n                    await asyncio.sleep(1)\n")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    await asyncio.sleep(0)
    t.closing = True
    p.connection_lost(None)
    await asyncio.wait([task], timeout=3)
    assert task.done()
    """, "the connection ends while a message is awaited", "the read retries for ever")
nbug("C25-shield", "C25", [(CB, "            message = await self._protocol.receive_messages()\n", "            message = await asyncio.shield(self._protocol.receive_messages())\n")], """
    c, t, p = await started()
    await arefused(c.read_message(timeout=0.05), TimeoutError)
    p.data_received(b"*1*1*11##")
    assert str(await c.read_message(timeout=1)) == "*1*1*11##"
    """, "a read that times out before the message arrives", "the abandoned read swallows the next message")
nbug("C25-zero", "C25", [(CB, "        async with asyncio.timeout(timeout):\n", "        async with asyncio.timeout(timeout and min(timeout, 60)):\n")], """
    import time
    c, t, p = await started()
    seen = []
    real = asyncio.timeout
    asyncio.timeout = lambda s: (seen.append(s), real(0.01))[1]
    await arefused(c.read_message(timeout=300), TimeoutError)
    assert seen == [300], seen
    """, "a limit of more than a minute", "the read gives up too early")
nbug("C18-idle", "C18", [(CB, "        async with asyncio.timeout(timeout):\n", "        async with asyncio.timeout(timeout or 5):\n")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    await asyncio.sleep(6)
    assert not task.done(), task
    task.cancel()
    """, "five seconds without a message", "the event loop ends")

# ---------------------------------------------------------------- what several objects or several calls share
nbug("C11-closing", "C11", [(CB, "        await self._protocol.send_message(message)\n", "        if self._transport is None or not self._transport.is_closing():\n            await self._protocol.send_message(message)\n")], """
    c, t, p = await started()
    t.closing = True
    await c.send_message(parse_message("*1*1*11##"))
    assert t.out == ["*1*1*11##"], t.out
    """, "a send that returns while the transport is ending", "the send returns without having written the message")
nbug("C11-lock", "C11", [(PR, "    _transport: Transport\n    _lock: Lock\n", "    _transport: Transport\n    _lock: Lock = Lock()\n"), (PR, "        self._lock = Lock()\n", "")], """
    c, t, p = await started()
    d, u, q = await started()
    q.pause_writing()
    await asyncio.wait_for(c.send_message(parse_message("*1*1*11##")), 2)
    assert t.out == ["*1*1*11##"]
    """, "another connection of the same program is paused", "messages on this one are held back")
nbug("C19-shared", "C19", [(CC, "        self._items = {}\n", ""), (CC, "    _items: dict[tuple[Who, Where], BaseItem]\n", "    _items: dict[tuple[Who, Where], BaseItem] = {}\n")], """
    c, t, p = await started()
    d, u, q = await started()
    a = c.get_item(Who("1"), Where("11"), client=c)
    b = d.get_item(Who("1"), Where("11"), client=d)
    assert a is not b and b.client is d
    """, "two clients that know the same address", "the second one is given the item of the first")
nbug("C16-keep", "C16", [(SG, "        status = StopGoStatus()\n", '        status = self.__dict__.setdefault("_status", StopGoStatus())\n')], """
    from pyown.items.energy.stop_go import StopGo
    c, t, p = await started()
    i = StopGo(c, "11")
    p.data_received(b"*#18*11*250*1111111111111##*#*1##")
    a = await i.request_status()
    before = vars(a).copy() if hasattr(a, "__dict__") else repr(a)
    p.data_received(b"*#18*11*250*0000000000000##*#*1##")
    b = await i.request_status()
    assert (vars(a) if hasattr(a, "__dict__") else repr(a)) == before
    assert a is not b and a != b
    """, "two status requests whose first result is still in use", "the second answer rewrites the first result")
nbug("C14-own", "C14", [(IB, "        resp = messages[0]\n", "        resp = next((m for m in messages if m.where == self._where), messages[0])\n")], """
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    p.data_received(b"*#18*52*113*7##*#18*51*113*9##*#*1##")
    try:
        assert await EnergyManagement(c, "51").get_active_power() == 7.0
    except Exception as e:
        assert not isinstance(e, AssertionError), e
    """, "answers of two addresses to one question about one of them", "the wrong one of them is taken")
nbug("C25-back", "C25", [(CB, "            message = await self._protocol.receive_messages()\n", "            get = asyncio.ensure_future(self._protocol.receive_messages())\n            try:\n                message = await get\n            except asyncio.CancelledError:\n                if get.done() and not get.cancelled():\n                    self._protocol._messages_queue.put_nowait(get.result())\n                raise\n")], """
    c, t, p = await started()
    task = asyncio.ensure_future(c.read_message(timeout=None))
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    p.data_received(b"*1*1*11##")
    await asyncio.sleep(0)
    p.data_received(b"*1*0*11##")
    task.cancel()
    await asyncio.gather(task, return_exceptions=True)
    first = None if task.cancelled() else str(task.result())
    rest = []
    while True:
        try:
            rest.append(str(await c.read_message(timeout=0.05)))
        except TimeoutError:
            break
    assert ([first] if first else []) + rest == ["*1*1*11##", "*1*0*11##"], (first, rest)
    """, "a read given up in the instant its message arrives, with another message behind", "the two messages change order")
bug("C01-many", "C01", [(MB, """        return f"*{'*'.join(self._tags)}##\"""", """        return f"*{'*'.join(t for t in self._tags if t or len(self._tags) < 12)}##\"""")],
    """
    from pyown.messages import parse_message
    f = "*99" + "*1" * 11 + "**5##"
    assert str(parse_message(f)) == f
    """, "a generic frame of twelve or more tags one of which is empty", "the empty tag disappears")
bug("C05-space", "C05", [(TB, "            return self.string == other\n", "            return self.string == other.strip()\n")],
    """
    from pyown.tags import Where
    assert Where("11") != "11 "
    assert Where("11") == "11"
    """, "a text that differs from the tag by surrounding whitespace only", "they compare equal although their texts and hashes differ")
bug("C05-record", "C05", [(TB, '        return self.__class__(f"{self}#{parameter}")\n', '        new = self.__class__(f"{self}#{parameter}")\n        self.__dict__.setdefault("_params", []).append(parameter)\n        return new\n'),
                          (TB, '        return self.string.split("#")[1:]\n', '        return self.string.split("#")[1:] + [str(p) for p in self.__dict__.get("_params", [])[1:]]\n')],
    """
    from pyown.tags import Dimension
    d = Dimension("72")
    d.with_parameter(1)
    d.with_parameter(2)
    assert d.parameters == [], d.parameters
    """, "two parameters added in turn to the same tag", "the original tag's parameters change")
bug("C07-kab", "C07", [("pyown/auth/hmac.py", "    kab = hash_function(password.encode()).hexdigest()\n    hmac_message = f\"{server_key}{client_key}{client_identity}", "    kab = _KAB.setdefault(password, hash_function(password.encode()).hexdigest())\n    hmac_message = f\"{server_key}{client_key}{client_identity}"),
                       ("pyown/auth/hmac.py", "def client_hmac(", "_KAB: dict = {}\n\n\ndef client_hmac(")],
    """
    import hashlib, hmac
    from pyown.auth.hmac import client_hmac
    from pyown.auth.enum import AuthAlgorithm
    def want(h):
        kab = h(b"pw").hexdigest()
        return hmac.digest(b"11", ("11" + "22" + "736F70653E" + "636F70653E" + kab).encode(), h)
    assert client_hmac("11", "22", "pw", hash_algorithm=AuthAlgorithm.SHA1) == want(hashlib.sha1)
    assert client_hmac("11", "22", "pw", hash_algorithm=AuthAlgorithm.SHA256) == want(hashlib.sha256)
    """, "the same password used with SHA-1 and then with SHA-256", "the digest of the first algorithm is used with the second")
nbug("C09-class", "C09", [(CB, "        self._session_type = session_type\n", "        self._session_type = session_type\n        BaseClient._cmd = session_type != SessionType.EventSession\n"), (CB, "        if not self.is_cmd_session() and not force:", "        if not self._cmd and not force:")], """
    c, t, p = await started(SessionType.EventSession)
    d, u, q = await started(SessionType.CommandSession)
    from pyown.exceptions import InvalidSession
    await arefused(c.send_message(parse_message("*1*1*11##")), InvalidSession)
    assert t.out == []
    """, "a command client made after an event client", "the event client sends commands")

# ---------------------------------------------------------------- time, and callbacks that do not end
nbug("C14-silent", "C14", [(IB, "        msg = self.create_status_message()\n        await self._send_message(msg)\n\n        while True:\n            resp = await self._read_message()\n", "        msg = self.create_status_message()\n        await self._send_message(msg)\n\n        while True:\n            try:\n                resp = await self._read_message()\n            except TimeoutError:\n                break\n")], """
    c, t, p = await started()
    from pyown.items.lighting import Light
    async def ask():
        return [m async for m in Light(c, "11").send_status_request()]
    await arefused(ask(), TimeoutError)
    """, "a gateway that falls silent before the ACK", "the request ends as if it had been acknowledged")
nbug("C12-resend", "C12", [(IB, "        msg = self.create_normal_message(what)\n        await self._send_message(msg)\n\n        resp = await self._read_message()\n", "        msg = self.create_normal_message(what)\n        await self._send_message(msg)\n\n        try:\n            resp = await self._read_message(3)\n        except TimeoutError:\n            await self._send_message(msg)\n            resp = await self._read_message()\n")], """
    c, t, p = await started()
    from pyown.items.automation import Automation
    async def gateway():
        await asyncio.sleep(4)
        p.data_received(b"*#*1##")
    g = asyncio.ensure_future(gateway())
    await Automation(c, "11").up()
    await g
    assert t.out == ["*2*1*11##"], t.out
    """, "a gateway that takes more than three seconds to answer", "the command is sent twice")
nbug("C18-await", "C18", [(CC, "self._loop.create_task(self._check_task_result(tasks))", "await self._check_task_result(tasks)")], """
    from pyown.items.lighting import Light
    c, t, p = await started(SessionType.EventSession)
    seen = []
    async def slow(item, status):
        seen.append(item.where.string)
        await asyncio.sleep(100)
    Light.on_status_change(slow)
    task = asyncio.ensure_future(c.loop())
    for a in ("11", "12"):
        p.data_received(f"*1*1*{a}##".encode())
        await asyncio.sleep(0.05)
    assert seen == ["11", "12"], seen
    task.cancel()
    """, "a callback that takes long", "the loop waits for it and later messages are not dispatched")
nbug("C14-many", "C14", [(IB, "        msg = self.create_status_message()\n        await self._send_message(msg)\n\n        while True:\n", "        msg = self.create_status_message()\n        await self._send_message(msg)\n\n        for _ in range(128):\n")], """
    c, t, p = await started()
    from pyown.items.lighting import Light
    p.data_received("".join(f"*1*1*{i}##" for i in range(200)).encode() + b"*#*1##")
    got = [str(m) async for m in Light(c, "0").send_status_request()]
    assert len(got) == 200, len(got)
    """, "more than 127 replies to one request", "the later replies are not yielded")
bug("C17-many", "C17", [(IB, "        return [asyncio.create_task(func(*args)) for func in funcs]", "        return [asyncio.create_task(func(*args)) for func in funcs[-8:]]")],
    """
    import asyncio
    from pyown.client import Client
    from pyown.items.automation import Automation
    from pyown.messages import parse_message
    seen = []
    async def main():
        def cb(i):
            async def f(*a):
                seen.append(i)
            return f
        for i in range(9):
            Automation.on_status_change(cb(i))
        item = Automation(Client("192.0.2.1", 20000, "1"), "11")
        for t in await Automation.call_callbacks(item, parse_message("*2*1*11##")):
            await t
    asyncio.run(main())
    assert seen == list(range(9)), seen
    """, "nine callbacks for one event", "the first one is not called")

# ---------------------------------------------------------------- after the connection, and states nobody looks at
nbug("C19-close", "C19", [(CB, "        self._protocol = None\n        self._transport = None\n\n    @abstractmethod", "        self._protocol, self._transport = None, None\n        for kept in (\"_items\", \"_messages\"):\n            getattr(self, kept, {}).clear()\n\n    @abstractmethod")], """
    c, t, p = await started()
    a = c.get_item(Who("1"), Where("11"), client=c)
    await c.close()
    assert c.get_item(Who("1"), Where("11"), client=c) is a
    """, "an item asked for before and after the client is closed", "two objects for one device")
nbug("C22-paused", "C22", [(CB, "        if self._transport is not None:\n            self._transport.close()\n", "        if self._transport is not None and not self._protocol._lock.locked():\n            self._transport.close()\n")], """
    c, t, p = await started(SessionType.EventSession)
    p.pause_writing()
    await c.close()
    assert t.closing
    """, "the client is closed while writing is paused", "the connection stays open")
nbug("C22-unready", "C22", [(CB, "        if self._transport is not None:\n            self._transport.close()\n", '        if self._transport is not None and getattr(self, "_ready", False):\n            self._transport.close()\n'), (CB, '        log.info("Client ready")\n', '        self._ready = True\n        log.info("Client ready")\n')], """
    c, t, box = client(SessionType.EventSession)
    task = asyncio.ensure_future(c.start())
    while "p" not in box:
        await asyncio.sleep(0)
    box["p"].data_received(b"*#*0##")
    await arefused(task)
    await c.close()
    assert t.closing
    """, "a handshake that fails before the client is closed", "the connection stays open")
nbug("C25-int", "C25", [(CB, "        async with asyncio.timeout(timeout):\n", "        async with asyncio.timeout(timeout if timeout is None else int(timeout)):\n")], """
    c, t, p = await started()
    task = asyncio.ensure_future(c.read_message(timeout=0.75))
    await asyncio.sleep(0.2)
    p.data_received(b"*1*1*11##")
    assert str(await task) == "*1*1*11##"
    """, "a limit of less than a second", "the read gives up at once")
nbug("C10-paused", "C10", [(PR, "        log.debug(\"Paused writing\")\n", "        log.debug(\"Paused writing, dropped %d characters\", len(self._buffer))\n        self._buffer = \"\"\n")], """
    c, t, p = await started()
    p.data_received(b"*1*1*1")
    p.pause_writing()
    p.resume_writing()
    p.data_received(b"1##")
    assert str(await c.read_message(timeout=1)) == "*1*1*11##"
    """, "writing is paused while half a frame has been received", "the frame is lost")
nbug("C12-client", "C12", [(IB, "        return await self._client.send_message(message)\n", "        if not hasattr(self, \"_sender\"):\n            self._sender = self._client.send_message\n        return await self._sender(message)\n")], """
    from pyown.items.lighting import Light
    c, t, p = await started()
    d, u, q = await started()
    i = Light(c, "11")
    p.data_received(b"*#*1##")
    await i.turn_on()
    i.client = d
    q.data_received(b"*#*1##")
    t.out.clear()
    await i.turn_off()
    assert u.out == ["*1*0*11##"] and t.out == [], (t.out, u.out)
    """, "an item given another client after its first command", "the command goes to the old gateway")
nbug("C18-again", "C18", [(CC, "        if client is None:\n            client = self\n", "        if getattr(self, \"_looping\", None) is transport:\n            return\n        self._looping = transport\n        client = self if client is None else client\n")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    await asyncio.sleep(0.01)
    task.cancel()
    await asyncio.gather(task, return_exceptions=True)
    task = asyncio.ensure_future(c.loop())
    await asyncio.sleep(0.01)
    assert not task.done()
    task.cancel()
    """, "the loop is cancelled and run again", "it returns at once")
nbug("C18-count", "C18", [(CC, "                log.warning(\"Received an unknown message: %s\", message)\n", "                self._unknown = getattr(self, \"_unknown\", 0) + 1\n                log.warning(\"Received an unknown message (%d): %s\", self._unknown, message)\n                if self._unknown > 1000:\n                    break\n")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    p.data_received(b"*99*1##" * 1500)
    await asyncio.sleep(0.05)
    assert not task.done()
    task.cancel()
    """, "more than a thousand unknown messages", "the loop ends")
nbug("C17-bound", "C17", [(LB, "        cls._event_callbacks.setdefault(LightEvents.STATUS_CHANGE, []).append(callback)\n", "        cls._event_callbacks.setdefault(LightEvents.STATUS_CHANGE, []).append(\n            getattr(callback, \"__func__\", callback)\n        )\n")], """
    from pyown.items.lighting import Light
    from pyown.messages import parse_message
    seen = []
    class Handler:
        async def handle(self, item, on):
            seen.append((self, on))
    h = Handler()
    Light.on_status_change(h.handle)
    c, t, p = await started()
    try:
        tasks = await Light.call_callbacks(Light(c, "11"), parse_message("*1*1*11##"))
        await asyncio.gather(*tasks)
    except TypeError:
        pass
    assert seen == [(h, True)], seen
    """, "a callback that is a method of an object", "it is called without its object")
nbug("C09-sticky", "C09", [(CB, "        await self._protocol.send_message(message)\n", "        if force and message.type == \"NORMAL\":\n            # the gateway was told that it is a command session\n            self._session_type = SessionType.CommandSession\n        protocol = self._protocol\n        await protocol.send_message(message)\n")], """
    c, t, p = await started(SessionType.EventSession)
    m = NormalMessage((Who.LIGHTING, What("1"), Where("11")))
    await c.send_message(m, force=True)
    t.out.clear()
    await arefused(c.send_message(m))
    assert t.out == []
    """, "a forced command before one that is not forced", "the second one is written on an event session")
nbug("C25-lost", "C25", [(CB, "            message = await self._protocol.receive_messages()\n", "            if self._on_connection_end.done():\n                raise ConnectionError(\"Connection lost\")\n            return await self._protocol.receive_messages()\n")], """
    c, t, p = await started()
    p.data_received(b"*1*1*11##")
    p.connection_lost(None)
    assert str(await c.read_message(timeout=1)) == "*1*1*11##"
    """, "a message received just before the connection is lost", "no read returns it")
nbug("C19-cap", "C19", [(CC, "            if factory is not None:\n", "            if factory is not None and len(self._items) > 4096:\n                return factory(client, where)\n            elif factory is not None:\n")], """
    c, t, p = await started()
    for i in range(5000):
        c.get_item(Who("1"), Where(str(i)), client=c)
    assert c.get_item(Who("1"), Where("4999"), client=c) is c.get_item(Who("1"), Where("4999"), client=c)
    """, "more than four thousand items", "the later ones are made anew each time")
nbug("C11-cancel", "C11", [(PR, "        while self._lock.locked():\n            await asyncio.sleep(delay)\n", "        try:\n            while self._lock.locked():\n                await asyncio.sleep(delay)\n        except asyncio.CancelledError:\n            # the data must not get lost\n            self._transport.write(data)\n            raise\n")], """
    c, t, p = await started()
    p.pause_writing()
    task = asyncio.ensure_future(c.send_message(NormalMessage((Who.LIGHTING, What("1"), Where("11"))), force=True))
    await asyncio.sleep(0.05)
    t.out.clear()
    task.cancel()
    await asyncio.gather(task, return_exceptions=True)
    assert t.out == [], t.out
    """, "a sender cancelled while writing is paused", "its frame is written to the full transport")
nbug("C11-after", "C11", [(PR, "        while self._lock.locked():\n            await asyncio.sleep(delay)\n", "        while self._lock.locked() and not self._on_connection_end.done():\n            await asyncio.sleep(delay)\n\n        if self._lock.locked():\n            return\n")], """
    c, t, p = await started()
    p.pause_writing()
    t.out.clear()
    task = asyncio.ensure_future(c.send_message(NormalMessage((Who.LIGHTING, What("1"), Where("11"))), force=True))
    await asyncio.sleep(0.05)
    p.connection_lost(None)
    await asyncio.sleep(0.3)
    if task.done() and task.exception() is None:
        assert t.out == ["*1*1*11##"], t.out
    task.cancel()
    """, "a connection lost while a sender waits", "the send completes without writing anything")
nbug("C17-frozen", "C17", [(LB, "                cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),\n", "                cls.__dict__.get(\"_frozen\")\n                or (setattr(cls, \"_frozen\", tuple(cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []))) or cls._frozen),\n")], """
    from pyown.items.lighting import Light
    from pyown.messages import parse_message
    seen = []
    async def one(item, on):
        seen.append(1)
    async def two(item, on):
        seen.append(2)
    c, t, p = await started()
    Light.on_status_change(one)
    await asyncio.gather(*await Light.call_callbacks(Light(c, "11"), parse_message("*1*1*11##")))
    Light.on_status_change(two)
    seen.clear()
    await asyncio.gather(*await Light.call_callbacks(Light(c, "11"), parse_message("*1*1*11##")))
    assert seen == [1, 2], seen
    """, "a callback registered after the first event of its kind", "it is never called")
nbug("C19-norm", "C19", [(CC, "        if (who, where) in self._items:\n            return self._items[(who, where)]", "        where = Where(where.string.rstrip(\"#\") or where.string)\n        item = self._items.get((who, where))\n        if item is not None:\n            return item")], """
    c, t, p = await started()
    assert str(c.get_item(Who("1"), Where("11#"), client=c).where) == "11#"
    """, "an address that ends with #", "the item has another address")
nbug("C25-none", "C25", [(CB, "        async with asyncio.timeout(timeout):\n", "        async with asyncio.timeout(timeout if timeout is not None or self.is_cmd_session() else 0.3):\n")], """
    c, t, p = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.read_message(timeout=None))
    await asyncio.sleep(1)
    assert not task.done()
    p.data_received(b"*1*1*11##")
    assert str(await task) == "*1*1*11##"
    """, "a read without limit on an event session", "it gives up")
nbug("C15-micro", "C15", [(GW, "        s = Value(f\"{bus_time.second:02d}\")\n\n        await self.send_dimension_writing(WhatGateway.TIME", "        s = Value(f\"{bus_time.second + round(bus_time.microsecond / 1e6):02d}\")\n\n        await self.send_dimension_writing(WhatGateway.TIME")], """
    from pyown.items.gateway import Gateway
    import datetime
    c, t, p = await started()
    t.out.clear()
    z = datetime.timezone(datetime.timedelta(hours=1))
    task = asyncio.ensure_future(Gateway(c, "").set_time(datetime.time(1, 2, 59, 700000, tzinfo=z)))
    await asyncio.sleep(0.1)
    assert t.out == ["*#13**#0*01*02*59*001##"], t.out
    task.cancel()
    """, "a time in the second half of the last second of a minute", "second 60 is sent")
bug("C07-latin", "C07", [(H, '    kab = hash_function(password.encode()).hexdigest()\n    hmac_message = f"{server_key}{client_key}{kab}"', '    kab = hash_function(password.encode("ascii", "ignore")).hexdigest()\n    hmac_message = f"{server_key}{client_key}{kab}"')],
    """
    import hashlib, hmac
    from pyown.auth.enum import AuthAlgorithm
    from pyown.auth.hmac import server_hmac
    pw = "p\\u00e9rgola"
    kab = hashlib.sha256(pw.encode()).hexdigest()
    want = hmac.new(b"12ab", ("12ab" + "34cd" + kab).encode(), "sha256").digest()
    assert server_hmac("12ab", "34cd", pw, AuthAlgorithm.SHA256) == want
    """, "a password with a letter that is not ASCII", "the confirmation is that of another password")
bug("C03-many", "C03", [(MB, "        .split(BaseMessage.separator)\n", "        .split(BaseMessage.separator, 127)\n")],
    """
    from pyown.messages import parse_message
    t = "*#13**0" + "*1" * 200 + "##"
    assert len(parse_message(t).values) == 200
    """, "a frame of more than 128 fields", "it is refused")
nbug("C16-year", "C16", [(EN, "datetime(int(y), int(m)", "datetime(2000 + int(y) % 100, int(m)")], """
    from pyown.items.energy import EnergyManagement
    c, t, p = await started()
    p.data_received(b"*#18*51*72#1*10*31*12*1999*23*59##*#*1##")
    at, energy = await EnergyManagement(c, "51").get_totalizers(1)
    assert at.year == 1999, at
    """, "a reset in the last century", "the year is a hundred years later")
nbug("C14-short", "C14", [(IB, "            if not isinstance(resp, NormalMessage):\n                raise ResponseError(f\"Received {resp} instead of a normal message\")\n\n            yield resp\n", "            if isinstance(resp, NormalMessage):\n                yield resp\n            else:\n                raise ResponseError(f\"Received {resp} instead of a normal message\")\n\n            if self._client._protocol is None:\n                break\n")], """
    from pyown.items.lighting import Light
    c, t, p = await started()
    p.data_received(b"*1*1*11##")
    got = []
    try:
        async for m in Light(c, "11").send_status_request():
            got.append(str(m))
            await c.close()
    except Exception as e:
        assert got == ["*1*1*11##"]
    else:
        raise AssertionError("the request ended without an ACK")
    """, "a client closed while the replies are read", "the request ends as if complete")
nbug("C14-nacks", "C14", [(IB, "        msg = self.create_status_message()\n        await self._send_message(msg)\n\n        while True:\n            resp = await self._read_message()\n            self._check_nack(resp)\n", "        if getattr(self, \"_nacks\", 0) >= 2:\n            raise ResponseError(\"The item does not support status requests\")\n        await self._send_message(self.create_status_message())\n\n        while True:\n            resp = await self._read_message()\n            if resp.type == MessageType.NACK:\n                self._nacks = getattr(self, \"_nacks\", 0) + 1\n            self._check_nack(resp)\n")], """
    from pyown.items.lighting import Light
    from pyown.exceptions import ResponseError
    c, t, p = await started()
    item = Light(c, "11")
    for i in range(2):
        p.data_received(b"*#*0##")
        try:
            async for m in item.send_status_request():
                pass
        except ResponseError:
            pass
    t.out.clear()
    p.data_received(b"*1*1*11##*#*1##")
    assert [str(m) async for m in item.send_status_request()] == ["*1*1*11##"]
    assert t.out == ["*#1*11##"]
    """, "a request after two refused ones of the same item", "it is given up without sending anything")
nbug("C13-again", "C13", [(LD, "        if temperature < 1 or temperature > 65534:\n            raise ValueError(\"Invalid temperature value\")\n", "        valid = 1 <= temperature <= 65534\n        if not valid and temperature != getattr(self, \"_refused\", None):\n            self._refused = temperature\n            raise ValueError(\"Invalid temperature value\")\n")], """
    from pyown.items.lighting import Dimmer
    c, t, p = await started()
    item = Dimmer(c, "11")
    t.out.clear()
    for i in range(2):
        p.data_received(b"*#*1##")
        await arefused(item.set_white_temperature(0))
        assert t.out == [], t.out
    """, "the same wrong temperature set twice", "the second time it is sent")
bug("C20-cache", "C20", [(TW, '        elif self.tag == "" and len(self.parameters) == 1:\n            return WhereType.GROUP\n', '        elif self.tag == "" and (len(self.parameters) == 1 or hasattr(self, "_group")):\n            return WhereType.GROUP\n'), (TW, '        elif self.tag == "" and len(self.parameters) == 2:\n', '        elif self.tag == "" and len(self.parameters) == 2 and not setattr(self, "_group", False):\n')],
    """
    from pyown.tags import Where
    from pyown.tags.where import WhereType
    w = Where("#1#2")
    assert w.type is WhereType.LOCAL_BUS
    assert w.type is WhereType.LOCAL_BUS
    """, "the type of a local bus address read twice", "the second time it is a group")
