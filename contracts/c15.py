"""C15: gateway data (WHO 13) is decoded from and encoded to the documented positions."""
import datetime
import ipaddress

from pyown.items.gateway import Gateway, GatewayModel

from pyvc.api_common import harness

from . import world
from .c14 import EVERY

HOUR = "([01][0-9]|2[0-3])"
MIN = "[0-5][0-9]"
DAY = "(0[1-9]|[12][0-9]|3[01])"
MONTH = "(0[1-9]|1[0-2])"
YEAR = "[1-9][0-9]{3}"
WDAY = "0[0-6]"
OCTET = "(0|00|000|0?[1-9]|0?0[1-9]|0?[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])"
OCTETS = ["0", "1", "9", "10", "15", "16", "127", "168", "192", "255", "254", "010", "001"]
NUM = "[0-9]{1,5}"


async def _gateway(vc):
    client, gw = await world.connect(vc)
    return Gateway(client), gw


async def _get(vc, method, dim, values):
    """The outcome of a request answered with the given values, perhaps after the same request was answered otherwise."""
    item, gw = await _gateway(vc)
    row = vc.choose("earlier", [None] + EVERY[method][2][:1 if vc.symbolic else 3])
    if row is not None:
        gw.reset(lambda i, d: ["*#13**" + dim + "*" + row + "##", world.ACK])
        e = await vc.aoutcome(getattr(item, method)())
        vc.check(e.ok, "the earlier reply is decoded")
        was = None if vc.symbolic else repr(e.value)
    t = "*#13**" + dim
    for v in values:
        t = t + "*" + v
    gw.reset(lambda i, d: [t + "##", world.ACK])
    o = await vc.aoutcome(getattr(item, method)())
    vc.check(gw.sent == ["*#13**" + dim + "##"], "the documented dimension is requested")
    if row is not None and not vc.symbolic:
        vc.check(repr(e.value) == was, "what was returned before is unchanged")
    return o


def _hms(vc):
    return (vc.text("h", HOUR, ["00", "23", "09", "12"]), vc.text("m", MIN, ["00", "59", "07"]), vc.text("s", MIN, ["00", "59", "08"]))


def _tz(vc):
    """A timezone field and the offset it means in seconds."""
    k = vc.choose("tz", ["plus", "minus", "none"])
    if k == "none":
        return "", 0
    z = vc.text("tzh", HOUR, ["00", "01", "02", "10", "12", "05"])
    return ("0" if k == "plus" else "1") + z, int(z) * 3600 if k == "plus" else -(int(z) * 3600)


def _dmy(vc):
    d, m, y = vc.text("d", DAY, ["01", "28", "31", "09"]), vc.text("mo", MONTH, ["01", "12", "02", "08"]), vc.text("y", YEAR, ["2024", "1999", "2000"])
    o = vc.outcome(datetime.date, int(y), int(m), int(d))
    vc.assume(o.ok)
    return d, m, y


def _seconds(t):
    """The UTC offset of a time or date-time."""
    u = t.utcoffset()
    return u.days * 86400 + u.seconds


def _is_time(vc, t, h, m, s, off):
    vc.check(t.hour == h, "the hour is the first value")
    vc.check(t.minute == m, "the minute is the second value")
    vc.check(t.second == s, "the second is the third value")
    vc.check(t.tzinfo is not None and _seconds(t) == off, "the offset is the sign and hours of the fourth value")


def _is_date(vc, x, y, m, d):
    vc.check(x.day == d, "the day")
    vc.check(x.month == m, "the month")
    vc.check(x.year == y, "the year")


@harness("C15", exact=True)
def get_time(vc):
    """Time: hour, minute, second, timezone."""
    h, m, s = _hms(vc)
    z, off = _tz(vc)

    async def main():
        o = await _get(vc, "get_time", "0", [h, m, s, z])
        vc.check(o.ok, "the reply is decoded")
        _is_time(vc, o.value, int(h), int(m), int(s), off)

    vc.run(main())


@harness("C15", exact=True)
def get_date(vc):
    """Date: weekday, day, month, year."""
    d, m, y = _dmy(vc)
    w = vc.text("w", WDAY, ["00", "06"])

    async def main():
        o = await _get(vc, "get_date", "1", [w, d, m, y])
        vc.check(o.ok, "the reply is decoded")
        _is_date(vc, o.value, int(y), int(m), int(d))

    vc.run(main())


@harness("C15", exact=True)
def get_datetime(vc):
    """Date and time: hour, minute, second, timezone, weekday, day, month, year."""
    h, m, s = _hms(vc)
    z, off = _tz(vc)
    d, mo, y = _dmy(vc)
    w = vc.text("w", WDAY, ["00", "06"])

    async def main():
        o = await _get(vc, "get_datetime", "22", [h, m, s, z, w, d, mo, y])
        vc.check(o.ok, "the reply is decoded")
        _is_time(vc, o.value, int(h), int(m), int(s), off)
        _is_date(vc, o.value, int(y), int(mo), int(d))

    vc.run(main())


@harness("C15", exact=True)
def addresses(vc):
    """IP address and netmask: four octets in order."""
    which = vc.choose("what", ["get_ip", "get_netmask"])
    v = [vc.text(f"o{i}", OCTET, OCTETS) for i in range(4)]

    async def main():
        o = await _get(vc, which, "10" if which == "get_ip" else "11", v)
        vc.check(o.ok, "the reply is decoded")
        n = vc.num_text
        want = n(int(v[0])) + "." + n(int(v[1])) + "." + n(int(v[2])) + "." + n(int(v[3]))
        vc.check(str(o.value) == want, "the address has the octets in order")
        if which == "get_ip" and not vc.symbolic:
            vc.check(o.value == ipaddress.IPv4Address(want), "the value is an IPv4 address")

    vc.run(main())


@harness("C15", exact=True)
def netinfo(vc):
    """The network is that of the IP address and the netmask."""
    v = [vc.text(f"o{i}", OCTET, OCTETS) for i in range(4)]
    bits = vc.choose("bits", list(range(33)))
    full = ((1 << bits) - 1) << (32 - bits)
    mask = [str(full >> s & 255) for s in (24, 16, 8, 0)]

    async def main():
        item, gw = await _gateway(vc)

        def answer(i, d):
            if d.decode("ascii") == "*#13**10##":
                return ["*#13**10*" + "*".join(v) + "##", world.ACK]
            return ["*#13**11*" + "*".join(mask) + "##", world.ACK]

        gw.reset(answer)
        o = await vc.aoutcome(item.get_netinfo())
        vc.check(o.ok, "the replies are decoded")
        n = vc.num_text
        ip = n(int(v[0])) + "." + n(int(v[1])) + "." + n(int(v[2])) + "." + n(int(v[3]))
        vc.check(o.value == ipaddress.IPv4Network(ip + "/" + ".".join(mask), strict=False), "the network of address and mask")
        vc.check(sorted(gw.sent) == ["*#13**10##", "*#13**11##"], "address and mask are requested once each")

    vc.run(main())


HEX = "0123456789ABCDEF"


@harness("C15", exact=True)
def macaddress(vc):
    """MAC address: six octets in order, two hexadecimal digits each."""
    k = vc.choose("octet", [0, 1, 2, 3, 4, 5])
    hi, lo = vc.choose("hi", list(range(16))), vc.choose("lo", list(range(16)))
    x = hi * 16 + lo
    others = [vc.text(f"o{i}", "(0|3|10|17|170|255)", ["0", "3", "10", "17", "170", "255"]) for i in range(6)] if not vc.symbolic else ["0", "3", "10", "17", "170", "255"]
    names = {"0": "00", "3": "03", "10": "0A", "17": "11", "170": "AA", "255": "FF"}
    values = [str(x) if i == k else o for i, o in enumerate(others)]
    want = [HEX[hi] + HEX[lo] if i == k else names[o] for i, o in enumerate(others)]

    async def main():
        o = await _get(vc, "get_macaddress", "12", values)
        vc.check(o.ok, "the reply is decoded")
        vc.check(o.value.upper() == ":".join(want), "the octets in order, two digits each")

    vc.run(main())


KNOWN = ["2", "4", "6", "7", "11", "12", "23", "200"]


@harness("C15", exact=True)
def model(vc):
    """Model: the known code, otherwise the generic model."""
    t = vc.choose("code", KNOWN + ["0", "other"])
    if t == "other":
        t = vc.text("other", NUM, ["1", "3", "5", "44", "02", "201", "22"])
        vc.assume(t not in KNOWN)
    more = vc.choose("more", [0, 1])

    async def main():
        o = await _get(vc, "get_model", "15", [t] + ["4"] * more)
        vc.check(o.ok, "the reply is decoded")
        vc.check(o.value.value == (t if t in KNOWN else "0"), "the model of the first value")
        vc.check(isinstance(o.value, GatewayModel), "a gateway model")

    vc.run(main())


@harness("C15", exact=True)
def versions(vc):
    """Firmware, kernel and distribution: version.release.build."""
    which = vc.choose("what", ["get_firmware", "get_kernel_version", "get_distribution_version"])
    v = [vc.text(f"v{i}", NUM, ["0", "1", "2", "34", "01"]) for i in range(3)]
    dim = {"get_firmware": "16", "get_kernel_version": "23", "get_distribution_version": "24"}[which]

    async def main():
        o = await _get(vc, which, dim, v)
        vc.check(o.ok, "the reply is decoded")
        vc.check(o.value == v[0] + "." + v[1] + "." + v[2], "version, release and build in order")

    vc.run(main())


@harness("C15", exact=True)
def uptime(vc):
    """Uptime: days, hours, minutes, seconds."""
    d, h, m, s = [vc.text(n, "[0-9]{1,5}", ["0", "1", "23", "24", "59", "60", "61", "400", "99999"]) for n in "dhms"]

    async def main():
        o = await _get(vc, "get_uptime", "19", [d, h, m, s])
        vc.check(o.ok, "the reply is decoded")
        u = o.value
        vc.check(u.days * 86400 + u.seconds == int(d) * 86400 + int(h) * 3600 + int(m) * 60 + int(s), "days, hours, minutes and seconds")

    vc.run(main())


# ---------------------------------------------------------------------------- setting


class Zone(datetime.tzinfo):
    """A time zone of the caller's own, with a name and a part of the offset called summer time."""

    def __init__(self, hours):
        self.hours = hours

    def utcoffset(self, when):
        return datetime.timedelta(hours=self.hours)

    def dst(self, when):
        return datetime.timedelta(hours=1)

    def tzname(self, when):
        return "UTC+09:00"


def _moment(vc, what):
    """The moment to set: (object, fields)."""
    f = {}
    k = 0
    if what != "date":
        f = dict(hour=vc.int("hour", 0, 23), minute=vc.int("minute", 0, 59), second=vc.int("second", 0, 59))
        k = vc.int("offset", -23, 23, [0, 1, -1, 2, -2, 10, -10, -12, 14])
        f["tzinfo"] = datetime.timezone(datetime.timedelta(hours=k))
        if not vc.symbolic:  # what has no place in the frame changes nothing
            f["microsecond"] = vc.choose("microsecond", [0, 0, 1, 499999, 500000, 999999])
            f["fold"] = vc.choose("fold", [0, 0, 1])
            zone = vc.choose("zone", ["plain", "named", "class"])
            if zone != "plain":
                f["tzinfo"] = (datetime.timezone(datetime.timedelta(hours=k), "CEST") if zone == "named" else Zone(k))
        if what == "time":
            return datetime.time(**f), f, k
    f.update(year=vc.int("year", 1, 9999, [2024, 1999, 2000, 1, 99, 987]), month=vc.int("month", 1, 12), day=vc.int("day", 1, 31))
    o = vc.outcome(datetime.date if what == "date" else datetime.datetime, **f)
    vc.assume(o.ok)
    return o.value, f, k


def _date_values(vc, x, f):
    n = vc.num_text
    return [n(x.isoweekday() % 7, 2), n(f["day"], 2), n(f["month"], 2), n(f["year"])]


def _time_values(vc, f, k):
    n = vc.num_text
    return [n(f["hour"], 2), n(f["minute"], 2), n(f["second"], 2), "0" + n(k, 2) if k >= 0 else "1" + n(-k, 2)]


DIM = {"time": "0", "date": "1", "datetime": "22"}


@harness("C15", exact=True, params=["time", "date", "datetime"])
def set_clock(vc, what):
    """Setting the clock sends the documented values, and they decode back to what was set."""
    x, f, k = _moment(vc, what)

    async def main():
        item, gw = await _gateway(vc)
        for _ in range(1 if vc.symbolic else vc.choose("times", [1, 1, 2, 6])):
            gw.reset(lambda i, d: [world.ACK])
            o = await vc.aoutcome(getattr(item, "set_" + what)(x))
        vc.check(o.ok, "the moment is accepted")
        values = {"time": lambda: _time_values(vc, f, k), "date": lambda: _date_values(vc, x, f),
                  "datetime": lambda: _time_values(vc, f, k) + _date_values(vc, x, f)}[what]()
        t = ""
        for v in values:
            t = t + "*" + v
        vc.check(len(gw.sent) == 1, "one frame is sent")
        head, sent = "*#13**#" + DIM[what], gw.sent[0]
        if what == "time" or f["year"] >= 1000:  # years are documented with four digits
            vc.check(sent == head + t + "##", "the documented values are sent")
        vc.check(sent.startswith(head + "*") and sent.endswith("##"), "the clock's dimension is written")
        # what was set decodes back
        gw.reset(lambda i, d: ["*#13**" + DIM[what] + sent.removeprefix(head), world.ACK])
        o = await vc.aoutcome(getattr(item, "get_" + what)())
        vc.check(o.ok, "the reply is decoded")
        if what != "date":
            _is_time(vc, o.value, f["hour"], f["minute"], f["second"], k * 3600)
        if what != "time":
            _is_date(vc, o.value, f["year"], f["month"], f["day"])

    vc.run(main())
