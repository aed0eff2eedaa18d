"""C14: requests yield exactly the replies before the ACK.

sequences: up to three messages of every kind, then something left over (exact, both modes).
any_number: the reading loop is cut, so the replies may be any number; one round yields exactly the message it read."""
from pyown.exceptions import ResponseError
from pyown.items.automation import Automation
from pyown.items.camera import Camera
from pyown.items.energy import EnergyManagement, StopGo
from pyown.items.gateway import Gateway
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Dimension

from pyvc.api_common import harness

from . import world

ITEMS = {"light": (Light, "1", world.TAG), "dimmer": (Dimmer, "1", world.TAG), "automation": (Automation, "2", world.TAG),
         "camera": (Camera, "7", world.TAG), "energy": (EnergyManagement, "18", "5[0-9]+"), "stop": (StopGo, "18", "1[0-9]+"),
         "gateway": (Gateway, "13", "")}
NUM = "[0-9]{1,9}"
KINDS = ["normal", "response", "response2", "nack", "status", "request", "writing", "generic", "single"]


def _frame(vc, name, k):
    if k == "nack":
        return world.NACK
    if k == "ack":
        return world.ACK
    a = vc.text(name, NUM, ["1", "0", "12", "113", "51"])
    return {"normal": "*1*1*" + a + "##", "response": "*#18*51*113*" + a + "##", "response2": "*#1*12*1*" + a + "*0##",
            "status": "*#2*" + a + "##", "request": "*#13**" + a + "##", "writing": "*#1*12*#1*" + a + "##",
            "generic": "*99*" + a + "##", "single": "*" + a + "##"}[k]


async def _item(vc, names=None):
    client, gw = await world.connect(vc)
    cls, who, lang = ITEMS[vc.choose("item", list(names or ITEMS))]
    where = vc.text("where", lang, world.TAGS) if lang else ""
    return cls(client, where), who, where, client, gw


def _request(vc, item, who, where, which):
    """(request iterator factory, frame, kinds of expected replies)"""
    if which == "status":
        return item.send_status_request, "*#" + who + "*" + where + "##", ("normal",)
    dim = vc.text("dim", "[0-9]{1,4}(#[0-9]{1,2})*", ["1", "2", "12", "113", "52#21#3", "72#1"])
    as_text = vc.choose("as text", [True, False])
    return (lambda: item.send_dimension_request(dim if as_text else Dimension(dim)),
            "*#" + who + "*" + where + "*" + dim + "##", ("response", "response2"))


async def _left(vc, client):
    o = await vc.aoutcome(client.read_message(1))
    return str(o.value) if o.ok else None


@harness("C14", exact=True, params=["status", "dimension"], weight=2)
def sequences(vc, which):
    """Up to two messages of any kind, then ACK or silence, then something left over."""
    vc.expect_cover("ended", "error")
    n = vc.choose("count", [0, 1, 2, 3])

    async def main():
        item, who, where, client, gw = await _item(vc, ["light"] if n == 3 else None)
        req, text, good = _request(vc, item, who, where, which)
        kinds = [vc.choose(f"kind{i}", list(good) if i < n - 1 else KINDS) for i in range(n)]
        texts = [_frame(vc, f"tag{i}", k) for i, k in enumerate(kinds)]
        left = "*1*0*11##"
        gw.reset(lambda i, d: texts + [world.ACK, left])
        got = []

        async def consume():
            async for m in req():
                got.append(m)

        o = await vc.aoutcome(consume())
        vc.check(gw.sent == [text], "exactly the request frame is sent")
        k = 0
        for x in kinds:
            if x not in good:
                break
            k += 1
        vc.check(len(got) >= k, "every reply is yielded")
        vc.check(len(got) <= k, "only replies are yielded, once each")
        for m, t in zip(got, texts):
            vc.check(str(m) == t, "the replies are yielded in order")
        if k == n:
            vc.cover("ended")
            vc.check(o.ok, "the request ends at the ACK")
            vc.check(await _left(vc, client) == left, "nothing after the ACK is consumed")
        else:
            vc.cover("error")
            vc.check(o.raised(ResponseError), "a refused or unexpected message raises the response error")

    vc.run(main())


@harness("C14", exact=True, params=["status", "dimension"])
def cut_short(vc, which):
    """The connection goes away before the ACK: the replies so far were yielded, and the request does not end as if complete."""
    n = vc.choose("count", [1, 2])
    at = vc.choose("ends at", list(range(1, n + 1)))
    how = vc.choose("how", ["closed", "lost", "error"])

    async def main():
        item, who, where, client, gw = await _item(vc, ["light", "gateway"])
        req, text, good = _request(vc, item, who, where, which)
        texts = [_frame(vc, f"tag{i}", vc.choose(f"kind{i}", list(good))) for i in range(n)]
        gw.reset(lambda i, d: texts)
        got = []

        async def consume():
            async for m in req():
                got.append(m)
                if len(got) == at:
                    if how == "closed":
                        await client.close()
                    else:
                        gw.protocol.connection_lost(None if how == "lost" else OSError("reset"))

        o = await vc.aoutcome(consume())
        vc.check(gw.sent == [text], "exactly the request frame is sent")
        vc.check(at <= len(got) <= n, "the replies are yielded")
        for m, t in zip(got, texts):
            vc.check(str(m) == t, "the replies are yielded in order")
        vc.check(not o.ok, "a request without its ACK does not end normally")

    vc.run(main())


@harness("C14", only="conc", params=["status", "dimension"])
def one_after_another(vc, which):
    """Bounded companion: several requests of the same item, some refused; each is answered by what follows it."""
    async def main():
        item, who, where, client, gw = await _item(vc)
        req, text, good = _request(vc, item, who, where, which)
        for i in range(vc.choose("requests", [2, 3, 5, 12])):
            n = vc.choose(f"count{i}", [0, 1, 2])
            texts = [_frame(vc, f"tag{i}.{j}", vc.choose(f"kind{i}.{j}", list(good))) for j in range(n)]
            end = vc.choose(f"end{i}", ["ack", "nack", "generic"])
            gw.reset(lambda i, d: texts + [_frame(vc, "last", end)])
            got = []

            async def consume():
                async for m in req():
                    got.append(m)

            o = await vc.aoutcome(consume())
            vc.check(gw.sent == [text], "exactly the request frame is sent")
            vc.check([str(m) for m in got] == texts, "exactly the replies are yielded, in order")
            if end == "ack":
                vc.check(o.ok, "the request ends at the ACK")
            else:
                vc.check(o.raised(ResponseError), "a refused or unexpected message raises the response error")

    vc.run(main())


@harness("C14", only="sym", params=["status", "dimension"])
def any_number(vc, which):
    """After any number of replies: the next message is yielded, ends the request or raises the response error."""
    vc.expect_cover("round", "ended", "error")

    async def main():
        item, who, where, client, gw = await _item(vc)
        req, text, good = _request(vc, item, who, where, which)
        kind = vc.choose("kind", ["ack"] + KINDS)
        here = _frame(vc, "tag", kind)
        log = []
        gw.reset(None)

        def empty(q):
            log.append("read")
            gw.say(here)

        vc.env.on_empty = empty

        def permit(loop, x):
            return x is log

        def back(loop):
            vc.check(kind in good, "only a reply lets the request go on")
            vc.check(log == ["read", "yield"], "one message is read and yielded once")
            vc.cover("round")

        vc.ctx.cut_while = ("",)
        vc.ctx.on_back, vc.ctx.frame_ok = back, permit

        async def consume():
            async for m in req():
                log.append("yield")
                vc.check(str(m) == here, "the yielded message is the one that arrived")

        o = await vc.aoutcome(consume())
        vc.check(gw.sent == [text], "exactly the request frame is sent")
        vc.check(log == ["read"], "the last message is not yielded and nothing more is read")
        if kind == "ack":
            vc.cover("ended")
            vc.check(o.ok, "the request ends at the ACK")
        else:
            vc.cover("error")
            vc.check(kind not in good, "a reply does not end the request")
            vc.check(o.raised(ResponseError), "a refused or unexpected message raises the response error")

    vc.run(main())


@harness("C14", exact=True, params=["status", "dimension"])
def slow(vc, which):
    """Replies that take their time are yielded as well; a gateway that falls silent does not end a request."""
    n = vc.choose("count", [0, 1, 2])
    end = vc.choose("end", ["ack", "never", "never"])
    pauses = [vc.choose(f"pause{i}", [0, 2, 4]) for i in range(n + 1)]

    async def main():
        item, who, where, client, gw = await _item(vc, ["light", "energy", "gateway"])
        req, text, good = _request(vc, item, who, where, which)
        texts = [_frame(vc, f"tag{i}", good[i % len(good)]) for i in range(n)]
        gw.reset()
        says = texts + ([world.ACK] if end == "ack" else [])
        world.later(vc, gw, pauses, says)
        got = []

        async def consume():
            async for m in req():
                got.append(str(m))

        o = await vc.aoutcome(consume())
        vc.check(gw.sent == [text], "exactly the request frame is sent, once")
        vc.check(got == texts, "every reply is yielded, in order")
        vc.check(o.ok if end == "ack" else not o.ok, "the request ends at the ACK, and only there")

    vc.run(main())


@harness("C14", exact=True, params=["firmware", "day"])
def single_slow(vc, which):
    """A single-value request waits for its reply and its ACK, asks once and makes nothing up."""
    end = vc.choose("end", ["ack", "empty", "never"])
    pauses = [vc.choose(f"pause{i}", [0, 2, 4]) for i in range(2)]

    async def main():
        item, who, where, client, gw = await _item(vc, [SINGLE[which]])
        call, dim, first, want = _single(vc, item, which)
        head = "*#" + who + "*" + where + "*" + dim
        gw.reset()
        world.later(vc, gw, pauses, {"ack": [head + first + "##", world.ACK], "empty": [world.ACK], "never": []}[end])
        o = await vc.aoutcome(call())
        vc.check(gw.sent == [head + "##"], "exactly the request frame is sent, once")
        if end == "ack":
            vc.check(o.ok and o.value == want, "the value is that of the first reply")
        elif end == "empty":
            vc.check(o.raised(ResponseError), "no data raises the response error")
        else:
            vc.check(not o.ok, "without any answer there is no value")

    vc.run(main())


def _single(vc, item, which):
    """(call, dimension text, first reply text, expected value)"""
    a, b, c = (vc.text(f"v{i}", "[0-9]{1,3}", ["0", "1", "21", "255"]) for i in range(3))
    if which == "firmware":
        return item.get_firmware, "16", "*" + a + "*" + b + "*" + c, a + "." + b + "." + c
    if which == "kernel":
        return item.get_kernel_version, "23", "*" + a + "*" + b + "*" + c, a + "." + b + "." + c
    if which == "differential":
        return item.get_differential_current_level, "73", "*" + a, int(a)
    return item.get_partial_totalizer_current_day, "54", "*" + a, int(a)


SINGLE = {"firmware": "gateway", "kernel": "gateway", "differential": "energy", "day": "energy"}


@harness("C14", exact=True)
def single(vc):
    """A single-value request returns the first of its replies, and raises the response error when there is none."""
    which = vc.choose("request", list(SINGLE))
    n = vc.choose("replies", [0, 1, 2])
    end = vc.choose("end", ["ack", "nack", "normal", "generic"])

    async def main():
        item, who, where, client, gw = await _item(vc, [SINGLE[which]])
        call, dim, first, want = _single(vc, item, which)
        head = "*#" + who + "*" + where + "*" + dim
        other = head + "*" + vc.text("other", "[0-9]{1,3}", ["9", "77"]) + "*7*7*7##"
        last = {"ack": world.ACK, "nack": world.NACK, "normal": "*1*1*11##", "generic": "*99*1##"}[end]
        left = "*1*0*11##"
        gw.reset(lambda i, d: [head + first + "##", other][:n] + [last, left])
        o = await vc.aoutcome(call())
        vc.check(gw.sent == [head + "##"], "exactly the request frame is sent")
        if n and end == "ack":
            vc.check(o.ok, "the request returns")
            vc.check(o.value == want, "the value is that of the first reply")
        else:
            vc.check(o.raised(ResponseError), "no data or a refusal raises the response error")
        if end == "ack":
            vc.check(await _left(vc, client) == left, "everything up to the ACK is consumed, and nothing more")

    vc.run(main())


EVERY = {
    "get_time": ("gateway", "0", ["12*30*05*001", "23*59*58*110", "00*01*02*"]),
    "get_date": ("gateway", "1", ["00*31*12*2023", "06*01*02*1999"]),
    "get_datetime": ("gateway", "22", ["12*30*05*001*00*31*12*2023", "23*59*58*110*06*01*02*1999"]),
    "get_ip": ("gateway", "10", ["192*168*1*35", "10*0*0*1"]),
    "get_netmask": ("gateway", "11", ["255*255*255*0", "255*0*0*0"]),
    "get_macaddress": ("gateway", "12", ["0*3*80*1*171*255", "16*1*2*3*4*5"]),
    "get_model": ("gateway", "15", ["2", "200", "55"]),
    "get_firmware": ("gateway", "16", ["1*2*3", "3*0*12"]),
    "get_uptime": ("gateway", "19", ["1*2*3*4", "0*23*59*59"]),
    "get_kernel_version": ("gateway", "23", ["2*6*18", "4*0*1"]),
    "get_distribution_version": ("gateway", "24", ["1*0*9", "2*11*7"]),
    "get_active_power": ("energy", "113", ["0", "1250"]),
    "get_energy_unit_totalizer": ("energy", "51", ["7", "123456"]),
    "get_partial_totalizer_current_month": ("energy", "53", ["7", "123456"]),
    "get_partial_totalizer_current_day": ("energy", "54", ["7", "123456"]),
    "get_differential_current_level": ("energy", "73", ["1", "3"]),
    "get_energy_unit_per_month": ("energy", "52#21#3", ["7", "123456"]),
    "get_totalizers": ("energy", "72#1", ["100*1*2*2020*3*4", "5*31*12*2023*23*59"]),
    "get_actuators_info": ("energy", "71", ["0*1*0*1*0*1", "1*0*1*0*1*2"]),
}
ARGS = {"get_energy_unit_per_month": (3, 21), "get_totalizers": (1,)}


@harness("C14", exact=True, params=list(EVERY))
def every_single(vc, method):
    """Every single-value request returns what it returns when only the first reply arrives, and asks once."""
    kind, dim, rows = EVERY[method]
    n = vc.choose("replies", [0, 1, 2] if vc.symbolic else [0, 1, 2, 3])
    end = vc.choose("end", ["ack", "nack", "normal"])

    async def main():
        item, who, where, client, gw = await _item(vc, [kind])
        texts = []
        for i in range(n):
            of = vc.choose(f"of{i}", ["itself", "other", "parameter"])
            at = where if of != "other" else vc.text(f"at{i}", world.TAG, world.TAGS)
            d = dim if of != "parameter" else dim + "#" + vc.text(f"par{i}", "[0-9]{1,2}", ["0", "1", "12"])
            texts.append("*#" + who + "*" + at + "*" + d + "*" + (vc.choose(f"row{i}", rows) if i == 0 or not vc.symbolic else rows[1]) + "##")
        last = {"ack": world.ACK, "nack": world.NACK, "normal": "*1*1*11##"}[end]
        left = "*1*0*11##"
        call = getattr(item, method)
        args = ARGS.get(method, ())
        if n:
            gw.reset(lambda i, d: [texts[0], world.ACK])
            want = await vc.aoutcome(call(*args))
            vc.check(want.ok, "a reply is decoded")
        gw.reset(lambda i, d: texts + [last, left] if i == 0 else [world.ACK])
        o = await vc.aoutcome(call(*args))
        vc.check(gw.sent == ["*#" + who + "*" + where + "*" + dim + "##"], "exactly the request frame is sent")
        if n and end == "ack":
            vc.check(o.ok and o.value == want.value, "the value is that of the first reply")
        else:
            vc.check(o.raised(ResponseError), "no data or a refusal raises the response error")
        if end == "ack":
            vc.check(await _left(vc, client) == left, "everything up to the ACK is consumed, and nothing more")

    vc.run(main())


@harness("C14", only="sym")
def single_any(vc):
    """However many replies arrive, the value is that of the first one."""
    which = vc.choose("request", list(SINGLE))
    vc.expect_cover("returned")

    async def main():
        item, who, where, client, gw = await _item(vc, [SINGLE[which]])
        call, dim, first, want = _single(vc, item, which)
        head = "*#" + who + "*" + where + "*" + dim
        texts = [head + first + "##", head + "*" + vc.text("other", "[0-9]{1,3}") + "*7*7*7##", world.ACK]
        reads = []
        gw.reset(None)

        def empty(q):
            gw.say(texts[min(len(reads), 1)] if vc.choose("more", [True, False]) else world.ACK)
            reads.append(0)

        vc.env.on_empty = empty
        vc.ctx.cut_while = ("",)
        vc.ctx.generic = True
        vc.ctx.frame_ok = lambda loop, x: x is reads
        o = await vc.aoutcome(call())
        vc.check(gw.sent == [head + "##"], "exactly the request frame is sent")
        if len(reads) > 1:
            vc.cover("returned")
            vc.check(o.ok, "the request returns")
            vc.check(o.value == want, "the value is that of the first reply")
        else:
            vc.check(o.raised(ResponseError), "no data raises the response error")

    vc.run(main())


@harness("C14", only="conc", weight=1.5)
def streams(vc):
    """Bounded companion: longer sequences on the real code, delivered at random moments."""
    import asyncio

    which = vc.choose("which", ["status", "dimension"])
    n = vc.choose("count", list(range(9)) * 4 + [33, 130, 300])

    async def main():
        item, who, where, client, gw = await _item(vc)
        req, text, good = _request(vc, item, who, where, which)
        bad = vc.choose("bad", [False, False, True])
        texts = [_frame(vc, f"tag{i}", vc.choose(f"kind{i}", list(good))) for i in range(n)]
        last = _frame(vc, "last", vc.choose("last kind", [k for k in KINDS if k not in good])) if bad else world.ACK
        left = "*1*0*11##"
        pauses = [vc.int(f"pause{i}", 0, 4) if n < 9 else 0 for i in range(n + 2)]
        gw.reset()
        got = []

        async def consume():
            async for m in req():
                got.append(m)

        async def gateway():
            while not gw.sent:
                await asyncio.sleep(0.01)
            for p, t in zip(pauses, texts + [last, left]):
                await asyncio.sleep(p)
                gw.say(t)

        task = asyncio.ensure_future(gateway())
        o = await vc.aoutcome(consume())
        await task
        vc.check(gw.sent == [text], "exactly the request frame is sent")
        vc.check([str(m) for m in got] == texts, "exactly the replies are yielded, in order")
        if bad:
            vc.check(o.raised(ResponseError), "a refused or unexpected message raises the response error")
        else:
            vc.check(o.ok, "the request ends at the ACK")
        vc.check(await _left(vc, client) == left, "nothing after the end is consumed")

    vc.run(main())
