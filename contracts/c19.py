"""C19: one item object per device.

lookups: any three lookups (both modes).  any_cache: one lookup in a client that already holds any items."""
import gc
import re

from pyown.client import Client
from pyown.client.session import SessionType
from pyown.exceptions import InvalidTag
from pyown.items.automation import Automation
from pyown.items.base import BaseItem
from pyown.items.camera import Camera
from pyown.items.energy import EnergyManagement
from pyown.items.gateway import Gateway
from pyown.items.lighting import Light
from pyown.tags import Where, Who

from pyvc.api_common import harness

from . import world

TYPES = {"1": Light, "2": Automation, "7": Camera, "13": Gateway, "18": EnergyManagement}
NONE = ["0", "3", "4", "5", "6", "14", "15", "16", "17", "22", "24", "25", "1001", "1004", "1013", "1018"]
WHERES = ["11", "12", "51", "52", "71#0", "", "011", "11#4#01", "1", "#1", "11#", "11##", "1##2", "#"]
METER = "(1[0-9]+|5[0-9]+|7[0-9]+#0)"


def _client(vc, n):
    return Client("192.0.2." + str(n), 20000, "12345", SessionType.EventSession, loop=vc.loop(None))


def _good(who, where):
    """There is an item for this address."""
    return who in TYPES and (who != "18" or re.fullmatch(METER, where) is not None)


def _is_item(vc, o, who, where):
    vc.check(o.ok, "there is an item")
    vc.check(isinstance(o.value, TYPES[who]), "the item has the type of its WHO")
    # the gateway itself has no address
    vc.check(o.value.where.string == ("" if who == "13" else where), "the item is at its address")


def _is_refused(vc, o, who):
    if who in TYPES:
        vc.check(o.raised(InvalidTag), "an address the item refuses raises the invalid-tag error")
    else:
        vc.check(o.raised(KeyError), "a WHO without an item type raises a key error")


@harness("C19", exact=True, params=["1", "4", "2", "7", "13", "18 1", "18 18 1", "18 18 18", "18 18 4", "18 4", "18 2", "18 7", "18 13"])
def lookups(vc, first):
    """Three lookups with arbitrary WHO and WHERE."""
    first = first.split(" ")
    vc.expect_cover("refused", *(["same", "different"] if first in (["1"], ["18", "18", "18"]) else []))

    async def main():
        client, c1, c2 = _client(vc, 1), _client(vc, 2), _client(vc, 3)
        seen = []
        for i in range(3):
            whos = ["1", "18", "4"] + ([] if i == 2 else ["2", "7", "13"])
            who = vc.choose(f"who{i}", ([first[i]] if i < len(first) else whos) if vc.symbolic else list(TYPES) + NONE[:4])
            # an address the energy items refuse changes nothing: the other groups have it at every place
            where = vc.text(f"where{i}", METER if i == 0 and len(first) == 3 and vc.symbolic and first[2] == "18" else "[0-9#]*", WHERES)
            c = vc.choose("client", [c1, client]) if i == 0 else c2 if i == 1 else c1
            o = vc.outcome(client.get_item, Who(who), Where(where), client=c)
            if not _good(who, where):
                vc.cover("refused")
                _is_refused(vc, o, who)
                continue
            _is_item(vc, o, who, where)
            new = True
            for w, x, item, owner in seen:
                if w == who and x == where:
                    vc.cover("same")
                    vc.check(o.value is item, "the same WHO and WHERE give the same object")
                    vc.check(o.value.client is owner, "the item keeps the client it was first given")
                    new = False
                    break
                vc.cover("different")
                vc.check(o.value is not item, "different WHO or WHERE give different objects")
            if new:
                vc.check(o.value.client is c, "a new item has the client it was given")
                seen.append((who, where, o.value, c))

    vc.run(main())


@harness("C19", exact=True)
def every_type(vc):
    """Every WHO: the item type of the library, or a key error, twice."""
    who = vc.choose("who", list(TYPES) + NONE)
    where = vc.text("where", "[0-9#]*", WHERES)

    async def main():
        client, c1 = _client(vc, 1), _client(vc, 2)
        first, second = vc.choose("clients", [(c1, client), (client, c1), (client, client)])
        a = vc.outcome(client.get_item, Who(who), Where(where), client=first)
        b = vc.outcome(client.get_item, Who(who), Where(where), client=second)
        for o in (a, b):
            if _good(who, where):
                _is_item(vc, o, who, where)
                vc.check(o.value is a.value and o.value.client is first, "asking again gives the same object")
            else:
                _is_refused(vc, o, who)
        # another client has its own items
        o = vc.outcome(c1.get_item, Who(who), Where(where), client=c1)
        if _good(who, where):
            _is_item(vc, o, who, where)
            vc.check(o.value is not a.value and o.value.client is c1, "each client has items of its own")
            o = vc.outcome(client.get_item, Who(who), Where(where), client=c1)
            vc.check(o.ok and o.value is a.value, "which change nothing for the others")

    vc.run(main())


@harness("C19", only="sym")
def any_cache(vc):
    """Whatever the client already holds: a held item is returned, otherwise a new one is made and held from then on."""
    vc.expect_cover("held", "new", "refused")
    who, who2 = vc.choose("who", list(TYPES) + ["4"]), vc.choose("who2", ["1", "18"])
    where, where2 = vc.text("where", "[0-9#]*", WHERES), vc.text("where2", "[0-9#]*", WHERES)
    held = []

    async def main():
        client, c1, c2 = _client(vc, 1), _client(vc, 2), _client(vc, 3)

        def chooser(key):
            w, x = key
            if not _good(w.string, x.string) or not vc.choose("held", [True, False]):
                return vc.MISSING
            item = TYPES[w.string](c2, x)
            held.append((w.string, x.string, item))
            return item

        cache = [k for k, v in vars(client).items() if type(v) is dict and not v]
        if len(cache) != 1:
            vc.stop()
        setattr(client, cache[0], vc.opaque_dict(chooser))
        o = vc.outcome(client.get_item, Who(who), Where(where), client=c1)
        if not _good(who, where):
            vc.cover("refused")
            _is_refused(vc, o, who)
            vc.check(held == [], "nothing is held under such an address")
        else:
            _is_item(vc, o, who, where)
            if held:
                vc.cover("held")
                vc.check(o.value is held[0][2] and o.value.client is c2, "the held item is returned with its client")
            else:
                vc.cover("new")
                vc.check(o.value.client is c1, "a new item has the client it was given")
            again = vc.outcome(client.get_item, Who(who), Where(where), client=c2)
            vc.check(again.ok and again.value is o.value, "it is held from then on")
        # anything else the client holds is untouched
        n = len(held)
        p = vc.outcome(client.get_item, Who(who2), Where(where2), client=c1)
        if _good(who2, where2) and not (who2 == who and where2 == where):
            _is_item(vc, p, who2, where2)
            if len(held) > n:
                vc.check(p.value is held[n][2], "what was held before is still held")
            vc.check(not o.ok or p.value is not o.value, "different WHO or WHERE give different objects")

    vc.run(main())


@harness("C19", only="conc", fresh=True)
def many(vc):
    """Bounded companion: many devices, all asked for again."""
    n = vc.choose("devices", [20, 130, 520, 1100, 6000])
    keys = [(w, str(i + 10)) for i in range(n) for w in ("1", "2")]

    async def main():
        client = _client(vc, 1)
        items = [client.get_item(Who(w), Where(x), client=client) for w, x in keys]
        vc.check(len({id(i) for i in items}) == len(items), "different WHO or WHERE give different objects")
        for (w, x), item in zip(keys, items):
            vc.check(client.get_item(Who(w), Where(x), client=client) is item, "the same WHO and WHERE give the same object")
            vc.check(item.where.string == x and isinstance(item, TYPES[w]), "the item has its type and address")

    vc.run(main())


@harness("C19", exact=True)
def dropped(vc):
    """An item nobody refers to any more is still the item of its address: what was set on it is still there."""
    who = vc.choose("who", list(TYPES))
    where = vc.text("where", "[1-9][0-9]*|1[0-9]+|7[0-9]+#0", ["11", "12", "71#0", "5", "0", "115"])
    if not _good(who, where):
        vc.stop()

    async def main():
        client, c1, c2 = _client(vc, 1), _client(vc, 2), _client(vc, 3)
        o = vc.outcome(client.get_item, Who(who), Where(where), client=c1)
        _is_item(vc, o, who, where)
        o.value.client = c2
        del o
        gc.collect()
        o = vc.outcome(client.get_item, Who(who), Where(where), client=c1)
        _is_item(vc, o, who, where)
        vc.check(o.value.client is c2, "asking again gives the item that was changed")

    vc.run(main())


@harness("C19", exact=True, params=["connected", "closed", "ended", "ended and closed", "failed", "failed and closed"])
def after(vc, what):
    """Whatever happens to the connection, the items asked for before are still the items of their addresses."""
    who = vc.choose("who", list(TYPES))
    where = vc.text("where", "[1-9][0-9]*|1[0-9]+|7[0-9]+#0", ["11", "12", "71#0", "5", "0", "115"])
    if not _good(who, where):
        vc.stop()
    session = vc.choose("session", [SessionType.EventSession, SessionType.CommandSession])
    first = vc.choose("asked for", ["first", "later"])
    keep = vc.choose("its client", ["none", "itself", "another"])

    async def main():
        c2, c3 = _client(vc, 2), _client(vc, 3)
        gw = world.Gateway(greeting=world.NACK if what.startswith("failed") else world.ACK, answer=lambda i, d: [world.ACK])
        client = Client("192.0.2.1", 20000, "12345", session, loop=vc.loop(gw.connect))
        of = {"none": None, "itself": client, "another": c2}[keep]

        def ask(c):
            return vc.outcome(client.get_item, Who(who), Where(where), client=c)

        if first == "first":
            o = ask(of)
        await vc.aoutcome(client.start())
        if first != "first":
            o = ask(of)
        if what.startswith("ended"):
            gw.transport.closed = True
            gw.protocol.connection_lost(vc.choose("error", [None, OSError("reset by peer")]))
        if what.endswith("closed"):
            await client.close()
        _is_item(vc, o, who, where)
        again = ask(c3)
        vc.check(again.ok and again.value is o.value, "the same address gives the same item")
        if of is not None:
            vc.check(again.value.client is of, "the item keeps the client it was first given")

    vc.run(main())
