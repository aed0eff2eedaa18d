"""C09: session discipline."""
from pyown.client import Client
from pyown.client.session import SessionType
from pyown.exceptions import InvalidSession
from pyown.items.automation import Automation
from pyown.items.lighting import Light
from pyown.messages import ACK, NACK, DimensionWriting, GenericMessage, NormalMessage
from pyown.tags import Dimension, Value, What, Where, Who

from pyvc.api_common import harness

from . import world

STATES = ["unstarted", "open", "closed", "closed twice", "ended and closed"]
COMMAND = (SessionType.CommandSession, SessionType.OldCommandSession)


def live(state):
    """The gateway can still be heard, or was when the client was closed."""
    return state not in ("unstarted", "ended and closed")


async def _client(vc, state, session):
    if state == "unstarted":
        gw = world.Gateway()
        return Client("192.0.2.1", 20000, "12345", session, loop=vc.loop(gw.connect)), gw
    client, gw = await world.connect(vc, session)
    if state == "ended and closed":
        gw.transport.closed = True  # the transport was closing already
        if vc.choose("lost", [False, True]):
            gw.protocol.connection_lost(None)
        await client.close()
    if state.startswith("closed"):
        await client.close()
        if state == "closed twice":
            await client.close()
    return client, gw


@harness("C09", exact=True)
def send(vc):
    """send_message writes only when connected and (command session or forced)."""
    state = vc.choose("state", STATES)
    session = vc.choose("session", list(SessionType))
    force = vc.choose("force", ["default", False, True])
    kind = vc.choose("kind", ["ack", "nack", "normal", "generic", "writing"])
    tag = vc.text("tag", world.TAG, world.TAGS)
    vc.expect_cover("written", "refused")

    async def main():
        client, gw = await _client(vc, state, session)
        if kind == "ack":
            msg, text = ACK(), world.ACK
        elif kind == "nack":
            msg, text = NACK(), world.NACK
        elif kind == "normal":
            msg, text = NormalMessage((Who.LIGHTING, What(tag), Where("11"))), "*1*" + tag + "*11##"
        elif kind == "generic":
            msg, text = GenericMessage([tag, "5"]), "*" + tag + "*5##"
        else:
            msg, text = DimensionWriting((Who.GATEWAY, Where(""), Dimension("0"), Value(tag))), "*#13**#0*" + tag + "##"
        o = await vc.aoutcome(client.send_message(msg) if force == "default" else client.send_message(msg, force=force))
        if state == "open" and (session in COMMAND or force is True):
            vc.cover("written")
            vc.check(o.ok, "an allowed message is accepted")
            vc.check(gw.sent == [text], "an allowed message is written")
        else:
            vc.cover("refused")
            vc.check(o.raised(InvalidSession), "a message is refused with the invalid-session error")
            vc.check(gw.sent == [], "a refused message is not written")

    vc.run(main())


@harness("C09", exact=True)
def command_class(vc):
    """is_cmd_session tells exactly the command sessions."""
    session = vc.choose("session", list(SessionType))

    async def main():
        client, gw = await _client(vc, vc.choose("state", STATES), session)
        vc.check(client.is_cmd_session() is (session in COMMAND), "command sessions are exactly 0 and 9")

    vc.run(main())


@harness("C09", exact=True, params=["light", "automation"])
def item_command(vc, which):
    """An item of an event or unconnected client sends nothing."""
    state = vc.choose("state", STATES)
    session = vc.choose("session", list(SessionType))
    where = vc.text("where", world.TAG, world.TAGS)

    async def main():
        client, gw = await _client(vc, state, session)
        gw.reset(lambda i, d: [world.ACK])
        item = (Light if which == "light" else Automation)(client, where)
        o = await vc.aoutcome(item.turn_on() if which == "light" else item.up())
        if state == "open" and session in COMMAND:
            vc.check(o.ok and len(gw.sent) == 1, "a command client sends the command")
        else:
            vc.check(o.raised(InvalidSession), "the command is refused with the invalid-session error")
            vc.check(gw.sent == [], "a refused command is not written")

    vc.run(main())


@harness("C09", exact=True)
def read(vc):
    """read_message on a client that is not connected raises the invalid-session error."""
    state = vc.choose("state", STATES)
    session = vc.choose("session", list(SessionType))
    text = vc.choose("kind", ["*#*1##", "*#*0##", "*1*0*", "*#1*11*1*", "*99*"])
    if text[-1] != "#":
        text = text + vc.text("tag", world.TAG, world.TAGS) + "##"
    timeout = vc.choose("timeout", ["default", None, 1])

    async def main():
        client, gw = await _client(vc, state, session)
        if live(state):
            gw.say(text)
        o = await vc.aoutcome(client.read_message() if timeout == "default" else client.read_message(timeout))
        if state == "open":
            vc.check(o.ok and str(o.value) == text, "a connected client reads the message")
        else:
            vc.check(o.raised(InvalidSession), "reading unconnected raises the invalid-session error")
            if live(state):
                left = await gw.protocol.receive_messages()
                vc.check(str(left) == text, "nothing was taken from the connection")

    vc.run(main())


@harness("C09", exact=True, fresh=True)
def loop(vc):
    """The event loop refuses command sessions and unconnected clients, and dispatches nothing."""
    state = vc.choose("state", STATES)
    session = vc.choose("session", list(SessionType))
    vc.assume(state != "open" or session in COMMAND)
    where = vc.text("where", world.TAG, world.TAGS)
    other = vc.choose("client", [False, True])
    seen = []

    async def callback(item, status):
        seen.append(item)

    async def main():
        client, gw = await _client(vc, state, session)
        Light.on_status_change(callback)
        if live(state):
            gw.say("*1*1*" + where + "##")
        if other:
            c2, gw2 = await world.connect(vc, SessionType.CommandSession)
            o = await vc.aoutcome(client.loop(client=c2))
        else:
            o = await vc.aoutcome(client.loop())
        await vc.settle()
        vc.check(o.raised(InvalidSession), "the loop is refused with the invalid-session error")
        vc.check(seen == [], "nothing is dispatched")
        if live(state):
            left = await gw.protocol.receive_messages()
            vc.check(str(left) == "*1*1*" + where + "##", "nothing was taken from the connection")

    vc.run(main())


@harness("C09", exact=True)
def two_clients(vc):
    """Each client obeys its own session, whatever another one is, does or did."""
    state, session = vc.choose("state", ["unstarted", "open", "closed"]), vc.choose("session", list(SessionType))
    state2, session2 = vc.choose("other state", ["unstarted", "open", "closed"]), vc.choose("other session", list(SessionType))
    first = vc.choose("other first", [False, True])
    tag = vc.text("tag", world.TAG, world.TAGS)

    async def main():
        if first:
            other, gw2 = await _client(vc, state2, session2)
        client, gw = await _client(vc, "unstarted" if state == "unstarted" else "open", session)
        if not first:
            other, gw2 = await _client(vc, state2, session2)
        if state == "closed":
            await client.close()
        vc.check(client.is_cmd_session() is (session in COMMAND), "command sessions are exactly 0 and 9")
        vc.check(other.is_cmd_session() is (session2 in COMMAND), "also for the other client")
        text = "*1*" + tag + "*11##"
        o = await vc.aoutcome(client.send_message(NormalMessage((Who.LIGHTING, What(tag), Where("11")))))
        if state == "open" and session in COMMAND:
            vc.check(o.ok and gw.sent == [text], "an allowed message is written")
        else:
            vc.check(o.raised(InvalidSession) and gw.sent == [], "any other is refused and not written")
        vc.check(gw2.sent == [], "nothing is written on the other client's connection")
        if state == "open":
            gw.say(text)
            o = await vc.aoutcome(client.read_message())
            vc.check(o.ok and str(o.value) == text, "a connected client reads its message")
        else:
            if state2 == "open":
                gw2.say(text)
            o = await vc.aoutcome(client.read_message())
            vc.check(o.raised(InvalidSession), "reading unconnected raises the invalid-session error")

    vc.run(main())


@harness("C09", exact=True, params=["event", "command"], weight=2)
def one_after_another(vc, which):
    """What was done before changes nothing but whether the client is connected."""
    session = vc.choose("session", [s for s in SessionType if (s in COMMAND) == (which == "command")])
    n = 3 if vc.symbolic else vc.choose("steps", [3, 5, 9, 30])

    async def main():
        client, gw = await world.connect(vc, session)
        connected = True
        for i in range(n):
            gw.reset()
            do = vc.choose(f"do{i}", ["send", "force", "read", "nothing to read", "loop", "close"])
            if do in ("send", "force"):
                kind = vc.choose(f"kind{i}", ["normal", "ack", "generic"])
                msg, text = {"normal": (NormalMessage((Who.LIGHTING, What("1"), Where("11"))), "*1*1*11##"), "ack": (ACK(), world.ACK),
                             "generic": (GenericMessage(["99", "5"]), "*99*5##")}[kind]
                o = await vc.aoutcome(client.send_message(msg, force=do == "force"))
                if connected and (session in COMMAND or do == "force"):
                    vc.check(o.ok and gw.sent == [text], "an allowed message is written")
                else:
                    vc.check(o.raised(InvalidSession) and gw.sent == [], "any other is refused and not written")
            elif do in ("read", "nothing to read"):
                if connected and do == "read":
                    gw.say("*1*1*11##")
                o = await vc.aoutcome(client.read_message(timeout=1))
                if connected:
                    vc.check(o.ok and str(o.value) == "*1*1*11##" if do == "read" else o.raised(TimeoutError), "a connected client reads its messages")
                else:
                    vc.check(o.raised(InvalidSession), "reading unconnected raises the invalid-session error")
            elif do == "loop":
                if connected and session not in COMMAND:
                    continue
                o = await vc.aoutcome(client.loop())
                vc.check(o.raised(InvalidSession), "the loop is refused with the invalid-session error")
            else:
                await client.close()
                connected = False
            vc.check(client.is_cmd_session() is (session in COMMAND), "the kind of the session stays")

    vc.run(main())
