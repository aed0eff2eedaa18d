"""The gateway's side of a connection, played by the contract (both modes).

Only the public interface is used: the client gets an event loop whose create_connection hands
out a recording transport, and everything the gateway says arrives through data_received."""
import asyncio

from pyown.client import Client
from pyown.client.session import SessionType

from pyvc.api_common import uncut

from . import frames

ACK = "*#*1##"
NACK = "*#*0##"
TAG = "(#?[0-9])*"  # a tag without ## that does not end with #
TAGS = ["", "0", "1", "12", "1#4#01", "#1", "#3#01", "1#2", "1000#1", "001", "18", "71#0", "51", "0315#4#01"]
NUM = "[0-9]+"


class FakeTransport(asyncio.Transport):
    """Records what is written; the gateway may answer each write."""

    _vc_env_ = True

    def __init__(self):
        super().__init__()
        self.written = []
        self.closed = False
        self.on_write = None

    def write(self, data):
        self.written.append(data)
        if self.on_write is not None:
            self.on_write(data)

    def writelines(self, parts):
        for p in parts:
            self.write(p)

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    abort = close

    def get_extra_info(self, name, default=None):
        return default


class Gateway:
    """One connection: greeting, then answers produced by `answer(i, data)` for the i-th write."""

    _vc_env_ = True

    def __init__(self, greeting=ACK, answer=None):
        self.greeting = greeting
        self.answer = answer
        self.transport = FakeTransport()
        self.transport.on_write = self._wrote
        self.protocol = None
        self.count = 0
        self.log = []

    async def connect(self, factory):
        self.protocol = factory()
        self.protocol.connection_made(self.transport)
        if self.greeting is not None:
            self.say(self.greeting)
        return self.transport, self.protocol

    def say(self, text):
        with uncut():
            self.protocol.data_received(text.encode("ascii"))

    def _wrote(self, data):
        i = self.count
        self.count = i + 1
        self.log.append(data)
        if self.answer is not None:
            for t in self.answer(i, data):
                self.say(t)

    @property
    def sent(self):
        """Texts written since the last reset."""
        return [d.decode("ascii") for d in self.log]

    def reset(self, answer=None):
        self.log = []
        self.count = 0
        self.answer = answer


async def connect(vc, session=SessionType.CommandSession, password="12345"):
    """A started client (gateway without authentication) and its gateway."""
    gw = Gateway(answer=lambda i, d: [ACK])
    client = Client("192.0.2.1", 20000, password, session, loop=vc.loop(gw.connect))
    await client.start()
    gw.reset()
    return client, gw


def later(vc, gw, pauses, texts):
    """The gateway answers the first write with the texts, each after its pause in seconds.

    In the symbolic mode a text is said in the first wait it finds the client in, unless that wait ends before."""
    if not vc.symbolic:
        def say(i):
            gw.say(texts[i])
            follow(i + 1)

        def follow(i):
            if i < len(texts):
                asyncio.get_running_loop().call_later(pauses[i], say, i)

        def wrote(i, d):
            if i == 0:
                follow(0)
            return []

        gw.answer = wrote
        return
    said = []

    def empty(q):
        i = len(said)
        if i < len(texts) and all([t is None or t > pauses[i] for t in vc.env.timeouts]):
            said.append(i)
            gw.say(texts[i])

    vc.env.on_empty = empty


GENERIC = ["*99*9##", "*9*1##", "*198*9##", "*98*3##", "*1*1##", "*#1000*1##", "*1000*1*1##", "*1*2*3*4##", "**##", "*##",
           "*#*2##", "*01*1*1##", "*#1#2*1##", "*#**##", "*#*1*##", "*99*1*2*3*4*5*6*7*8*9##", "*098*1##", "*#98*2##", "*98##",
           "*9898*1##", "*#*1#1##", "*#*01##", "*#*11##"]


def generic(vc, without=()):
    """The frames that are none of the structured kinds, nor in the given languages."""
    L = vc.lang
    g = L.regex(frames.FRAME) - L.regex(frames.STRUCTURED)
    for w in without:
        g = g - L.regex(w)
    return g


KINDS = ["ack", "nack", "normal", "status", "request", "writing", "response", "response2", "generic", "single"]


def frame(vc, name, kinds=KINDS, who=("1", "13", "1018"), without=(), where=TAG, dim="([0-9](#?[0-9])*)?", value=TAG):
    """An arbitrary frame of one of the given kinds: (kind, text)."""
    k = vc.choose(name + ".kind", kinds)
    if k == "ack":
        return k, ACK
    if k == "nack":
        return k, NACK
    if k == "silence":
        return k, None
    if k == "single":
        return k, "*" + vc.text(name + ".tag", "#?[0-9]+", ["#603356072", "12", "#0"]) + "##"
    if k == "generic":
        return k, vc.text(name + ".frame", generic(vc, ("\\*#?[0-9]+##",) + tuple(without)), GENERIC)
    w = vc.choose(name + ".who", list(who))
    wh = vc.text(name + ".where", where, TAGS)
    if k == "normal":
        return k, "*" + w + "*" + vc.text(name + ".what", TAG, TAGS) + "*" + wh + "##"
    if k == "status":
        return k, "*#" + w + "*" + wh + "##"
    d = vc.text(name + ".dim", dim, TAGS)
    if k == "request":
        return k, "*#" + w + "*" + wh + "*" + d + "##"
    v = vc.text(name + ".value", value, TAGS)
    if k == "writing":
        return k, "*#" + w + "*" + wh + "*#" + d + "*" + v + "##"
    if k == "response2":
        v = v + "*" + vc.text(name + ".value2", value, TAGS)
    return k, "*#" + w + "*" + wh + "*" + d + "*" + v + "##"
