"""C08: a client becomes ready only through a valid handshake."""
from pyown.auth import AuthAlgorithm
from pyown.auth.hmac import client_hmac, digits_to_hex, hex_to_digits, server_hmac
from pyown.auth.open import own_calc_pass
from pyown.client import Client
from pyown.client.session import SessionType

from pyvc.api_common import harness

from . import world
from .c06 import step

PASSWORDS = ["12345", "0", "4294967295", "987654"]
SINGLE = "\\*[0-9#]*##"  # one tag
OTHER = ["nack", "normal", "status", "request", "writing", "response", "generic"]


def _stubs(vc):
    """The credential functions are used through their contracts (proved for C06 and C07)."""
    if not vc.symbolic:
        return
    L = vc.lang
    # keys and digests have at least 20 bytes, so their digit texts have at least 80 characters; 8 are enough here
    digits = L.regex("(0[0-9]|1[0-5]){4,}")
    hexs = L.regex("[0-9a-f]+")
    vc.stub("pyown.auth.open:own_calc_pass", lambda password, nonce: vc.opaque("open", (password, nonce), L.regex("[0-9]+")))
    vc.stub("pyown.auth.hmac:hex_to_digits", lambda hex_string: vc.opaque("digits", (hex_string,), digits))
    vc.stub("pyown.auth.hmac:digits_to_hex", lambda digits_string: vc.opaque("hex", (digits_string,), hexs))

    def proof(server_key, client_key, password, client_identity="736F70653E", server_identity="636F70653E",
              hash_algorithm=AuthAlgorithm.SHA256):
        return vc.opaque("client_hmac", (server_key, client_key, password, client_identity, server_identity,
                                         hash_algorithm), L.charset([(0, 255)]).times(20), True)

    def conf(server_key, client_key, password, hash_algorithm=AuthAlgorithm.SHA256):
        return vc.opaque("server_hmac", (server_key, client_key, password, hash_algorithm),
                         L.charset([(0, 255)]).times(20), True)

    vc.stub("pyown.auth.hmac:client_hmac", proof)
    vc.stub("pyown.auth.hmac:server_hmac", conf)


def _start(vc, greeting, answer, session, password):
    gw = world.Gateway(greeting, answer)

    async def main():
        client = Client("192.0.2.1", 20000, password, session, loop=vc.loop(gw.connect))
        return await vc.aoutcome(client.start())

    o = vc.run(main())
    return gw, o


def _announce(session):
    return "*99*" + session.value + "##"


def _open(password, nonce):
    """The published algorithm."""
    state = (0, False)
    for ch in nonce:
        state = step(state, ch, int(password))
    return str(state[0])


def _session(vc):
    return vc.choose("session", list(SessionType))


@harness("C08", exact=True)
def greeting(vc):
    """The gateway has to speak first, with an ACK; otherwise nothing is sent."""
    k, t = world.frame(vc, "greeting", OTHER + ["single", "silence"])
    gw, o = _start(vc, t, lambda i, d: [world.ACK], _session(vc), "12345")
    vc.check(o.kind == "exc", "no handshake without an ACK from the gateway")
    vc.check(gw.sent == [], "nothing is sent before the ACK")


@harness("C08", exact=True)
def session_reply(vc):
    """ACK to the session request: ready; anything but ACK, a nonce or *98*: an error and nothing more sent."""
    s = _session(vc)
    k, t = world.frame(vc, "reply", ["ack"] + OTHER + ["silence"], without=("\\*98\\*.*##", SINGLE))
    gw, o = _start(vc, world.ACK, lambda i, d: [] if t is None else [t] if i == 0 else [world.ACK], s, "12345")
    vc.expect_cover("ready", "error")
    vc.check(gw.sent == [_announce(s)], "exactly the session request is sent")
    if k == "ack":
        vc.cover("ready")
        vc.check(o.ok, "an ACK completes the handshake")
    else:
        vc.cover("error")
        vc.check(o.kind == "exc", "any other answer is an error")


@harness("C08", exact=True)
def open_password(vc):
    """A single-tag nonce is answered with the OPEN encoding of the password; ready only on ACK."""
    _stubs(vc)
    s = _session(vc)
    pw = vc.text("password", "[0-9]{1,9}", PASSWORDS)
    nonce = vc.text("nonce", "[0-9]+", ["603356072", "0", "123"])
    prefix = vc.choose("prefix", ["#", ""])
    k, t = world.frame(vc, "verdict", ["ack"] + OTHER + ["single", "silence"])

    def answer(i, d):
        if i == 0:
            return ["*" + prefix + nonce + "##"]
        return [] if t is None else [t] if i == 1 else [world.ACK]

    gw, o = _start(vc, world.ACK, answer, s, pw)
    vc.expect_cover("ready", "error")
    enc = own_calc_pass(pw, nonce) if vc.symbolic else _open(pw, nonce)
    vc.check(gw.sent == [_announce(s), "*#" + enc + "##"], "exactly the session request and the encoded password are sent")
    if k == "ack":
        vc.cover("ready")
        vc.check(o.ok, "an ACK completes the handshake")
    else:
        vc.cover("error")
        vc.check(o.kind == "exc", "any other answer is an error")


@harness("C08", exact=True)
def hmac_refused(vc):
    """An unknown HMAC algorithm is answered with NACK and is an error."""
    _stubs(vc)
    s = _session(vc)
    L = vc.lang
    x = vc.text("code", L.regex(world.TAG) - L.words(["1", "2"]), ["0", "3", "", "01", "11", "#1", "1#1", "12"])
    gw, o = _start(vc, world.ACK, lambda i, d: ["*98*" + x + "##"] if i == 0 else [world.ACK], s, "12345")
    vc.check(gw.sent == [_announce(s), world.NACK], "the session request, then NACK, nothing else")
    vc.check(o.kind == "exc", "an unknown algorithm is an error")


@harness("C08", exact=True)
def hmac_no_key(vc):
    """Instead of its key the gateway sends something else: an error, no proof is sent."""
    _stubs(vc)
    s = _session(vc)
    alg = vc.choose("alg", ["1", "2"])
    k, t = world.frame(vc, "key", OTHER + ["ack", "silence"], without=(SINGLE,))

    def answer(i, d):
        return ["*98*" + alg + "##"] if i == 0 else [] if t is None else [t] if i == 1 else [world.ACK]

    gw, o = _start(vc, world.ACK, answer, s, "12345")
    vc.check(gw.sent == [_announce(s), world.ACK], "the session request and the ACK of the algorithm, nothing else")
    vc.check(o.kind == "exc", "a missing key is an error")


@harness("C08", exact=True, params=["good", "bad SHA1", "bad SHA256"], weight=2)
def hmac_exchange(vc, which):
    """The client proves itself with the documented digest and is ready only on the correct confirmation."""
    _stubs(vc)
    s = _session(vc)
    name = vc.choose("alg", ["SHA1", "SHA256"]) if which == "good" else which[4:]
    alg = AuthAlgorithm[name]
    code = "1" if name == "SHA1" else "2"
    pw = vc.text("password", "[0-9]{1,9}", PASSWORDS)
    if vc.symbolic:
        ra = vc.text("ra", "(0[0-9]|1[0-5])+")
    else:
        ra = hex_to_digits(vc.text("ra_hex", "[0-9a-f]{8,64}", ["0123456789abcdef", "deadbeef" * 5]))
    seen = {}

    def answer(i, d):
        if i == 0:
            return ["*98*" + code + "##"]
        if i == 1:
            return ["*#" + ra + "##"]
        if i > 2:
            return [world.ACK]
        text = d.decode("ascii")
        seen["proof"] = text
        parts = text.split("*")
        vc.check(len(parts) == 3 and text.startswith("*#") and text.endswith("##"), "the proof is a two-tag frame")
        rb_digits, cl = parts[1][1:], parts[2][:-2]
        seen["rb"], seen["cl"] = rb_digits, cl
        if vc.symbolic:
            # the client key is the value whose digits were sent
            good = seen["good"](rb_digits)
        else:
            rb = digits_to_hex(rb_digits)
            good = hex_to_digits(server_hmac(digits_to_hex(ra), rb, pw, alg).hex())
        seen["conf"] = good
        if which == "good":
            return ["*#" + good + "##"]
        k, t = world.frame(vc, "confirmation", OTHER + ["ack", "silence", "single"])
        if k == "generic":
            # the confirmation is the first tag
            vc.assume(t[1:-2].split("*")[0] not in ("#" + good, good))
        if k == "single":
            if vc.choose("near", [False, True]) and not vc.symbolic:
                j = vc.int("at", 0, len(good) - 1)
                g2 = good[:j] + ("1" if good[j] == "0" else "0") + good[j + 1 :]
                t = "*#" + g2 + "##"
            vc.assume(t != "*#" + good + "##")
            vc.assume(t != "*" + good + "##")
        return [] if t is None else [t]

    if vc.symbolic:
        keys = []

        def create(hash_algorithm=AuthAlgorithm.SHA256):
            k = vc.text("rb", "[0-9a-f]{40}")
            vc.check(hash_algorithm == alg, "the client key is made for the requested algorithm")
            keys.append(k)
            return k

        vc.stub("pyown.auth.hmac:create_key", create)

        def good_for(rb_digits):
            vc.check(len(keys) == 1, "one client key is created")
            vc.check(rb_digits == hex_to_digits(keys[0]), "the digits of the client key are sent")
            return hex_to_digits(server_hmac(digits_to_hex(ra), keys[0], pw, alg).hex())

        seen["good"] = good_for
    gw, o = _start(vc, world.ACK, answer, s, pw)
    vc.check("proof" in seen, "the client answers the key with its proof")
    if vc.symbolic:
        want = hex_to_digits(client_hmac(digits_to_hex(ra), keys[0], pw, hash_algorithm=alg).hex())
    else:
        want = hex_to_digits(client_hmac(digits_to_hex(ra), digits_to_hex(seen["rb"]), pw, hash_algorithm=alg).hex())
    vc.check(seen["cl"] == want, "the proof is the documented digest")
    first = [_announce(s), world.ACK, seen["proof"]]
    if which == "good":
        vc.check(o.ok, "the correct confirmation completes the handshake")
        vc.check(gw.sent == first + [world.ACK], "it is acknowledged, and nothing else is sent")
    else:
        vc.check(o.kind == "exc", "a bad confirmation is an error")
        vc.check(gw.sent == first, "a bad confirmation is never acknowledged")


@harness("C08", exact=True)
def no_connection(vc):
    """A connection that cannot be made is an error."""
    s = _session(vc)

    async def refuse(factory):
        raise OSError("refused")

    async def main():
        client = Client("192.0.2.1", 20000, "12345", s, loop=vc.loop(refuse))
        return await vc.aoutcome(client.start())

    vc.check(vc.run(main()).kind == "exc", "an error is raised")
