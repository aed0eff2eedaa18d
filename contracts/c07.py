"""C07: HMAC digit codec and digests follow the documented formulas."""
import hashlib
import hmac as stdhmac

from pyown.auth.enum import AuthAlgorithm
from pyown.auth.hmac import client_hmac, compare_hmac, create_key, digits_to_hex, hex_to_digits, server_hmac

from pyvc.api_common import harness

HEX = "0123456789abcdef"
HEXES = ["", "0", "9", "a", "f", "0f", "f0", "deadbeef", "0123456789abcdef", "00", "aa", "19af"]
A = "736F70653E"
B = "636F70653E"


def pair(ch):
    """Two decimal digits of one hexadecimal digit."""
    v = HEX.index(ch)
    return str(v // 10) + str(v % 10)


def _pair(ch):
    for i in range(16):
        if ch == HEX[i]:
            return "%02d" % i
    raise AssertionError


@harness("C07", exact=True)
def to_digits(vc):
    """hex_to_digits writes each hexadecimal digit as its two-digit decimal value."""
    h = vc.text("hex", "[0-9a-f]*", HEXES)
    if vc.symbolic:
        F = vc.fold(h, ("str",), ("",), lambda st, ch: (st[0] + _pair(ch),), name="digits")
        o = vc.outcome(hex_to_digits, h)
        vc.check(o.ok, "a hexadecimal text is always converted")
        vc.check(o.value == F.value()[0], "each digit becomes its two-digit decimal value")
    else:
        o = vc.outcome(hex_to_digits, h)
        vc.check(o.ok, "a hexadecimal text is always converted")
        vc.check(o.value == "".join(_pair(ch) for ch in h), "each digit becomes its two-digit decimal value")


@harness("C07", exact=True)
def back_to_hex(vc):
    """digits_to_hex of the digits of h is h (the digits being the encoding proved by to_digits)."""
    h = vc.text("hex", "[0-9a-f]*", HEXES)
    if vc.symbolic:
        d = vc.opaque("digits_of", (h,), vc.lang.regex("(0[0-9]|1[0-5])*"))
        # fold of "append the digit" over h, consumed by the code two digits of d at a time;
        # appending every character of h to the empty text gives h
        F = vc.fold(d, ("str",), ("",), lambda st, ch: (st[0] + ch,), name="hex", image=(h, _pair))
        o = vc.outcome(digits_to_hex, d)
        vc.check(o.ok, "protocol digits are always converted back")
        vc.check(o.value == F.value()[0], "every pair of digits becomes its hexadecimal digit")
    else:
        o = vc.outcome(digits_to_hex, "".join(_pair(ch) for ch in h))
        vc.check(o.ok and o.value == h, "every pair of digits becomes its hexadecimal digit")
        vc.check(digits_to_hex(hex_to_digits(h)) == h, "round trip")


@harness("C07", exact=True)
def short_codec(vc):
    """Bounded: all hexadecimal texts of up to two digits, loops unrolled."""
    h = ""
    for i in range(vc.choose("length", [0, 1, 2])):
        h = h + vc.choose(f"h{i}", list(HEX))
    d = "".join([_pair(ch) for ch in h])
    o = vc.outcome(hex_to_digits, h)
    vc.check(o.ok and o.value == d, "each digit becomes its two-digit decimal value")
    o = vc.outcome(digits_to_hex, d)
    vc.check(o.ok and o.value == h, "and back")


HASHES = {"SHA1": hashlib.sha1, "SHA256": hashlib.sha256}
KEYS = ["", "0", "deadbeef", "12345", "DEADbeef"]


def _inputs(vc):
    ra, rb = vc.text("ra", "[0-9a-fA-F]*", KEYS), vc.text("rb", "[0-9a-fA-F]*", KEYS)
    pw = vc.text("password", "[ -~]*", KEYS)
    if not vc.symbolic:
        pw = pw + vc.choose("letter", ["", "", "\u00e9", "e\u0301", "\u20ac", "\U0001d11e", "\x00", "\n", "\u00a0"])
    return ra, rb, pw


@harness("C07", exact=True, params=["SHA1", "SHA256"])
def client_proof(vc, name):
    """client_hmac = HMAC(Ra; Ra+Rb+A+B+Kab), Kab = hex hash of the password."""
    ra, rb, pw = _inputs(vc)
    H = HASHES[name]
    alg = AuthAlgorithm[name]
    kab = H(pw.encode()).hexdigest()
    ident = vc.choose("identities", ["default", "given"])
    if ident == "default":
        a, b = A, B
        o = vc.outcome(client_hmac, server_key=ra, client_key=rb, password=pw, hash_algorithm=alg)
    else:
        a, b = vc.text("a", "[0-9A-F]*", KEYS), vc.text("b", "[0-9A-F]*", KEYS)
        o = vc.outcome(client_hmac, server_key=ra, client_key=rb, password=pw, client_identity=a, server_identity=b,
                       hash_algorithm=alg)
    want = stdhmac.HMAC(ra.encode(), (ra + rb + a + b + kab).encode(), H).digest()
    vc.check(o.ok, "the proof is always computed")
    vc.check(o.value == want, "it is the keyed digest of Ra+Rb+A+B+Kab")


@harness("C07", exact=True, params=["SHA1", "SHA256"])
def server_confirmation(vc, name):
    """server_hmac = HMAC(Ra; Ra+Rb+Kab)."""
    ra, rb, pw = _inputs(vc)
    H = HASHES[name]
    kab = H(pw.encode()).hexdigest()
    o = vc.outcome(server_hmac, server_key=ra, client_key=rb, password=pw, hash_algorithm=AuthAlgorithm[name])
    want = stdhmac.HMAC(ra.encode(), (ra + rb + kab).encode(), H).digest()
    vc.check(o.ok, "the confirmation is always computed")
    vc.check(o.value == want, "it is the keyed digest of Ra+Rb+Kab")


@harness("C07", exact=True)
def default_is_sha256(vc):
    """Without an algorithm both digests use SHA-256."""
    ra, rb, pw = _inputs(vc)
    vc.check(client_hmac(ra, rb, pw) == client_hmac(ra, rb, pw, hash_algorithm=AuthAlgorithm.SHA256), "client")
    vc.check(server_hmac(ra, rb, pw) == server_hmac(ra, rb, pw, AuthAlgorithm.SHA256), "server")


@harness("C07", exact=True)
def other_algorithms(vc):
    """Any other algorithm is refused."""
    ra, rb, pw = _inputs(vc)
    bad = vc.choose("alg", [0, 3, -1, "1", "2", "SHA1", None, 256])
    vc.check(vc.outcome(client_hmac, ra, rb, pw, hash_algorithm=bad).raised(ValueError), "client proof refused")
    vc.check(vc.outcome(server_hmac, ra, rb, pw, hash_algorithm=bad).raised(ValueError), "server confirmation refused")
    vc.check(vc.outcome(create_key, hash_algorithm=bad).raised(ValueError), "key refused")
    s = vc.text("code", corpus=["1", "2", "0", "3", "", "01", "1#", "11"])
    o = vc.outcome(AuthAlgorithm.from_string, s)
    if s == "1":
        vc.check(o.ok and o.value is AuthAlgorithm.SHA1, "code 1 is SHA-1")
    elif s == "2":
        vc.check(o.ok and o.value is AuthAlgorithm.SHA256, "code 2 is SHA-256")
    else:
        vc.check(o.raised(ValueError), "any other code is refused")


@harness("C07", exact=True)
def comparison(vc):
    """compare_hmac says whether the digests are equal."""
    x = vc.bytes("x")
    y = x if vc.choose("same", [False, True]) else vc.bytes("y")
    o = vc.outcome(compare_hmac, x, y)
    vc.check(o.ok, "digests can be compared")
    if x == y:
        vc.check(o.value is True or o.value == True, "equal digests compare equal")  # noqa: E712
    else:
        vc.check(not o.value, "different digests do not")


@harness("C07", exact=True)
def created_keys(vc):
    """A key is a lower-case hexadecimal text, so it survives the digit codec."""
    import re

    alg = AuthAlgorithm[vc.choose("alg", ["SHA1", "SHA256"])]
    o = vc.outcome(create_key, alg)
    vc.check(o.ok and re.fullmatch("[0-9a-f]+", o.value) is not None, "lower-case hexadecimal")


@harness("C07", only="conc")
def again(vc):
    """Bounded companion: digests computed before, for inputs that differ in one place only, change nothing."""
    ras, rbs, pws = [[vc.text(f"{n}{i}", l, KEYS) for i in range(2)] for n, l in
                     (("ra", "[0-9a-f]*"), ("rb", "[0-9a-f]*"), ("password", "[ -~]*"))]
    at = [0, 0, 0, 0]
    for _ in range(vc.choose("calls", [2, 4, 8])):
        ra, rb, pw, name = ras[at[0]], rbs[at[1]], pws[at[2]], ["SHA1", "SHA256"][at[3]]
        H, alg = HASHES[name], AuthAlgorithm[name]
        kab = H(pw.encode()).hexdigest()
        for f, more in ((client_hmac, A + B), (server_hmac, "")):
            o = vc.outcome(f, server_key=ra, client_key=rb, password=pw, hash_algorithm=alg)
            vc.check(o.ok and o.value == stdhmac.HMAC(ra.encode(), (ra + rb + more + kab).encode(), H).digest(),
                     "the digest is that of these inputs")
        for t in (ra, rb):
            d = vc.outcome(hex_to_digits, t)
            vc.check(d.ok and d.value == "".join(_pair(c) for c in t), "each digit becomes its two-digit decimal value")
            vc.check(vc.outcome(digits_to_hex, d.value).value == t, "and back")
        at[vc.choose("change", [0, 1, 2, 3])] ^= 1
