"""C06: the OPEN password encoding equals the published algorithm."""
from pyown.auth.open import own_calc_pass

from pyvc.api_common import harness

M = 0xFFFFFFFF
NONCES = ["", "0", "00", "1", "2", "3", "4", "5", "6", "7", "8", "9", "603356072", "410501656", "630292165", "523781130",
          "0123456789", "9876543210", "99", "90", "09", "100", "0007", "78", "87"]


def _rotr(v, k):
    return (v >> k) | ((v << (32 - k)) & M)


def _rotl(v, k):
    return ((v << k) & M) | (v >> (32 - k))


def step(state, ch, password):
    """One digit of the published algorithm."""
    v, started = state
    if ch == "0":
        return v, started
    if not started:
        v = password
    if ch == "1":
        v = _rotr(v, 7)
    elif ch == "2":
        v = _rotr(v, 4)
    elif ch == "3":
        v = _rotr(v, 3)
    elif ch == "4":
        v = _rotl(v, 1)
    elif ch == "5":
        v = _rotl(v, 5)
    elif ch == "6":
        v = _rotl(v, 12)
    elif ch == "7":  # bytes b3 b2 b1 b0 -> b0 b3 b1 b2
        v = ((v & 0xFF) << 24) | ((v & 0xFF000000) >> 8) | (v & 0xFF00) | ((v & 0xFF0000) >> 16)
    elif ch == "8":  # bytes b3 b2 b1 b0 -> b1 b0 b2 b3
        v = ((v & 0xFFFF) << 16) | ((v & 0xFF0000) >> 8) | (v >> 24)
    else:
        v = v ^ M
    return v, True


def _fold(vc, nonce, n):
    if not vc.symbolic:
        st = (0, False)
        for ch in nonce:
            st = step(st, ch, n)
        return lambda: st[0]
    F = vc.fold(nonce, ("u32", "bool"), (0, False), lambda st, ch: step(st, ch, n),
                inv=lambda v, started: started | (v == 0), name="open")
    return lambda: F.value()[0]


def _password(vc, form):
    if form == "integer":
        n = vc.u32("password")
        return n, n
    return vc.u32_text("password")


@harness("C06", exact=True, params=["text", "integer"])
def encode(vc, form):
    """own_calc_pass(password, nonce) for every password below 2**32 and every nonce of decimal digits."""
    p, n = _password(vc, form)
    nonce = vc.text("nonce", "[0-9]*", NONCES)
    want = _fold(vc, nonce, n)
    o = vc.outcome(own_calc_pass, p, nonce)
    vc.check(o.ok, "a numeric password and nonce are always encoded")
    vc.check(isinstance(o.value, str), "the result is a text")
    vc.check(o.value == vc.num_text(want()), "the result is the decimal text of the folded 32-bit value")


@harness("C06", exact=True, params=["text", "integer"])
def encode_integer_nonce(vc, form):
    """A nonce given as an integer is folded over its decimal text."""
    p, n = _password(vc, form)
    k = vc.int("nonce", lo=0)
    want = _fold(vc, vc.num_text(k), n)
    o = vc.outcome(own_calc_pass, p, k)
    vc.check(o.ok, "a numeric password and nonce are always encoded")
    vc.check(o.value == vc.num_text(want()), "the result is the decimal text of the folded 32-bit value")


@harness("C06", exact=True, params=["text", "integer"])
def short_nonces(vc, form):
    """Bounded: every password with every nonce of at most three digits, loops unrolled."""
    p, n = _password(vc, form)
    nonce = ""
    for i in range(vc.choose("length", [0, 1, 2])):
        nonce = nonce + vc.choose(f"d{i}", list("0123456789"))
    if vc.choose("third", [False, True]):
        nonce = nonce + vc.choose("d2", list("15789"))
    st = (0, False)
    for ch in nonce:
        st = step(st, ch, n)
    o = vc.outcome(own_calc_pass, p, nonce)
    vc.check(o.ok, "a numeric password and nonce are always encoded")
    vc.check(o.value == vc.num_text(st[0]), "the result is the decimal text of the folded 32-bit value")


@harness("C06", only="conc")
def again(vc):
    """Bounded companion: what was encoded before, with the same password or the same nonce, changes nothing."""
    ns = [vc.u32(f"n{i}") for i in range(2)]
    nonces = [vc.text(f"nonce{i}", "[0-9]{1,12}", NONCES) for i in range(2)]
    if vc.choose("permuted", [False, True]):
        nonces[1] = "".join(sorted(nonces[0]))
    for i, j in vc.choose("order", [[(0, 0), (0, 1), (1, 0), (0, 0)], [(0, 1), (1, 1), (1, 0)], [(1, 1), (0, 1), (0, 0), (1, 1)]]):
        p = ns[i] if vc.choose("integer", [False, True]) else str(ns[i])
        o = vc.outcome(own_calc_pass, p, nonces[j])
        vc.check(o.ok and o.value == vc.num_text(_fold(vc, nonces[j], ns[i])()), "the result is that of this password and nonce")
