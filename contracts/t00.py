"""Self-test of the engine: what it concludes about small functions agrees with what CPython does.

Every function below is evaluated on an arbitrary text; afterwards the text is taken to be each sample word in turn
and the result must be the one CPython gives (at import these functions run natively, on plain values).
Not a property of pyown: run with `python3-vt dev.py T00`."""
import re
import string
import itertools
import functools
import operator
from collections import deque

from pyvc.api_common import harness

VALID = "0123456789#"
VSET = frozenset(VALID)
W = ["", "0", "7", "12", "007", "#", "#1", "1#", "1#2", "##", "1##2", "*", "1*2", "*#1*2##", "a", "1a", "12*3#4*5", "-1", " 1", "2#3#4",
     "٣", "²", "100", "255", "256", "9", "*1*2*3##", "98", "*98*1##", "abc#", "\n", "1\n"]

F = {}


def snip(f):
    F[f.__name__] = f
    return f


@snip
def all_in(s):
    return all(c in VALID for c in s)


@snip
def any_out(s):
    return not any(c not in VALID for c in s)


@snip
def collect_all(s):
    out = []
    for p in s.split("#"):
        out.append(p)
    return out


@snip
def collect_some(s):
    out = ["x"]
    for p in s.split("#"):
        if p == "":
            continue
        out.append(p)
    return out[1] if len(out) > 1 else "none"


@snip
def collect_let(s):
    out = []
    for p in s.split("#"):
        q = p.strip("0")
        if not q:
            continue
        n = "<" + q
        out.append(n)
    return out[0] if out else "none"


@snip
def collect_let_raise(s):
    out = []
    for p in s.split("#"):
        q: str = p.lstrip("1")
        if q.startswith("2"):
            raise ValueError(q)
        out.append(q)
    return out[-1]


@snip
def collect_let_outer(s):
    q = "a"
    out = []
    for p in s.split("#"):
        out.append(q)
        q = p
    return out


@snip
def collect_let_after(s):
    out = []
    q = ""
    for p in s.split("#"):
        q = p + "!"
        out.append(q)
    return q


@snip
def len_slice(s):
    p = s.split("#")
    return "|".join(p[: len(p) if len(p) < 4 else 3])


@snip
def len_slice_comp(s):
    p = [x + "!" for x in s.split("#")]
    return "|".join([x for x in p if x is not None][: len(p) if len(p) < 4 else 3])


@snip
def partially(s):
    def joined(a, b, *, sep="-"):
        return a + sep + b

    return functools.partial(joined, s, sep="+")(s[1:]) + functools.partial(str.partition, s)("#")[2]


@snip
def collect_enum(s):
    out = []
    for i, p in enumerate(s.split("#")):
        if i > 0:
            out.append(p)
    return out


@snip
def comp_enum(s):
    return [p for i, p in enumerate(s.split("#"), 1) if i != 2]


@snip
def comp_wrong(s):
    wrong = [p for p in s.split("#") if not p.isdigit()]
    return wrong[0] if wrong else "fine"


@snip
def comp_filter_all(s):
    return [p for p in s.split("#") if "#" not in p]


@snip
def comp_filter_mix(s):
    return bool([p + "!" for p in s.split("#") if p == "2"])


@snip
def collect_twice(s):
    out = []
    for p in s.split("#"):
        out.append(p)
    for p in s.split("*"):
        out.append(p)
    return out[0]


@snip
def collect_raise(s):
    out = []
    for p in s.split("#"):
        if p == "2":
            raise KeyError(p)
        if not p.isdigit():
            raise ValueError(p)
        out.append(p + "!")
    return out


@snip
def collect_raise2(s):
    out = []
    for p in s.split("#"):
        if p == "":
            continue
        if not p.isdigit():
            raise ValueError(p)
        out.append(p)
    return out


@snip
def comp_int(s):
    out = []
    for p in s.split("#"):
        if p == "7":
            raise KeyError(p)
        out.append(int(p))
    return out[0]


@snip
def loop_return(s):
    for c in s:
        if c not in VALID:
            return False
    return True


@snip
def loop_break(s):
    ok = True
    for c in s:
        if c not in VALID:
            ok = False
            break
    return ok


@snip
def loop_else(s):
    for c in s:
        if not (c.isdigit() or c == "#"):
            break
    else:
        return "good"
    return "bad"


@snip
def loop_flag(s):
    ok = True
    for c in s:
        ok = ok and c in VALID
    return ok


@snip
def loop_flag2(s):
    bad = False
    for c in s:
        if c not in VALID:
            bad = True
    return not bad


@snip
def loop_raise(s):
    for c in s:
        if c not in VALID:
            raise ValueError("no")
    return len(s)


@snip
def loop_which(s):
    for c in s:
        if c in "*#":
            return c
    return None


@snip
def loop_count(s):
    n = 0
    for c in s:
        if c == "#":
            n += 1
    return n


@snip
def sum_count(s):
    return sum(1 for c in s if c == "#")


@snip
def loop_while(s):
    i = 0
    while i < len(s):
        if s[i] not in VALID:
            return False
        i += 1
    return True


@snip
def loop_enumerate(s):
    for i, c in enumerate(s):
        if c == "#":
            return i
    return -1


@snip
def set_le(s):
    return set(s) <= VSET


@snip
def set_sub(s):
    return not set(s) - set(VALID)


@snip
def set_issuper(s):
    return VSET.issuperset(s)


@snip
def set_issub(s):
    return set(s).issubset(VALID)


@snip
def set_disjoint(s):
    return set("*a").isdisjoint(s)


@snip
def set_has(s):
    return "#" in set(s)


@snip
def strip_all(s):
    return not s.strip(VALID)


@snip
def strip_eq(s):
    return s.strip("#")


@snip
def lstrip0(s):
    return s.lstrip("0")


@snip
def rstrip_h(s):
    return s.rstrip("#")


@snip
def replaced(s):
    return s.replace("#", "").isdigit()


@snip
def isdec(s):
    return s.isdecimal(), s.isdigit(), s.isnumeric(), s.isascii(), s.isalnum(), s.isalpha()


@snip
def full(s):
    return re.fullmatch("[0-9#]*", s) is not None


@snip
def matched(s):
    m = re.match(r"^([0-9]+)#([0-9]+)$", s)
    return m and m.groups()


@snip
def splitted(s):
    return s.split("#")[0]


@snip
def splitrest(s):
    return s.split("#")[1:]


@snip
def splitlen(s):
    return len(s.split("#"))


@snip
def split1(s):
    return s.split("#", 1)


@snip
def rsplit1(s):
    return s.rsplit("#", 1)


@snip
def part(s):
    return s.partition("#")


@snip
def rpart(s):
    return s.rpartition("#")


@snip
def find(s):
    i = s.find("#")
    return s if i < 0 else s[:i]


@snip
def index_try(s):
    try:
        return s[: s.index("#")]
    except ValueError:
        return None


@snip
def rfind(s):
    return s[s.rfind("#") + 1 :]


@snip
def starred(s):
    first, *rest = s.split("*")
    return first, rest


@snip
def unpack2(s):
    a, b = s.split("#")
    return b + a


@snip
def starts(s):
    return s.startswith("*#"), s.startswith(("1", "2")), s.endswith("##")


@snip
def removes(s):
    return s.removeprefix("*"), s.removesuffix("##")


@snip
def slices(s):
    return s[1:], s[:-1], s[:2], s[-2:], s[1:-1]


@snip
def at0(s):
    return s[0], s[-1]


@snip
def eqs(s):
    return s == "12" or s in ("#", "1#2")


@snip
def indict(s):
    return {"1": "a", "12": "b"}.get(s, "none")


@snip
def to_int(s):
    return int(s)


@snip
def to_int_plus(s):
    return int(s) + 1 if s.isdigit() else -1


@snip
def int_back(s):
    return str(int(s)) == s if s.isascii() and s.isdigit() else None


@snip
def zfilled(s):
    return s.zfill(3)


@snip
def padded(s):
    return f"{s}#{s}"


@snip
def fmt(s):
    return "%s-%s" % (s, "x"), "{}{}".format(s, 1), "#".join([s, "5"])


@snip
def join_split(s):
    return "#".join(s.split("#"))


@snip
def join_list(s):
    return "*".join(["1", *s.split("#")])


@snip
def listcomp(s):
    return ["<" + p for p in s.split("#")]


@snip
def filt(s):
    return [p for p in s.split("#") if p]


@snip
def pieces_any(s):
    return any(p == "" for p in s.split("#"))


@snip
def pieces_all(s):
    return all(p.isdigit() for p in s.split("*"))


@snip
def pieces_loop(s):
    for p in s.split("*"):
        if not p:
            return True
    return False


@snip
def pieces_raise(s):
    out = []
    for p in s.split("#"):
        out.append(int(p))
    return out


@snip
def pieces_map(s):
    return list(map(len, s.split("#")))


@snip
def mapped_int(s):
    return [int(p) for p in s.split("#")]


@snip
def counted(s):
    return s.count("#")


@snip
def lens(s):
    return len(s) == 2, len(s) > 1, not s, bool(s)


@snip
def cmp0(s):
    return s < "5" if len(s) == 1 else None


@snip
def ranges(s):
    return "0" <= s <= "9" if len(s) == 1 else None


@snip
def walrus(s):
    if (n := s.count("*")) > 1:
        return n
    return 0


@snip
def matchstmt(s):
    match s.split("#"):
        case [a]:
            return ("one", a)
        case ["", b]:
            return ("par", b)
        case [a, b]:
            return ("two", a, b)
        case _:
            return ("many",)


@snip
def matchval(s):
    match s:
        case "1" | "7":
            return 1
        case "12":
            return 2
        case _:
            return 3


@snip
def tern(s):
    return "x" if s else "y"


@snip
def rev(s):
    return s.split("#")[::-1]


@snip
def revd(s):
    return list(reversed(s.split("#")))


@snip
def popd(s):
    p = s.split("#")
    p.pop(0)
    return p


@snip
def deld(s):
    p = s.split("#")
    del p[0]
    return p


@snip
def last(s):
    return s.split("#")[-1]


@snip
def second(s):
    return s.split("*")[1]


@snip
def lastbut(s):
    *xs, x = s.split("#")
    return x


@snip
def sliced(s):
    return s.split("*")[1:-1]


@snip
def it(s):
    i = iter(s.split("#"))
    return next(i)


@snip
def it_default(s):
    return next((p for p in s.split("#") if p), None)


@snip
def zipped(s):
    return [a + b for a, b in zip(s.split("#"), ["x", "y"])]


@snip
def dictz(s):
    return dict(zip(["a", "b"], s.split("#"))).get("b")


@snip
def tupled(s):
    return tuple(s.split("#"))


@snip
def tupeq(s):
    return tuple(s.split("#")) == ("1", "2")


@snip
def listadd(s):
    return ["0"] + s.split("#")


@snip
def enc(s):
    return s.encode("utf-8").decode()


@snip
def enc_ascii(s):
    try:
        return len(s.encode("ascii"))
    except UnicodeEncodeError:
        return "bad"


@snip
def bytes_split(s):
    return [p.decode() for p in s.encode().split(b"#")]


@snip
def bytes_part(s):
    return s.encode().partition(b"##")[0].decode()


@snip
def bytes_loop(s):
    for b in s.encode():
        if b == 35:
            return True
    return False


@snip
def multiply(s):
    return s * 2


@snip
def addself(s):
    return "*" + s + "##"


@snip
def lower(s):
    return s.lower() == "a"


@snip
def chained(s):
    return s.removeprefix("*").removesuffix("##").split("*")


@snip
def while_strip(s):
    while s.startswith("#"):
        s = s[1:]
    return s


@snip
def while_part(s):
    out = []
    while s:
        a, _, s = s.partition("#")
        out.append(a)
        if len(out) > 8:
            break
    return out


@snip
def nested_ifs(s):
    if not s:
        return "empty"
    if s[0] == "*":
        if s[1:2] == "#":
            return "dim"
        return "norm"
    return "other"


@snip
def fold_xor(s):
    x = 0
    for c in s:
        x ^= ord(c)
    return x > 1000000


@snip
def reduce_and(s):
    return functools.reduce(lambda a, c: a and c in VALID, s, True)


@snip
def filter_none(s):
    return list(filter(None, s.split("#")))


@snip
def sorted_len(s):
    return sorted(s.split("#")) == ["1", "2"]


@snip
def translate(s):
    return s.translate(str.maketrans("", "", "#"))


@snip
def translate2(s):
    return s.translate({ord("#"): None, ord("*"): "-"})


@snip
def upper(s):
    return s.upper()


@snip
def strjoin_chars(s):
    return "".join(c for c in s if c != "#")


@snip
def strjoin_all(s):
    return "".join(c for c in s)


@snip
def ord_all(s):
    return all(48 <= ord(c) <= 57 or ord(c) == 35 for c in s)


@snip
def takewhile(s):
    return "".join(itertools.takewhile(lambda c: c != "#", s))


@snip
def compiled(s):
    return bool(re.compile(r"\*#?(\d+)\*").match(s))


@snip
def resplit(s):
    return re.split("#", s)


@snip
def reall(s):
    return re.findall("[0-9]+", s)


@snip
def resub(s):
    return re.sub("#", "", s)


@snip
def try_int(s):
    try:
        return int(s)
    except ValueError:
        return None
    finally:
        pass


@snip
def int_cmp(s):
    try:
        n = int(s)
    except ValueError:
        return "no"
    if n < 0:
        return "neg"
    elif n >= 100:
        return "big"
    return n


@snip
def divm(s):
    return divmod(int(s), 60) if s.isascii() and s.isdigit() else None


@snip
def absolute(s):
    return abs(int(s)) if s.isascii() and s.isdigit() else None


@snip
def minmax(s):
    return max(0, min(100, int(s))) if s.isascii() and s.isdigit() else None


@snip
def rangein(s):
    return int(s) in range(0, 256) if s.isascii() and s.isdigit() else None


@snip
def hexs(s):
    return f"{int(s):02d}" if s.isascii() and s.isdigit() else None


@snip
def flt(s):
    return float(s) == 12.0 if s.isascii() and s.isdigit() else None


@snip
def identity_and(s):
    return s and s[0]


@snip
def identity_or(s):
    return s or "none"


def _native(f, w):
    try:
        return ("ok", f(w))
    except Exception as e:
        return ("exc", type(e).__name__)


EXPECT = {n: {w: _native(f, w) for w in W} for n, f in F.items()}


def _eq(vc, a, b):
    """a == b, deep, on possibly symbolic a."""
    if isinstance(b, (list, tuple)):
        if isinstance(b, list):
            a = [x for x in a]
        return len(a) == len(b) and all(_eq(vc, a[i], b[i]) for i in range(len(b)))
    if b is None or b is True or b is False:
        return (a is None) if b is None else (bool(a) == b)
    return a == b


@harness("T00", params=list(F), budget=15)
def snippet(vc, name):
    s = vc.text("s", "(.|\n)*", W)
    word = vc.choose("word", W)
    o = vc.outcome(F[name], s)
    vc.assume(s == word)
    kind, want = EXPECT[name][word]
    vc.check(o.kind == kind, "same kind of outcome")
    if kind == "ok":
        vc.check(_eq(vc, o.value, want), "same result")
    else:
        vc.check(type(o.value).__name__ == want, "same exception")
    vc.cover(word)
    vc.expect_cover(*W)


# ---------------------------------------------------------------------------- integers

N = [-1000001, -256, -61, -3, -1, 0, 1, 2, 3, 7, 12, 59, 60, 61, 99, 100, 255, 256, 3661, 65535, 10**12]
G = {}


def isnip(f):
    G[f.__name__] = f
    return f


@isnip
def i_div(n):
    return n // 7, n % 7, -n // 7, n // -7, n % -7


@isnip
def i_dm(n):
    return divmod(n, 60)


@isnip
def i_truedivint(n):
    return int(n / 1) == n if abs(n) < 10**6 else None


@isnip
def i_cmp(n):
    return 0 <= n <= 255, n < 0 or n > 99, n != 5, not n


@isnip
def i_text(n):
    return str(n), f'{n}', f'{n:02d}', f'{n:03d}'


@isnip
def i_back(n):
    return int(str(n)) == n


@isnip
def i_ab(n):
    return abs(n), -n, +n


@isnip
def i_mm(n):
    return max(0, min(100, n))


@isnip
def i_clock(n):
    return n // 3600, (n % 3600) // 60, n % 60


@isnip
def i_bit(n):
    return n & 255, n | 1, n ^ 3, ~n


@isnip
def i_sh(n):
    return n << 3, n >> 2


@isnip
def i_lookup(n):
    return {1: 'a', 7: 'b'}.get(n, 'c')


@isnip
def i_inlist(n):
    return n in (1, 7, 60), n in range(0, 100)


@isnip
def i_tern(n):
    return 'neg' if n < 0 else 'big' if n >= 100 else n


@isnip
def i_mul(n):
    return n * 3 - 1, (n + 1) * 2


@isnip
def i_sumr(n):
    return sum(i for i in range(0, 4)) + n


@isnip
def i_isin(n):
    return isinstance(n, int), isinstance(n, str), type(n) is int


@isnip
def i_zf(n):
    return str(n).zfill(3)


@isnip
def i_ln(n):
    return len(str(n)) if n >= 0 else -1


@isnip
def i_fmt(n):
    return '%d' % n, '%03d' % n, '{:d}'.format(n)


@isnip
def i_eqtext(n):
    return str(n) == '100'


@isnip
def i_split(n):
    return str(n).split('-')


@isnip
def i_pos(n):
    return str(n).isdigit()


@isnip
def i_xor0(n):
    return (n ^ 0x25280520) & 0xFFFFFFFF


@isnip
def i_rot(n):
    return ((n & 0xFFFFFFFF) << 25 | (n & 0xFFFFFFFF) >> 7) & 0xFFFFFFFF


@isnip
def i_hexa(n):
    return hex(n), f'{n:x}'


NEXPECT = {n: {w: _native(f, w) for w in N} for n, f in G.items()}


@harness("T00", params=list(G), budget=30)
def integer(vc, name):
    n = vc.int("n")
    k = vc.choose("k", [str(x) for x in N])
    o = vc.outcome(G[name], n)
    vc.assume(n == int(k))
    kind, want = NEXPECT[name][int(k)]
    vc.check(o.kind == kind, "same kind of outcome")
    if kind == "ok":
        vc.check(_eq(vc, o.value, want), "same result")
    vc.cover(k)
    vc.expect_cover(*[str(x) for x in N])
