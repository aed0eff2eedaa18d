"""Regular languages over Unicode code points: minimal complete DFAs.

Every string variable of the verifier ranges over one of these; all string facts the
code under contract branches on (prefixes, separators, regex matches, character classes)
are decided exactly on them, for strings of every length.
"""
import random
from functools import lru_cache

try:
    import re._parser as sre
    import re._constants as srec
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as srec

MAXC = 0x10FFFF


class Unsup(Exception):
    pass


class Lang:
    __slots__ = ("trans", "acc", "_h", "_cache")

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = acc
        self._h = hash((trans, acc))
        self._cache = {}

    def __eq__(self, o):
        return self is o or (isinstance(o, Lang) and self.trans == o.trans and self.acc == o.acc)

    def __hash__(self):
        return self._h

    def __deepcopy__(self, memo):
        return self

    # -- runs -----------------------------------------------------------------
    def step(self, q, c):
        for hi, t in self.trans[q]:
            if c <= hi:
                return t
        raise AssertionError

    def run(self, w, q=0):
        for ch in w:
            q = self.step(q, ord(ch))
        return q

    def __contains__(self, w):
        return self.acc[self.run(w)]

    @property
    def n(self):
        return len(self.acc)

    def is_empty(self):
        return self.n == 1 and not self.acc[0]

    def is_all(self):
        return self.n == 1 and self.acc[0]

    def is_eps(self):
        return self == EPS

    def live(self):
        """States from which acceptance is reachable."""
        if "live" not in self._cache:
            rev = [set() for _ in self.acc]
            for q, tr in enumerate(self.trans):
                for _, t in tr:
                    rev[t].add(q)
            todo = [q for q, a in enumerate(self.acc) if a]
            seen = set(todo)
            while todo:
                q = todo.pop()
                for p in rev[q]:
                    if p not in seen:
                        seen.add(p)
                        todo.append(p)
            self._cache["live"] = seen
        return self._cache["live"]

    def shortest(self):
        if self.is_empty():
            return None
        seen = {0: ""}
        todo = [0]
        if self.acc[0]:
            return ""
        while todo:
            nxt = []
            for q in todo:
                lo = 0
                for hi, t in self.trans[q]:
                    if t not in seen and t in self.live():
                        seen[t] = seen[q] + chr(_nice(lo, hi))
                        if self.acc[t]:
                            return seen[t]
                        nxt.append(t)
                    lo = hi + 1
            todo = nxt
        return None

    def singleton(self):
        """The only word of the language, if there is exactly one."""
        if "single" not in self._cache:
            r = None
            if not self.is_empty():
                q, w, ok, seen = 0, "", True, set()
                while True:
                    if q in seen:
                        ok = False
                        break
                    seen.add(q)
                    outs = []
                    lo = 0
                    for hi, t in self.trans[q]:
                        if t in self.live():
                            outs.append((lo, hi, t))
                        lo = hi + 1
                    if self.acc[q]:
                        ok = not outs
                        break
                    if len(outs) != 1 or outs[0][0] != outs[0][1]:
                        ok = False
                        break
                    w += chr(outs[0][0])
                    q = outs[0][2]
                if ok:
                    r = w
            self._cache["single"] = r
        return self._cache["single"]

    def lengths(self):
        """(min, max) word length; max None when unbounded, (None, None) when empty."""
        if "len" not in self._cache:
            if self.is_empty():
                self._cache["len"] = (None, None)
            else:
                lo = len(self.shortest())
                hi = None
                cur = {0}
                for k in range(self.n + 1):
                    if any(self.acc[q] for q in cur):
                        hi = k
                    cur = {t for q in cur for _, t in self.trans[q] if t in self.live()}
                    if not cur:
                        break
                else:
                    hi = None
                self._cache["len"] = (lo, hi)
        return self._cache["len"]

    def chars(self):
        """All code points occurring in some word, as an interval tuple."""
        if "chars" not in self._cache:
            out = []
            live = self.live()
            # every state of a minimal DFA is reachable
            for q, tr in enumerate(self.trans):
                lo = 0
                for hi, t in tr:
                    if q in live and t in live:
                        out.append((lo, hi))
                    lo = hi + 1
            self._cache["chars"] = _norm(out)
        return self._cache["chars"]

    def enumerate(self, limit):
        """All words if there are at most `limit`, else None."""
        mn, mx = self.lengths()
        if mn is None:
            return []
        if mx is None:
            return None
        out = []
        live = self.live()

        def go(q, w):
            if self.acc[q]:
                out.append(w)
                if len(out) > limit:
                    raise OverflowError
            lo = 0
            for hi, t in self.trans[q]:
                if t in live:
                    if hi - lo > limit:
                        raise OverflowError
                    for c in range(lo, hi + 1):
                        go(t, w + chr(c))
                lo = hi + 1

        try:
            go(0, "")
        except OverflowError:
            return None
        return sorted(out)

    def sample(self, rng, target=6):
        if self.is_empty():
            return None
        live = self.live()
        dist = self._dist()
        q, w = 0, ""
        for _ in range(10000):
            if self.acc[q] and (len(w) >= target or rng.random() < min(0.15, 1 / (target + 1))):
                return w
            outs = []
            lo = 0
            for hi, t in self.trans[q]:
                if t in live:
                    outs.append((lo, hi, t))
                lo = hi + 1
            if not outs:
                return w
            if len(w) >= target:
                best = min(dist[t] for _, _, t in outs)
                outs = [o for o in outs if dist[o[2]] == best]
            # prefer the narrow (ASCII) classes most of the time
            if rng.random() < 0.85:
                o2 = [o for o in outs if o[0] < 128]
                if o2:
                    outs = o2
            lo, hi, t = rng.choice(outs)
            w += chr(_pick(rng, lo, hi))
            q = t
        return w

    def _dist(self):
        if "dist" not in self._cache:
            d = {q: 0 for q, a in enumerate(self.acc) if a}
            ch = True
            while ch:
                ch = False
                for q in range(self.n):
                    for _, t in self.trans[q]:
                        if t in d and d[t] + 1 < d.get(q, 1 << 30):
                            d[q] = d[t] + 1
                            ch = True
            self._cache["dist"] = d
        return self._cache["dist"]

    # -- algebra ---------------------------------------------------------------
    def __and__(self, o):
        return _prod(self, o, "and")

    def __or__(self, o):
        return _prod(self, o, "or")

    def __sub__(self, o):
        return _prod(self, o, "sub")

    def __invert__(self):
        return _prod(ALL, self, "sub")

    def __add__(self, o):
        return concat(self, o)

    def __le__(self, o):
        return (self - o).is_empty()

    def disjoint(self, o):
        return (self & o).is_empty()

    def star(self):
        return _star(self)

    def plus(self):
        return concat(self, _star(self))

    def opt(self):
        return self | EPS

    def times(self, k):
        r = EPS
        for _ in range(k):
            r = concat(r, self)
        return r

    def between(self, p, qs):
        """{w : run(w, p) in qs}"""
        return _between(self, p, frozenset(qs))

    def deriv(self, w):
        q = self.run(w)
        return _between(self, q, frozenset(i for i, a in enumerate(self.acc) if a))

    def rquot(self, w):
        """{x : x + w in L}"""
        return _between(self, 0, frozenset(q for q in range(self.n) if self.acc[self.run(w, q)]))

    def reverse(self):
        return _reverse(self)

    def __repr__(self):
        if self.is_empty():
            return "Lang(empty)"
        return f"Lang({self.n} states, e.g. {self.shortest()!r})"


def _nice(lo, hi):
    for a, b in ((48, 57), (97, 122), (33, 126), (32, 126)):
        x = max(lo, a)
        if x <= min(hi, b):
            return x
    return lo


def _pick(rng, lo, hi):
    if hi - lo > 200:
        r = rng.random()
        a, b = max(lo, 32), min(hi, 126)
        if r < 0.7 and a <= b:
            return rng.randint(a, b)
        if r < 0.9 and lo <= min(hi, 0x7FF):
            return rng.randint(lo, min(hi, 0x7FF))
        c = rng.randint(lo, hi)
        return c if not 0xD800 <= c <= 0xDFFF else lo
    return rng.randint(lo, hi)


def _norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def _explore(start, step, accept):
    """Generic construction: step(state) -> ((hi, target), ...) covering 0..MAXC."""
    index = {start: 0}
    order = [start]
    trans, acc = [], []
    i = 0
    while i < len(order):
        s = order[i]
        row = []
        for hi, t in step(s):
            if t not in index:
                index[t] = len(order)
                order.append(t)
                if len(order) > 4000:
                    raise Unsup("automaton too large")
            k = index[t]
            if row and row[-1][1] == k:
                row[-1] = (hi, k)
            else:
                row.append((hi, k))
        trans.append(row)
        acc.append(bool(accept(s)))
        i += 1
    return _minimise(trans, acc)


def _minimise(trans, acc):
    n = len(acc)
    block = [1 if a else 0 for a in acc]
    nb = len(set(block))
    while True:
        sig = {}
        new = []
        for q in range(n):
            row = []
            for hi, t in trans[q]:
                b = block[t]
                if row and row[-1][1] == b:
                    row[-1] = (hi, b)
                else:
                    row.append((hi, b))
            key = (block[q], tuple(row))
            new.append(sig.setdefault(key, len(sig)))
        block = new
        if len(sig) == nb:
            break
        nb = len(sig)
    # canonical numbering by BFS
    rep = {}
    for q in range(n):
        rep.setdefault(block[q], q)
    num = {block[0]: 0}
    order = [block[0]]
    out, oacc = [], []
    i = 0
    while i < len(order):
        q = rep[order[i]]
        row = []
        for hi, t in trans[q]:
            b = block[t]
            if b not in num:
                num[b] = len(order)
                order.append(b)
            k = num[b]
            if row and row[-1][1] == k:
                row[-1] = (hi, k)
            else:
                row.append((hi, k))
        out.append(tuple(row))
        oacc.append(acc[q])
        i += 1
    return _intern(tuple(out), tuple(oacc))


_table = {}


def _intern(trans, acc):
    k = (trans, acc)
    r = _table.get(k)
    if r is None:
        r = _table[k] = Lang(trans, acc)
    return r


def _merge(r1, r2):
    i = j = 0
    while i < len(r1):
        h1, t1 = r1[i]
        h2, t2 = r2[j]
        hi = h1 if h1 < h2 else h2
        yield hi, (t1, t2)
        if h1 == hi:
            i += 1
        if h2 == hi:
            j += 1


@lru_cache(maxsize=200000)
def _prod(a, b, op):
    if op == "and":
        f = lambda x, y: x and y
    elif op == "or":
        f = lambda x, y: x or y
    else:
        f = lambda x, y: x and not y
    return _explore(
        (0, 0),
        lambda s: list(_merge(a.trans[s[0]], b.trans[s[1]])),
        lambda s: f(a.acc[s[0]], b.acc[s[1]]),
    )


@lru_cache(maxsize=200000)
def _between(a, p, qs):
    return _explore(p, lambda s: a.trans[s], lambda s: s in qs)


class NFA:
    def __init__(self):
        self.eps = []
        self.edges = []

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def closure(self, ss):
        seen = set(ss)
        todo = list(ss)
        while todo:
            s = todo.pop()
            for t in self.eps[s]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def to_lang(self, start, ends):
        ends = set(ends)

        def step(S):
            pts = {MAXC}
            es = []
            for s in S:
                for lo, hi, t in self.edges[s]:
                    es.append((lo, hi, t))
                    pts.add(hi)
                    if lo > 0:
                        pts.add(lo - 1)
            out = []
            for hi in sorted(pts):
                tg = {t for a, b, t in es if a <= hi <= b}
                out.append((hi, self.closure(tg)))
            return out

        return _explore(self.closure([start]), step, lambda S: bool(S & ends))

    def embed(self, lang):
        base = [self.new() for _ in range(lang.n)]
        live = lang.live()
        for q in range(lang.n):
            lo = 0
            for hi, t in lang.trans[q]:
                if q in live and t in live:
                    self.edges[base[q]].append((lo, hi, base[t]))
                lo = hi + 1
        return base[0], [base[q] for q in range(lang.n) if lang.acc[q]]


@lru_cache(maxsize=100000)
def concat(a, b):
    if a.is_eps():
        return b
    if b.is_eps():
        return a
    n = NFA()
    s1, e1 = n.embed(a)
    s2, e2 = n.embed(b)
    for e in e1:
        n.eps[e].append(s2)
    return n.to_lang(s1, e2)


@lru_cache(maxsize=10000)
def _star(a):
    n = NFA()
    s = n.new()
    s1, e1 = n.embed(a)
    n.eps[s].append(s1)
    for e in e1:
        n.eps[e].append(s)
    return n.to_lang(s, [s])


@lru_cache(maxsize=10000)
def _reverse(a):
    n = NFA()
    base = [n.new() for _ in range(a.n)]
    s = n.new()
    for q in range(a.n):
        lo = 0
        for hi, t in a.trans[q]:
            n.edges[base[t]].append((lo, hi, base[q]))
            lo = hi + 1
    for q, ac in enumerate(a.acc):
        if ac:
            n.eps[s].append(base[q])
    return n.to_lang(s, [base[0]])


def _chars_lang(iv):
    iv = _norm(iv)
    row = []
    prev = -1
    for lo, hi in iv:
        if lo > prev + 1:
            row.append((lo - 1, 2))
        row.append((hi, 1))
        prev = hi
    if prev < MAXC:
        row.append((MAXC, 2))
    return _minimise([row, [(MAXC, 2)], [(MAXC, 2)]], [False, True, False])


def charset(chars):
    """One character out of `chars` (a string or an interval list)."""
    if isinstance(chars, str):
        iv = [(ord(c), ord(c)) for c in chars]
    else:
        iv = list(chars)
    if not iv:
        return EMPTY
    return _chars_lang(iv)


@lru_cache(maxsize=100000)
def lit(w):
    trans = []
    n = len(w)
    for i, ch in enumerate(w):
        c = ord(ch)
        row = []
        if c > 0:
            row.append((c - 1, n + 1))
        row.append((c, i + 1))
        if c < MAXC:
            row.append((MAXC, n + 1))
        trans.append(row)
    trans.append([(MAXC, n + 1)])
    trans.append([(MAXC, n + 1)])
    return _minimise(trans, [False] * n + [True, False])


def words(ws):
    r = EMPTY
    for w in ws:
        r = r | lit(w)
    return r


EMPTY = _intern((((MAXC, 0),),), (False,))
ALL = _intern((((MAXC, 0),),), (True,))
EPS = lit("")
ANY = charset([(0, MAXC)])


@lru_cache(maxsize=None)
def py_class(name):
    """Code points c for which chr(c).<name>() holds."""
    out = []
    start = None
    for c in range(MAXC + 1):
        ok = getattr(chr(c), name)()
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXC))
    return charset(out)


def invert_iv(iv):
    out = []
    lo = 0
    for a, b in _norm(iv):
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
    if lo <= MAXC:
        out.append((lo, MAXC))
    return out


# -- occurrences -------------------------------------------------------------


@lru_cache(maxsize=1000)
def kmp(sep):
    """Transition function of the matcher for sep: states 0..len(sep)."""
    m = len(sep)
    fail = [0] * (m + 1)
    k = 0
    for i in range(1, m):
        while k and sep[i] != sep[k]:
            k = fail[k]
        if sep[i] == sep[k]:
            k += 1
        fail[i + 1] = k

    def step(q, ch):
        while True:
            if q < m and sep[q] == ch:
                return q + 1
            if q == 0:
                return 0
            q = fail[q]

    return step


@lru_cache(maxsize=1000)
def first_hit(sep, start=0):
    """(completes, state langs): `hit` = words on which the matcher started in `start` first
    completes sep exactly at their end; `miss[j]` = words without completion ending in state j."""
    m = len(sep)
    step = kmp(sep)
    pts = sorted({ord(c) for c in sep})

    def row(q):
        if q == m or q == m + 1:
            return [(MAXC, m + 1)]
        out = []
        prev = -1
        for p in pts:
            if p > prev + 1:
                out.append((p - 1, step(q, "\0" if "\0" not in sep else "\1")))
            out.append((p, step(q, chr(p))))
            prev = p
        if prev < MAXC:
            out.append((MAXC, 0))
        return out

    def mk(acc):
        return _explore(start, row, lambda q: q in acc)

    # states other than the separator characters always fall back to 0
    return mk({m}), [mk({j}) for j in range(m)]


@lru_cache(maxsize=1000)
def containing(w):
    if w == "":
        return ALL
    return ALL + lit(w) + ALL


@lru_cache(maxsize=1000)
def count_lang(sep, k):
    """Texts in which sep occurs exactly k times (str.count, non-overlapping)."""
    hit, miss = first_hit(sep)
    no = EMPTY
    for x in miss:
        no = no | x
    r = no
    for _ in range(k):
        r = hit + r
    return r


def piece_lang(sep):
    """Pieces of str.split(sep) that are followed by the separator."""
    hit, _ = first_hit(sep)
    return hit.rquot(sep)


@lru_cache(maxsize=None)
def split_pieces(text, sep):
    """Every piece str.split(sep) can give for some text of the language."""
    hit, _ = first_hit(sep)
    pl, ns = piece_lang(sep), nosep(sep)
    live = text.live()
    starts, todo = {0}, [0]
    while todo:
        q = todo.pop()
        # product of the text from q with the first-hit automaton
        seen, st = {(q, 0)}, [(q, 0)]
        while st:
            a, b = st.pop()
            if hit.acc[b] and a in live and a not in starts:
                starts.add(a)
                todo.append(a)
            for _, (x, y) in _merge(text.trans[a], hit.trans[b]):
                if x in live and y in hit.live() and (x, y) not in seen:
                    seen.add((x, y))
                    st.append((x, y))
    accs = {i for i in range(text.n) if text.acc[i]}
    before = {i for i in range(text.n) if text.run(sep, i) in live}
    r = EMPTY
    for q in starts:
        r = r | (pl & text.between(q, before)) | (ns & text.between(q, accs))
    return r


def nosep(sep):
    return ~containing(sep)


# -- regular expressions -------------------------------------------------------

_CAT = {
    srec.CATEGORY_DIGIT: ("isdecimal", False),
    srec.CATEGORY_NOT_DIGIT: ("isdecimal", True),
    srec.CATEGORY_SPACE: ("isspace", False),
    srec.CATEGORY_NOT_SPACE: ("isspace", True),
}


def _cat_iv(cat, ascii_):
    if cat in (srec.CATEGORY_DIGIT, srec.CATEGORY_NOT_DIGIT):
        iv = [(48, 57)] if ascii_ else list(py_class("isdecimal").chars())
        return invert_iv(iv) if cat == srec.CATEGORY_NOT_DIGIT else iv
    if cat in (srec.CATEGORY_SPACE, srec.CATEGORY_NOT_SPACE):
        iv = [(9, 13), (32, 32)] if ascii_ else list(py_class("isspace").chars())
        return invert_iv(iv) if cat == srec.CATEGORY_NOT_SPACE else iv
    if cat in (srec.CATEGORY_WORD, srec.CATEGORY_NOT_WORD):
        if ascii_:
            iv = [(48, 57), (65, 90), (95, 95), (97, 122)]
        else:
            iv = list(py_class("isalnum").chars()) + [(95, 95)]
        return invert_iv(iv) if cat == srec.CATEGORY_NOT_WORD else list(_norm(iv))
    raise Unsup("regex category")


@lru_cache(maxsize=1000)
def regex(pattern, flags=0, mode="fullmatch"):
    """Language of strings for which re.<mode>(pattern, s) succeeds."""
    import re

    if isinstance(pattern, bytes):
        pattern = pattern.decode("latin-1")
        flags |= re.ASCII
    if flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE):
        raise Unsup("regex flags")
    p = sre.parse(pattern, flags)
    ascii_ = bool(flags & re.ASCII)
    NL = lit("\n")

    def seq(items):
        # returns (lang, begin_anchored, end_anchored)
        items = list(items)
        beg = False
        while items and items[0][0] is srec.AT and items[0][1] in (srec.AT_BEGINNING, srec.AT_BEGINNING_STRING):
            items.pop(0)
            beg = True
        end = None
        while items and items[-1][0] is srec.AT and items[-1][1] in (srec.AT_END, srec.AT_END_STRING):
            end = items.pop()[1] if end is None else (items.pop()[1], end)[1]
        r = EPS
        for op, av in items:
            r = r + one(op, av)
        return r, beg, end

    def plain(items):
        r, b, e = seq(items)
        if b or e is not None:
            raise Unsup("inner anchor")
        return r

    def one(op, av):
        if op is srec.LITERAL:
            return lit(chr(av))
        if op is srec.NOT_LITERAL:
            return charset(invert_iv([(av, av)]))
        if op is srec.ANY:
            return ANY if flags & re.DOTALL else charset(invert_iv([(10, 10)]))
        if op is srec.IN:
            iv, neg = [], False
            for o, a in av:
                if o is srec.NEGATE:
                    neg = True
                elif o is srec.LITERAL:
                    iv.append((a, a))
                elif o is srec.RANGE:
                    iv.append(tuple(a))
                elif o is srec.CATEGORY:
                    iv += _cat_iv(a, ascii_)
                else:
                    raise Unsup("regex set")
            return charset(invert_iv(iv) if neg else list(_norm(iv)))
        if op in (srec.MAX_REPEAT, srec.MIN_REPEAT):
            lo, hi, sub = av
            l = plain(sub)
            r = l.times(lo)
            if hi is srec.MAXREPEAT:
                return r + l.star()
            if hi - lo > 60:
                raise Unsup("large repeat")
            t = EPS
            for _ in range(hi - lo):
                t = (l + t) | EPS
            return r + t
        if op is srec.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsup("inline flags")
            return plain(av[3])
        if op is srec.BRANCH:
            r = EMPTY
            for s in av[1]:
                r = r | plain(s)
            return r
        raise Unsup(f"regex {op}")

    items = list(p)
    if len(items) == 1 and items[0][0] is srec.BRANCH:
        alts = [seq(s) for s in items[0][1][1]]
    else:
        alts = [seq(items)]
    out = EMPTY
    for l, beg, end in alts:
        if mode == "search" and not beg:
            l = ALL + l
        if end is None:
            if mode != "fullmatch":
                l = l + ALL
        elif end is srec.AT_END and mode != "fullmatch":
            l = l + NL.opt()
        out = out | l
    return out


DIGIT = charset("0123456789")
DIGITS = DIGIT.plus()


@lru_cache(maxsize=None)
def int_literal(base=10):
    """Texts int(s, base) accepts (without prefix notation)."""
    ws = py_class("isspace")
    dec = py_class("isdecimal")
    if base <= 10:
        # decimal digits of any script whose value is below the base
        iv = [(c, c) for a, b in dec.chars() for c in range(a, b + 1) if int(chr(c)) < base]
        d = charset(_norm(iv))
        body = d + (lit("_").opt() + d).star()
        pre = {2: ["0b", "0B"], 8: ["0o", "0O"]}.get(base, [])
    elif base == 16:
        d = charset(list(dec.chars()) + [(65, 70), (97, 102)])
        body = d + (lit("_").opt() + d).star()
        pre = ["0x", "0X"]
    else:
        raise Unsup("int base")
    if pre:
        body = body | (words(pre) + lit("_").opt() + body)
    return ws.star() + charset("+-").opt() + body + ws.star()


@lru_cache(maxsize=None)
def float_literal_plain():
    """Digit-only texts; the rest of float()'s grammar is not modelled."""
    return DIGITS
