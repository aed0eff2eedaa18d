"""Symbolic values.

Strings are concatenations of concrete text and atoms.  Each atom ranges over a regular
language (ctx.dom) and atoms are mutually independent: every string fact is turned into a
refinement (smaller language) or a substitution (atom := concatenation), so the string part
of a path condition is always in solved form.  Integers and Booleans are z3 terms.
"""
import z3

from . import core
from . import lang as L
from .core import Unsupported, ctx, simp, unsupported


def conv(f):
    """Errors of the language layer are engine limits, never program exceptions."""

    def g(*a, **k):
        try:
            return f(*a, **k)
        except L.Unsup as e:
            raise Unsupported(str(e))

    g.__name__ = f.__name__
    return g


class Sym:
    """Marker base class; native use of a symbolic value is an engine limit."""

    __slots__ = ()

    def __hash__(self):
        unsupported(f"native hash of {type(self).__name__}")

    def __str__(self):
        unsupported(f"native str() of {type(self).__name__}")

    def __format__(self, spec):
        unsupported(f"native format of {type(self).__name__}")

    def __iter__(self):
        unsupported(f"native iteration over {type(self).__name__}")

    def __len__(self):
        unsupported(f"native len of {type(self).__name__}")

    def __index__(self):
        unsupported(f"native index from {type(self).__name__}")

    __int__ = __float__ = __index__

    def __contains__(self, x):
        unsupported(f"native 'in' on {type(self).__name__}")

    def __getitem__(self, i):
        unsupported(f"native subscript of {type(self).__name__}")

    def __setitem__(self, i, v):
        unsupported(f"native item assignment on {type(self).__name__}")

    def __delitem__(self, i):
        unsupported(f"native item deletion on {type(self).__name__}")

    def __reversed__(self):
        unsupported(f"native reversed() of {type(self).__name__}")

    def __next__(self):
        unsupported(f"native next() on {type(self).__name__}")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        unsupported("pickling a symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, slice):
        return has_sym(x.start, 0) or has_sym(x.stop, 0)
    return False


# ============================================================================ booleans


class StrEq:
    """Undecided equality of two strings (kept out of the SMT layer)."""

    __slots__ = ("a", "b", "neg")

    def __init__(self, a, b, neg=False):
        self.a, self.b, self.neg = a, b, neg


class SymBool(Sym):
    __slots__ = ("cond",)

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return fork(self.cond)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else mknot(self)
        if isinstance(o, SymBool):
            return mkbool(zcond(self) == zcond(o))
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(zcond(self), zcond(o)))
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(zcond(self), zcond(o)))
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(zcond(self), zcond(o)))

    __rxor__ = __xor__

    def __add__(self, o):
        return as_int(self) + o

    def __radd__(self, o):
        return as_int(self) + o

    def __sub__(self, o):
        return as_int(self) - o

    def __rsub__(self, o):
        return o - as_int(self)

    def __mul__(self, o):
        return as_int(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.cond})"


def zcond(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        if isinstance(x.cond, StrEq):
            return z3.BoolVal(bool(x))  # decided by forking
        return x.cond
    if isinstance(x, z3.BoolRef):
        return x
    unsupported(f"not a condition: {type(x).__name__}")


def mkbool(c):
    c = simp(c)
    return c if isinstance(c, bool) else SymBool(c)


def mknot(x):
    if isinstance(x, bool):
        return not x
    if x is NotImplemented:
        return x
    if isinstance(x, SymBool):
        if isinstance(x.cond, StrEq):
            return SymBool(StrEq(x.cond.a, x.cond.b, not x.cond.neg))
        return mkbool(z3.Not(x.cond))
    return not x


def fork(c):
    if isinstance(c, SymBool):
        c = c.cond
    if isinstance(c, bool):
        return c
    if isinstance(c, StrEq):
        r = fork_streq(c.a, c.b)
        return (not r) if c.neg else r
    return ctx().fork(c)


def truth(x):
    """Python truthiness of any value, forking."""
    if isinstance(x, Sym):
        return bool(x)
    return bool(x)


# ============================================================================ integers


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def _bin(self, o, f, rev=False):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymBV):
            unsupported("mixing bit-vector and integer terms")
        a, b = (self.e, zint(o))
        return mkint(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            unsupported("repetition by a symbolic count")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _posconst(self, o):
        o = as_int(o)
        if isinstance(o, int) and o > 0:
            return o
        unsupported("division by a symbolic or non-positive value")

    def __floordiv__(self, o):
        return mkint(self.e / self._posconst(o))

    def __mod__(self, o):
        return mkint(self.e % self._posconst(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        unsupported("division by a symbolic value")

    __rmod__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __rfloordiv__

    def _cmp(self, o, f):
        if isinstance(o, float) and not isinstance(o, bool):
            if o != o or o in (float("inf"), float("-inf")):
                unsupported("comparison with a special float")
            return mkbool(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        o = as_int(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.e, zint(o)))

    def __eq__(self, o):
        if as_int(o) is None and not isinstance(o, float):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = Sym.__hash__

    def _bits(self, o, f, name):
        unsupported(f"bitwise {name} on an unbounded integer")

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mkint(self.e * (1 << o))
        unsupported("shift by symbolic amount")

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mkint(self.e / (1 << o))
        unsupported("shift by symbolic amount")

    def __and__(self, o):
        o = as_int(o)
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))  # a mask of low ones
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return mkint((self.e / o) % 2 * o)  # a single bit
        unsupported("bitwise and on an unbounded integer")

    __rand__ = __and__

    def __or__(self, o):
        unsupported("bitwise or on an unbounded integer")

    __ror__ = __xor__ = __rxor__ = __or__

    def __invert__(self):
        return mkint(-self.e - 1)

    def __repr__(self):
        return f"SymInt({self.e})"

    # int methods
    def bit_length(self):
        unsupported("bit_length")

    def conjugate(self):
        return self

    real = property(lambda s: s)


def mkint(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(zcond(x), z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymBV):
        return z3.BV2Int(x.e, is_signed=True)
    unsupported(f"not an integer: {type(x).__name__}")


def as_int(x):
    """int, SymInt or SymBV if x is integer-like, else None."""
    if isinstance(x, (bool,)):
        return int(x)
    if isinstance(x, (int, SymInt, SymBV)):
        return x
    if isinstance(x, SymBool):
        return SymInt(z3.If(zcond(x), z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SymLen):
        return x.as_int()
    if isinstance(x, SymOrd):
        return x.value()
    return None


class SymBV(Sym):
    """An exact integer held in a two's complement vector wide enough for it."""

    __slots__ = ("e",)

    def __init__(self, e):
        e = z3.simplify(e)
        if e.size() > 512:
            unsupported("bit vector too wide")
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e != 0)

    @staticmethod
    def of(x):
        if isinstance(x, SymBV):
            return x.e
        if isinstance(x, SymBool):
            return z3.If(zcond(x), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
        if isinstance(x, (bool, int)):
            x = int(x)
            return z3.BitVecVal(x, max(2, x.bit_length() + 1))
        unsupported("mixing bit-vector and integer terms")

    @staticmethod
    def ext(a, w):
        return z3.SignExt(w - a.size(), a) if w > a.size() else a

    @classmethod
    def pair(cls, a, b, extra=0):
        a, b = cls.of(a), cls.of(b)
        w = max(a.size(), b.size()) + extra
        return cls.ext(a, w), cls.ext(b, w)

    def shrink(self):
        return self

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            # the result fits the mask: keep it narrow
            a, b = self.pair(self, o)
            w = o.bit_length() + 1
            r = a & b
            return mkbv(z3.Extract(w - 1, 0, r) if w < r.size() else r)
        a, b = self.pair(self, o)
        return mkbv(a & b)

    __rand__ = __and__

    def __or__(self, o):
        a, b = self.pair(self, o)
        return mkbv(a | b)

    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.pair(self, o)
        return mkbv(a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return mkbv(~self.e)

    def __lshift__(self, o):
        if not isinstance(o, int) or o < 0 or o > 300:
            unsupported("shift amount")
        return mkbv(self.ext(self.e, self.e.size() + o) << o)

    def __rshift__(self, o):
        if not isinstance(o, int) or o < 0:
            unsupported("shift amount")
        if o >= self.e.size():
            o = self.e.size() - 1
        return mkbv(self.e >> o)

    def __rlshift__(self, o):
        unsupported("shift by symbolic amount")

    __rrshift__ = __rlshift__

    def __add__(self, o):
        a, b = self.pair(self, o, 1)
        return mkbv(a + b)

    __radd__ = __add__

    def __sub__(self, o):
        a, b = self.pair(self, o, 1)
        return mkbv(a - b)

    def __rsub__(self, o):
        a, b = self.pair(o, self, 1)
        return mkbv(a - b)

    def __mul__(self, o):
        a, b = self.of(self), self.of(o)
        w = a.size() + b.size()
        return mkbv(self.ext(a, w) * self.ext(b, w))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def _pow2(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return o.bit_length() - 1
        unsupported("division of a bit vector")

    def __mod__(self, o):
        self._pow2(o)
        return self & (o - 1)

    def __floordiv__(self, o):
        return self >> self._pow2(o)

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        if as_int(o) is None:
            return NotImplemented
        a, b = self.pair(self, o, 1)
        return mkbool(f(a, b))

    def __eq__(self, o):
        if as_int(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"SymBV({self.e})"


def mkbv(e):
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_signed_long()
    return SymBV(s)


class SymFloat(Sym):
    """float(text): determined by the text alone; comparisons go through the text."""

    __slots__ = ("text", "iv")

    def __init__(self, text, iv):
        self.text = text
        self.iv = iv  # integer value of the digits

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            r = self.text == o.text
            if r is True:
                return True
            return self.iv == o.iv
        if isinstance(o, (int, SymInt)) and not isinstance(o, bool):
            return self.iv == o
        if isinstance(o, float):
            if o == int(o):
                return self.iv == int(o)
            return False
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return truth(self.iv != 0)

    def _no(self, *a):
        unsupported("arithmetic on a symbolic float")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __floordiv__ = __mod__ = _no


class SymHash(Sym):
    """hash(value): equal content gives equal hashes, nothing else is known."""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        if not isinstance(o, SymHash):
            if isinstance(o, int) and getattr(o, "key", None) is not None:
                return hash_keys_equal(self.key, o.key)
            if isinstance(o, int):
                unsupported("comparing a symbolic hash with a number")
            return False
        return hash_keys_equal(self.key, o.key)

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = Sym.__hash__


def hash_keys_equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if not truth(hash_keys_equal(x, y)):
                return False
        return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    from . import rt

    return rt.eq(a, b)


# ============================================================================ strings


class Atom:
    __slots__ = ("name", "num", "width", "origin")

    def __init__(self, name, num=None, width=0):
        self.name = name
        self.num = num  # SymInt/SymBV rendered by this atom (non-negative decimal)
        self.width = width
        self.origin = None

    def __repr__(self):
        return f"<{self.name}>"

    def __deepcopy__(self, memo):
        return self


def new_atom(name, dom, num=None, width=0):
    c = ctx()
    a = Atom(c.fresh_name(name), num, width)
    c.dom[a] = dom
    return a


def resolve(parts):
    c = ctx()
    out = []
    todo = list(reversed(parts))
    while todo:
        p = todo.pop()
        if isinstance(p, Atom):
            if p in c.subst:
                todo.extend(reversed(c.subst[p]))
                continue
            s = c.dom[p].singleton()
            if s is not None:
                p = s
            else:
                out.append(p)
                continue
        if p == "":
            continue
        if out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def dom(p):
    return L.lit(p) if isinstance(p, str) else ctx().dom[p]


def parts_lang(parts):
    r = L.EPS
    for p in resolve(parts):
        r = r + dom(p)
    return r


def bind(atom, parts):
    c = ctx()
    if atom.num is not None:
        ps = resolve(parts)
        if all(isinstance(p, str) for p in ps):
            w = "".join(ps)
            if w not in c.dom[atom]:
                raise core.Infeasible()
            c.assume(_num_eq(atom, int(w)))
            c.dom[atom] = L.lit(w)
            c.check_diseqs()
            return
        unsupported("splitting the decimal text of an integer")
    c.subst[atom] = tuple(parts)
    lv = c.lenvar.get(atom)
    if lv is not None:
        c.add(lv == len_term(parts))
    for dv in c.digitvar.get(atom, ()):
        v = int_of(parts, dv[1])
        c.add(dv[0] == zint(v))
    c.check_diseqs()


def spell_out(atom):
    """Replace the decimal text of an integer by its digits (forking over their number)."""
    c = ctx()
    mn, mx = c.dom[atom].lengths()
    if mx is None or mx > 9 or isinstance(atom.num, SymBV):
        # any text of the language: that it is the text of this number is forgotten (over-approximation), except what is
        # decided about the words it was compared with
        c.approx = True
        d = c.dom[atom]
        for w in sorted(c.memo.get(("compared", atom), ())):
            q = _as_z(_num_eq(atom, int(w)))
            if c.valid(q):
                d = d & L.lit(w)
            elif c.valid(z3.Not(q)):
                d = d - L.lit(w)
        c.subst[atom] = (new_atom("digits", d),)
        lv = c.lenvar.get(atom)
        if lv is not None:
            c.add(lv == len_term(c.subst[atom]))
        c.check_diseqs()
        return
    w = max(atom.width, 1)
    n = zint(atom.num)
    ks = [k for k in range(max(mn, w), mx + 1) if not (c.dom[atom] & L.DIGIT.times(k)).is_empty()]
    if not ks:
        raise core.Infeasible()
    conds = [n < 10**k if k == w else z3.And(n >= 10 ** (k - 1), n < 10**k) for k in ks]
    j = c.decide(conds) if len(ks) > 1 else 0
    if len(ks) == 1:
        c.assume(conds[0])
    k = ks[j]
    ds = []
    tot = z3.IntVal(0)
    for i in range(k):
        a = new_atom("digit", L.charset("123456789") if i == 0 and k > w else L.DIGIT)
        ds.append(a)
        tot = tot * 10 + _digitvar(a, 10)
    c.add(n == tot)
    c.subst[atom] = tuple(ds)
    lv = c.lenvar.get(atom)
    if lv is not None:
        c.add(lv == k)
    c.check_diseqs()


def _num_eq(atom, n):
    if isinstance(atom.num, SymBV):
        r = atom.num == n
        return r.cond if isinstance(r, SymBool) else r
    return zint(atom.num) == n


def refine(atom, new):
    """Narrow an atom's language to `new` (a subset of the current one)."""
    c = ctx()
    old = c.dom[atom]
    if new == old:
        return
    if new.is_empty():
        raise core.Infeasible()
    if atom.num is not None:
        c.assume(num_cond(atom, new, old))
    c.dom[atom] = new
    lv = c.lenvar.get(atom)
    if lv is not None:
        c.add(_len_facts(lv, new))
    for dv in c.digitvar.get(atom, ()):
        f = _digit_facts(dv[0], dv[1], new)
        if f is not None:
            c.add(f)
    c.check_diseqs()


def num_cond(atom, new, old):
    """z3 condition for the decimal text of atom.num to lie in `new`, given it lies in `old`."""
    if new == old:
        return True
    if new.is_empty():
        return False
    ws = new.enumerate(300)
    if ws is not None:
        return z3.Or([_as_z(_num_eq(atom, int(w))) for w in ws])
    ws = (old - new).enumerate(300)
    if ws is not None:
        return z3.Not(z3.Or([_as_z(_num_eq(atom, int(w))) for w in ws]))
    # by number of digits
    mn, mx = new.lengths()
    for k in range(1, 12):
        kd = L.DIGIT.times(k) + L.DIGIT.star()
        if (old & kd) == new:
            return zint(atom.num) >= 10 ** (k - 1)
        if (old - kd) == new:
            return zint(atom.num) < 10 ** (k - 1)
        d1 = old & (L.DIGIT.times(k))
        if d1 == new:
            return z3.And(zint(atom.num) >= (10 ** (k - 1) if k > 1 else 0), zint(atom.num) < 10**k)
    # not expressed on the number: the text is narrowed, the number left free (over-approximation)
    ctx().approx = True
    return True


def _as_z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def _len_facts(lv, d):
    mn, mx = d.lengths()
    cs = [lv >= mn]
    if mx is not None:
        cs.append(lv <= mx)
    return z3.And(cs)


def len_term(parts):
    c = ctx()
    n = z3.IntVal(0)
    for p in resolve(parts):
        if isinstance(p, str):
            n = n + len(p)
        else:
            mn, mx = c.dom[p].lengths()
            if mn == mx:
                n = n + mn
                continue
            lv = c.lenvar.get(p)
            if lv is None:
                lv = c.lenvar[p] = z3.Int(c.fresh_name("len_" + p.name))
                c.add(_len_facts(lv, c.dom[p]))
            n = n + lv
    return n


# -- membership ---------------------------------------------------------------


def _seqs(parts, lang):
    """Alternatives (refinements, accepted) partitioning the values of `parts` by membership."""
    c = ctx()
    parts = resolve(parts)
    # post[i][q]: outcomes possible from state q before part i
    n = len(parts)
    memo = {}

    def status(i, q):
        k = (i, q)
        if k in memo:
            return memo[k]
        if i == n:
            r = "A" if lang.acc[q] else "R"
        elif isinstance(parts[i], str):
            r = status(i + 1, lang.run(parts[i], q))
        else:
            rs = {status(i + 1, t) for t in _targets(c.dom[parts[i]], lang, q)}
            r = rs.pop() if len(rs) == 1 else "M"
        memo[k] = r
        return r

    out = []

    def go(i, q, ref):
        st = status(i, q)
        if st != "M":
            out.append((ref, st == "A"))
            return
        p = parts[i]
        if isinstance(p, str):
            go(i + 1, lang.run(p, q), ref)
            return
        d = ref.get(p, c.dom[p])
        groups = {}
        for t in _targets(d, lang, q):
            s = status(i + 1, t)
            groups.setdefault(s if s != "M" else t, set()).add(t)
        for g, ts in groups.items():
            d2 = d & lang.between(q, ts)
            if d2.is_empty():
                continue
            r2 = dict(ref)
            r2[p] = d2
            go(i + 1, min(ts), r2)
        if len(out) > 600:
            unsupported("too many string cases")

    go(0, 0, {})
    return out


_tcache = {}


def _targets(d, lang, q):
    k = (d, lang, q)
    r = _tcache.get(k)
    if r is None:
        # product reachability
        seen = {(0, q)}
        todo = [(0, q)]
        r = set()
        while todo:
            a, b = todo.pop()
            if d.acc[a]:
                r.add(b)
            for _, (x, y) in L._merge(d.trans[a], lang.trans[b]):
                if x in d.live() and (x, y) not in seen:
                    seen.add((x, y))
                    todo.append((x, y))
        if len(_tcache) > 300000:
            _tcache.clear()
        _tcache[k] = r
    return r


def _alt_cond(ref):
    """z3 part of a refinement (decimal texts only)."""
    c = ctx()
    cs = []
    for a, d in ref.items():
        if a.num is not None and d != c.dom[a]:
            z = num_cond(a, d, c.dom[a])
            if z is not True:
                cs.append(_as_z(z))
    return z3.And(cs) if cs else None


def _apply(ref):
    for a, d in ref.items():
        refine(a, d)


@conv
def member(parts, lang):
    """Fork on parts in lang; refines the atoms; returns a bool."""
    c = ctx()
    alts = _seqs(parts, lang)
    if len(alts) == 1:
        return alts[0][1]
    i = c.decide([_alt_cond(r) for r, _ in alts])
    _apply(alts[i][0])
    return alts[i][1]


@conv
def decided(parts, lang):
    """True/False when membership is already determined, else None."""
    rs = {a for _, a in _seqs(parts, lang)}
    return rs.pop() if len(rs) == 1 else None


@conv
def assume_in(parts, lang):
    c = ctx()
    alts = [r for r, ok in _seqs(parts, lang) if ok]
    if not alts:
        raise core.Infeasible()
    if len(alts) == 1:
        _apply(alts[0])
        return
    i = c.decide([_alt_cond(r) for r in alts])
    _apply(alts[i])


@conv
def cut(parts, U, V):
    """parts == u + v with u in U and v in V; forks over the possible cut points.

    Exact (a partition) when the decomposition is unambiguous; with ambiguous languages
    every decomposition is one alternative.  Returns (u, v)."""
    c = ctx()
    parts = resolve(parts)
    n = len(parts)
    # prefixes/suffix languages for pruning
    alts = []

    def feasible(us, vs):
        return any(ok for _, ok in _seqs_l(us, U)) and any(ok for _, ok in _seqs_l(vs, V))

    # prune with state sets: U-states reachable before part i, V-states co-reachable after
    ustates = [{0}]
    for p in parts:
        nxt = set()
        for q in ustates[-1]:
            if isinstance(p, str):
                nxt.add(U.run(p, q))
            else:
                nxt |= _targets(c.dom[p], U, q)
        ustates.append({q for q in nxt if q in U.live()})
    # V backwards: langs of the remaining parts
    vsuf = [None] * (n + 1)
    vsuf[n] = {q for q in range(V.n) if V.acc[q]}
    for i in range(n - 1, -1, -1):
        p = parts[i]
        vsuf[i] = {
            q
            for q in range(V.n)
            if (
                V.run(p, q) in vsuf[i + 1]
                if isinstance(p, str)
                else bool(_targets(c.dom[p], V, q) & vsuf[i + 1])
            )
        }
    for i in range(n + 1):
        # cut exactly before part i (i.e. after part i-1)
        if 0 in vsuf[i] and any(U.acc[q] for q in ustates[i]):
            alts.append(("b", i, None))
        if i == n:
            break
        p = parts[i]
        if isinstance(p, str):
            for k in range(1, len(p)):
                if any(U.acc[U.run(p[:k], q)] for q in ustates[i]) and V.run(p[k:], 0) in vsuf[i + 1]:
                    alts.append(("s", i, k))
        else:
            d = c.dom[p]
            if p.num is not None and d.lengths()[1] != 1:
                # may only be cut where its text is fixed: skip, but only if impossible
                if _num_cut_possible(d, U, V, ustates[i], vsuf[i + 1]):
                    spell_out(p)
                    return cut(resolve(parts), U, V)
                continue
            for q in sorted(d.live()):
                x = d.between(0, {q}) & NONEMPTY
                y = d.between(q, {t for t in range(d.n) if d.acc[t]}) & NONEMPTY
                if x.is_empty() or y.is_empty():
                    continue
                ok = set()
                for s in ustates[i]:
                    ok |= {t for t in _targets(x, U, s) if U.acc[t]}
                if not ok:
                    continue
                if not (_targets(y, V, 0) & vsuf[i + 1]):
                    continue
                alts.append(("a", i, (x, y)))
    if not alts:
        raise core.Infeasible()
    j = c.decide([None] * len(alts)) if len(alts) > 1 else 0
    kind, i, k = alts[j]
    if kind == "b":
        us, vs = parts[:i], parts[i:]
    elif kind == "s":
        us, vs = parts[:i] + (parts[i][:k],), (parts[i][k:],) + parts[i + 1 :]
    else:
        x = new_atom(parts[i].name.split("!")[0] + "l", k[0])
        y = new_atom(parts[i].name.split("!")[0] + "r", k[1])
        bind(parts[i], (x, y))
        us, vs = parts[:i] + (x,), (y,) + parts[i + 1 :]
    assume_in(us, U)
    assume_in(vs, V)
    return resolve(us), resolve(vs)


NONEMPTY = L.ANY + L.ALL


def _num_cut_possible(d, U, V, us, vs):
    for q in d.live():
        x = d.between(0, {q}) & NONEMPTY
        y = d.between(q, {t for t in range(d.n) if d.acc[t]}) & NONEMPTY
        if x.is_empty() or y.is_empty():
            continue
        if any(U.acc[t] for s in us for t in _targets(x, U, s)) and (_targets(y, V, 0) & vs):
            return True
    return False


def _seqs_l(parts, lang):
    return _seqs(parts, lang)


# -- equality -----------------------------------------------------------------


def _chars_of(parts):
    c = ctx()
    out = []
    for p in parts:
        if isinstance(p, str):
            out += [(ord(x), ord(x)) for x in p]
        else:
            out += list(c.dom[p].chars())
    return L._norm(out)


def _in_iv(ch, iv):
    o = ord(ch)
    return any(a <= o <= b for a, b in iv)


def _tokens(parts, sep):
    cur, out = [], []
    for p in parts:
        if isinstance(p, str):
            bits = p.split(sep)
            for k, b in enumerate(bits):
                if k:
                    out.append(tuple(cur))
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    out.append(tuple(cur))
    return out


def eq_pairs(a, b):
    """Split a == b into independent component equalities; None when trivially false."""
    a, b = list(resolve(a)), list(resolve(b))
    # common prefix / suffix
    def strip(a, b):
        while a and b:
            x, y = a[0], b[0]
            if x is y:
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, str) and isinstance(y, str):
                k = 0
                while k < len(x) and k < len(y) and x[k] == y[k]:
                    k += 1
                if k == 0:
                    return False
                a[0], b[0] = x[k:], y[k:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
                continue
            break
        return True

    def rstrip(a, b):
        a2 = [p[::-1] if isinstance(p, str) else p for p in reversed(a)]
        b2 = [p[::-1] if isinstance(p, str) else p for p in reversed(b)]
        ok = strip(a2, b2)
        a[:] = [p[::-1] if isinstance(p, str) else p for p in reversed(a2)]
        b[:] = [p[::-1] if isinstance(p, str) else p for p in reversed(b2)]
        return ok

    if not strip(a, b) or not rstrip(a, b):
        return None
    if not a and not b:
        return []
    for sep in "*#.:":
        at = any(not isinstance(p, str) and _in_iv(sep, ctx().dom[p].chars()) for p in a + b)
        if at:
            continue
        ta, tb = _tokens(a, sep), _tokens(b, sep)
        if len(ta) == 1 and len(tb) == 1:
            continue
        if len(ta) != len(tb):
            return None
        out = []
        for x, y in zip(ta, tb):
            r = eq_pairs(x, y)
            if r is None:
                return None
            out += r
        return out
    return [(tuple(a), tuple(b))]


def _is_num(p):
    return len(p) == 1 and isinstance(p[0], Atom) and p[0].num is not None


def pair_cond(a, b):
    """Decide one component: bool, z3 condition, or None (string-level)."""
    if not a or not b:
        x = a or b
        z = decided(x, L.EPS)
        if z is not None:
            return z
        return None
    if _is_num(a) and _is_num(b) and a[0].width == b[0].width:
        r = a[0].num == b[0].num
        return r.cond if isinstance(r, SymBool) else r
    if _is_num(a) and len(b) == 1 and isinstance(b[0], str):
        if b[0] not in ctx().dom[a[0]]:
            return False
        ctx().memo.setdefault(("compared", a[0]), set()).add(b[0])
        return simp(_num_eq(a[0], int(b[0])))
    if _is_num(b) and len(a) == 1 and isinstance(a[0], str):
        return pair_cond(b, a)
    la, lb = parts_lang(a), parts_lang(b)
    if la.disjoint(lb):
        return False
    for x, y, ly in ((a, b, lb), (b, a, la)):
        # the canonical text of a number and digits in canonical form: equal as numbers
        if _is_num(x) and not isinstance(x[0].num, SymBV) and ly <= canon_dec(x[0].width):
            ws = [(len(p), len(p)) if isinstance(p, str) else ctx().dom[p].lengths() for p in y[1:]]
            if all(p == q for p, q in ws):
                return simp(zint(x[0].num) == zint(int_of(y)))
    return None


@conv
def str_eq(a, b):
    """SymBool/bool for equality of two part tuples."""
    ps = eq_pairs(a, b)
    if ps is None:
        return False
    zs = []
    hard = False
    for x, y in ps:
        c = pair_cond(x, y)
        if c is False:
            return False
        if c is True:
            continue
        if c is None:
            hard = True
        else:
            zs.append(c)
    if hard:
        return SymBool(StrEq(tuple(a), tuple(b)))
    if not zs:
        return True
    return mkbool(z3.And(zs) if len(zs) > 1 else zs[0])


@conv
def fork_streq(a, b):
    c = ctx()
    r = str_eq(a, b)
    if isinstance(r, bool):
        return r
    if not isinstance(r.cond, StrEq):
        return c.fork(r.cond)
    if c.known_neq(a, b):
        return False
    # one side a plain text: a membership question
    ra, rb = resolve(a), resolve(b)
    for x, y in ((ra, rb), (rb, ra)):
        if len(y) == 0 or (len(y) == 1 and isinstance(y[0], str)):
            return member(x, L.lit(y[0] if y else ""))
    if c.decide([None, None]) == 0:
        unify(a, b)
        return True
    c.diseqs.append((tuple(a), tuple(b)))
    c.check_diseqs()
    return False


def unify(a, b):
    """Assume a == b."""
    c = ctx()
    for _ in range(200):
        ps = eq_pairs(a, b)
        if ps is None:
            raise core.Infeasible()
        done = True
        for x, y in ps:
            z = pair_cond(x, y)
            if z is True:
                continue
            if z is False:
                raise core.Infeasible()
            if z is not None:
                c.assume(z)
                continue
            done = False
            _unify_pair(x, y)
            break
        if done:
            return
    unsupported("string equation")


def _unify_pair(x, y):
    c = ctx()
    x, y = resolve(x), resolve(y)
    if not x or not y:
        assume_in(x or y, L.EPS)
        return
    for u, v in ((x, y), (y, x)):
        if len(v) == 1 and isinstance(v[0], str):
            assume_in(u, L.lit(v[0]))
            return
    for u, v in ((x, y), (y, x)):
        if len(u) == 1 and u[0].num is None and u[0] not in v:
            assume_in(v, c.dom[u[0]])
            if not (len(v) == 1 and v[0] is u[0]):
                bind(u[0], resolve(v))
            return
    # cut the longer side at the boundary of the other's first part
    for u, v in ((x, y), (y, x)):
        if isinstance(u[0], str):
            h, t = cut(v, L.lit(u[0]), L.ALL)
            return
    unsupported("string equation with several unknowns")


# -- the string class ----------------------------------------------------------


class SymLen(Sym):
    """len(text) + off: compared with constants through the text's language."""

    __slots__ = ("parts", "off")

    def __init__(self, parts, off=0):
        self.parts, self.off = parts, off

    def as_int(self):
        n = mkint(len_term(self.parts))
        return n + self.off if self.off else n

    def _lang(self, o, f):
        mn, mx = 0, None
        ok = [k for k in range(0, o + 2) if f(k, o)]
        r = L.EMPTY
        for k in ok:
            r = r | L.ANY.times(k)
        if f(o + 2, o):
            r = r | (L.ANY.times(o + 2) + L.ALL)
        return r

    def _cmp(self, o, f):
        if isinstance(o, SymLen):
            return f(self.as_int(), o.as_int())
        if isinstance(o, int) and not isinstance(o, bool):
            k = o - self.off
            if k < 0:
                return f(0, k) if f(0, k) == f(1, k) else f(self.as_int(), o)
            if k <= 64:
                return member(self.parts, self._lang(k, f))
        if as_int(o) is None:
            return NotImplemented
        return f(self.as_int(), o)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return self != 0

    def __mod__(self, o):
        if isinstance(o, int) and 0 < o <= 16 and not self.off:
            u = L.ANY.times(o).star()
            for r in range(o):
                if r == o - 1 or member(self.parts, u + L.ANY.times(r)):
                    return r
        return self.as_int() % o

    def __add__(self, o):
        if type(o) is int:
            return SymLen(self.parts, self.off + o)
        if isinstance(o, SymLen):
            return SymLen(tuple(self.parts) + tuple(o.parts), self.off + o.off)
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int:
            return SymLen(self.parts, self.off - o)
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self.as_int() // o


class SymStr(Sym):
    __slots__ = ("_parts", "isb")

    def __init__(self, parts, isb=False):
        self._parts = tuple(parts)
        self.isb = isb

    @property
    def parts(self):
        r = resolve(self._parts)
        self._parts = r
        return r

    def _new(self, parts):
        return mkstr(parts, self.isb)

    def __repr__(self):
        return f"SymStr{self._parts}"

    def _is(self, o):
        return isinstance(o, (bytes, bytearray)) or (isinstance(o, SymStr) and o.isb) if self.isb else (
            isinstance(o, str) or (isinstance(o, SymStr) and not o.isb)
        )

    def _arg(self, o, what="operand"):
        if not self._is(o):
            raise TypeError(f"unsupported {what} {type(o).__name__}")
        return topl(o)

    # equality and order
    def __eq__(self, o):
        if not self._is(o):
            if isinstance(o, (SymStr, str, bytes, int, float, list, tuple, dict, type(None), Sym)):
                return False
            return NotImplemented
        return str_eq(self._parts, topl(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return mknot(r)

    __hash__ = Sym.__hash__

    def _less(self, o):
        """Language of the texts before the literal o."""
        if not self._is(o):
            return None
        if not isinstance(o, (str, bytes)):
            unsupported("ordering symbolic strings")
        w = "".join(topl(o))
        r = L.EMPTY
        for i, ch in enumerate(w):
            r = r | L.lit(w[:i])
            if ord(ch):
                r = r | (L.lit(w[:i]) + L.charset([(0, ord(ch) - 1)]) + L.ALL)
        return r, L.lit(w)

    def __lt__(self, o):
        l = self._less(o)
        return NotImplemented if l is None else member(self.parts, l[0])

    def __le__(self, o):
        l = self._less(o)
        return NotImplemented if l is None else member(self.parts, l[0] | l[1])

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return not member(self.parts, L.EPS)

    def __add__(self, o):
        if not self._is(o):
            return NotImplemented
        return self._new(self._parts + topl(o))

    def __radd__(self, o):
        if not self._is(o):
            return NotImplemented
        return self._new(topl(o) + self._parts)

    def __mul__(self, k):
        if isinstance(k, int) and k <= 64:
            return self._new(self._parts * max(0, k))
        unsupported("string repetition")

    __rmul__ = __mul__

    def __mod__(self, o):
        unsupported("% formatting of a symbolic string")

    def length(self):
        ps = self.parts
        if all(isinstance(p, str) or ctx().dom[p].lengths()[0] == ctx().dom[p].lengths()[1] for p in ps):
            return sum(len(p) if isinstance(p, str) else ctx().dom[p].lengths()[0] for p in ps)
        return SymLen(ps)

    def contains(self, x):
        if self.isb and isinstance(x, int):
            return member(self.parts, L.containing(chr(x)))
        x = topl(self._arg2(x))
        ps = resolve(x)
        if all(isinstance(p, str) for p in ps):
            return member(self.parts, L.containing("".join(ps)))
        mine = self.parts
        if all(isinstance(p, str) for p in mine):
            w = "".join(mine)
            subs = {w[i:j] for i in range(len(w) + 1) for j in range(i, len(w) + 1)}
            if len(subs) < 400:
                return member(ps, L.words(sorted(subs)))
        if str_eq(mine, ps) is True:
            return True
        unsupported("symbolic substring test")

    def _arg2(self, x):
        if not self._is(x):
            raise TypeError("'in <string>' requires string as left operand")
        return x

    # -- str methods -------------------------------------------------------
    def _lits(self, p):
        if isinstance(p, tuple):
            return [q for x in p for q in self._lits(x)]
        ps = resolve(self._arg(p))
        if not all(isinstance(q, str) for q in ps):
            unsupported("symbolic prefix")
        return ["".join(ps)]

    def startswith(self, p, *a):
        if a:
            return self.getitem(slice(*a)).startswith(p)
        if not isinstance(p, tuple) and has_sym(p):
            return self._sym_affix(p, True)
        return member(self.parts, L.words(sorted(set(self._lits(p)))) + L.ALL)

    def _sym_affix(self, p, pre):
        x, y = self.parts, resolve(topl(p))
        if not pre:
            unsupported("symbolic suffix")
        if x[: len(y)] == y:
            return True
        unsupported("symbolic prefix")

    def endswith(self, p, *a):
        if a:
            return self.getitem(slice(*a)).endswith(p)
        return member(self.parts, L.ALL + L.words(sorted(set(self._lits(p)))))

    def removeprefix(self, p):
        (w,) = self._lits(p)
        if w == "" or not member(self.parts, L.lit(w) + L.ALL):
            return self
        return self._new(cut(self.parts, L.lit(w), L.ALL)[1])

    def removesuffix(self, p):
        (w,) = self._lits(p)
        if w == "" or not member(self.parts, L.ALL + L.lit(w)):
            return self
        return self._new(cut(self.parts, L.ALL, L.lit(w))[0])

    def _strip_set(self, chars):
        if chars is None:
            if self.isb:
                return L.charset(" \t\n\r\x0b\x0c")
            return L.py_class("isspace")
        (w,) = self._lits(chars)
        return L.charset(w)

    def lstrip(self, chars=None):
        W = self._strip_set(chars)
        if W.is_empty():
            return self
        if member(self.parts, W.star()):
            return self._new(())
        rest = (L.ANY - W) + L.ALL
        if decided(self.parts, rest):
            return self
        return self._new(cut(self.parts, W.star(), rest)[1])

    def rstrip(self, chars=None):
        W = self._strip_set(chars)
        if W.is_empty():
            return self
        if member(self.parts, W.star()):
            return self._new(())
        rest = L.ALL + (L.ANY - W)
        if decided(self.parts, rest):
            return self
        return self._new(cut(self.parts, rest, W.star())[0])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if isinstance(r, SymStr) else (r.strip(chars) if not is_sym(chars) else unsupported("strip"))

    def count(self, sub, *a):
        if a:
            return self.getitem(slice(*a)).count(sub)
        (w,) = self._lits(sub)
        if w == "":
            return self.length() + 1
        for k in range(3):
            if member(self.parts, L.count_lang(w, k)):
                return k
        c = ctx()
        c.approx = True
        n = z3.Int(c.fresh_name("count"))
        c.add(n >= 3)
        return SymInt(n)

    def find(self, sub, *a):
        if a:
            if len(a) == 1 and type(a[0]) is int and a[0] >= 0:
                if a[0] == 0:
                    return self.find(sub)
                r = lift(self.getitem(slice(a[0], None)), self.isb).find(sub)
                return r if isinstance(r, int) and r < 0 else self._at(a[0], r)
            unsupported("find with bounds")
        (w,) = self._lits(sub)
        if not member(self.parts, L.containing(w)):
            return -1
        pre, _ = self._first(w)
        return lift(self._new(pre), self.isb).length() if pre else 0

    def _at(self, k, r):
        """Position k (>= 0, inside the text) + r, as a position in this text where that can be said."""
        if isinstance(r, int):
            return r + k
        ps = resolve(self.parts)
        return SymLen(cut(ps, L.ANY.times(k), L.ALL)[0] + tuple(r.parts), r.off) if isinstance(r, SymLen) else r + k

    def rfind(self, sub, *a):
        if a:
            unsupported("rfind with bounds")
        (w,) = self._lits(sub)
        if not member(self.parts, L.containing(w)):
            return -1
        pre = topl(self._last(w)[0])
        return SymLen(pre) if pre else 0

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def _first(self, sep):
        """(piece, rest) around the first occurrence of sep, which is known to occur."""
        hit, _ = L.first_hit(sep)
        u, v = cut(self.parts, hit, L.ALL)
        piece, _s = cut(u, L.ALL, L.lit(sep))
        return piece, v

    def split_first(self, sep):
        """(piece, rest) or (all, None)."""
        if not member(self.parts, L.containing(sep)):
            return self, None
        a, b = self._first(sep)
        return self._new(a), self._new(b)

    def partition(self, sep):
        (w,) = self._lits(sep)
        if w == "":
            raise ValueError("empty separator")
        a, b = self.split_first(w)
        if b is None:
            return (a, self._new(()), self._new(()))
        return (a, self._new((w,)), b)

    def _last(self, sep):
        if len(sep) != 1:
            unsupported("last occurrence of a long separator")
        u, v = cut(self.parts, L.ALL + L.lit(sep), L.nosep(sep))
        return self._new(cut(u, L.ALL, L.lit(sep))[0]), self._new(v)

    def rpartition(self, sep):
        (w,) = self._lits(sep)
        if not member(self.parts, L.containing(w)):
            return (self._new(()), self._new(()), self)
        a, b = self._last(w)
        return (a, self._new((w,)), b)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            if maxsplit == -1 and sep is not None:
                return self.split(sep)
            unsupported("rsplit")
        (w,) = self._lits(sep)
        if not member(self.parts, L.containing(w)):
            return [self]
        return list(self._last(w))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            unsupported("split on whitespace")
        (w,) = self._lits(sep)
        if w == "":
            raise ValueError("empty separator")
        if maxsplit != -1:
            out = []
            cur = self
            while maxsplit > 0:
                a, b = lift(cur, self.isb).split_first(w)
                out.append(a)
                if b is None:
                    return out
                cur = b
                maxsplit -= 1
            out.append(cur)
            return out
        return mkseq([], Tail(self._parts, w, None, self.isb), "list")

    def splitlines(self, *a):
        unsupported("splitlines")

    def join(self, it):
        from . import rt

        return rt.str_join(self, it)

    def replace(self, a, b, n=-1):
        (w,) = self._lits(a)
        if n == -1 and w != "" and not member(self.parts, L.containing(w)):
            return self
        if n == -1 and len(w) >= 1:
            out = ()
            cur = self
            for _ in range(8):
                x, y = lift(cur, self.isb).split_first(w)
                out = out + topl(x)
                if y is None:
                    return self._new(out)
                out = out + self._arg(b)
                cur = y
        unsupported("replace")

    def _cls(self, name):
        k = L.py_class(name) if not self.isb else (L.py_class(name) & L.charset([(0, 127)]))
        return member(self.parts, k.plus())

    def isnumeric(self):
        return self._cls("isnumeric")

    def isdigit(self):
        return self._cls("isdigit")

    def isdecimal(self):
        return self._cls("isdecimal")

    def isalpha(self):
        return self._cls("isalpha")

    def isalnum(self):
        return self._cls("isalnum")

    def isspace(self):
        return self._cls("isspace")

    def isascii(self):
        return member(self.parts, L.charset([(0, 127)]).star())

    def _case(self, name):
        ps = []
        for p in self.parts:
            if isinstance(p, str):
                ps.append(getattr(p, name)())
            else:
                iv = ctx().dom[p].chars()
                if any(b - a > 300 for a, b in iv) or any(
                    getattr(chr(c), name)() != chr(c) for a, b in iv for c in range(a, b + 1)
                ):
                    unsupported(name)
                ps.append(p)
        return self._new(ps)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def zfill(self, n):
        if isinstance(n, int) and n <= 64:
            for k in range(n):
                if self.length() == k:
                    if decided(self.parts, L.charset("+-") + L.ALL) is not False:
                        unsupported("zfill of a signed text")
                    return self._new(("0" * (n - k),) + self.parts)
            return self
        unsupported("zfill")

    def rjust(self, n, fill=" "):
        if isinstance(n, int) and n <= 64 and isinstance(fill, str):
            for k in range(n):
                if self.length() == k:
                    return self._new((fill * (n - k),) + self.parts)
            return self
        unsupported("rjust")

    def ljust(self, n, fill=" "):
        if isinstance(n, int) and n <= 64 and isinstance(fill, str):
            for k in range(n):
                if self.length() == k:
                    return self._new(self.parts + (fill * (n - k),))
            return self
        unsupported("ljust")

    def format(self, *a, **k):
        unsupported("format method of a symbolic string")

    def encode(self, encoding="utf-8", errors="strict"):
        if self.isb:
            raise AttributeError("'bytes' object has no attribute 'encode'")
        e = encoding.lower().replace("_", "-") if isinstance(encoding, str) else unsupported("encoding")
        if errors != "strict":
            unsupported("encode errors mode")
        ascii_ = L.charset([(0, 127)]).star()
        if e in ("ascii", "us-ascii"):
            if not member(self.parts, ascii_):
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
            return mkstr(self.parts, True)
        if e in ("latin-1", "iso-8859-1", "latin1"):
            if not member(self.parts, L.charset([(0, 255)]).star()):
                raise UnicodeEncodeError("latin-1", "?", 0, 1, "ordinal not in range(256)")
            return mkstr(self.parts, True)
        if e in ("utf-8", "utf8"):
            if member(self.parts, ascii_):
                return mkstr(self.parts, True)
            sur = L.containing_any([(0xD800, 0xDFFF)])
            if member(self.parts, sur):
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            return opaque("utf8", (self,), L.charset([(0, 255)]).star(), True)
        unsupported(f"encoding {encoding}")

    def decode(self, encoding="utf-8", errors="strict"):
        if not self.isb:
            raise AttributeError("'str' object has no attribute 'decode'")
        e = encoding.lower().replace("_", "-")
        ascii_ = L.charset([(0, 127)]).star()
        if errors == "ignore" and e in ("ascii", "utf-8", "us-ascii"):
            if member(self.parts, ascii_):
                return mkstr(self.parts, False)
            unsupported("lossy decoding")
        if errors != "strict":
            if member(self.parts, ascii_):
                return mkstr(self.parts, False)
            unsupported("decode errors mode")
        if e in ("ascii", "us-ascii"):
            if not member(self.parts, ascii_):
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            return mkstr(self.parts, False)
        if e in ("latin-1", "iso-8859-1", "latin1"):
            return mkstr(self.parts, False)
        if e in ("utf-8", "utf8"):
            if member(self.parts, ascii_):
                return mkstr(self.parts, False)
            unsupported("utf-8 decoding")
        unsupported(f"encoding {encoding}")

    def hex(self, *a):
        if a or not self.isb:
            unsupported("hex")
        ps = self.parts
        n = sum((len(p) if isinstance(p, str) else (ctx().dom[p].lengths()[0] if ctx().dom[p].lengths()[0] == ctx().dom[p].lengths()[1] else -(10**9))) for p in ps)
        d = L.charset("0123456789abcdef")
        return opaque("hex", (self,), d.times(2 * n) if 0 <= n <= 64 else (d + d).star())

    # -- indexing ------------------------------------------------------------
    def _split_at(self, i):
        """(before, after) of this text at position i, or None where i is not known as a position in it."""
        if not isinstance(i, SymLen):
            return None
        pre, ps = list(resolve(i.parts)), list(resolve(self.parts))
        out = []
        while pre:
            if not ps:
                return None
            a, b = pre.pop(0), ps.pop(0)
            if isinstance(a, str) and isinstance(b, str):
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return None
                out.append(a[:n])
                if a[n:]:
                    pre.insert(0, a[n:])
                if b[n:]:
                    ps.insert(0, b[n:])
            elif a is b:
                out.append(a)
            else:
                return None
        u, v, k = tuple(out), tuple(ps), i.off
        if k > 0:
            if not member(v, L.ANY.times(k) + L.ALL):
                return u + v, ()
            x, v = cut(v, L.ANY.times(k), L.ALL)
            u = resolve(u) + x
        elif k < 0:
            if not member(u, L.ALL + L.ANY.times(-k)):
                return None
            u, x = cut(u, L.ALL, L.ANY.times(-k))
            v = x + resolve(v)
        return u, v

    def getitem(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        at = self._split_at(i)
        if at is not None:
            r = self._new(at[1])
            return (r if isinstance(r, SymStr) else lift(r, self.isb)).getitem(0)
        i = as_index(i)
        if i >= 0:
            if not member(self.parts, L.ANY.times(i + 1) + L.ALL):
                raise IndexError("string index out of range")
            _, r = cut(self.parts, L.ANY.times(i), L.ALL)
            ch, _ = cut(r, L.ANY, L.ALL)
        else:
            if not member(self.parts, L.ALL + L.ANY.times(-i)):
                raise IndexError("string index out of range")
            _, r = cut(self.parts, L.ALL, L.ANY.times(-i))
            ch, _ = cut(r, L.ANY, L.ALL)
        if self.isb:
            return mkord(ch)
        return self._new(ch)

    def _slice(self, s):
        a, b, st = s.start, s.stop, s.step
        if st not in (None, 1):
            if st == -1 and a is None and b is None:
                return opaque("reverse", (self,), parts_lang(self.parts).reverse())
            unsupported("strided slice")
        if isinstance(b, SymLen):
            at = self._split_at(b)
            if at is not None:
                r = self._new(at[0])
                return r if a is None else lift(r, self.isb).getitem(slice(a, None))
        if isinstance(a, SymLen):
            at = self._split_at(a)
            if at is not None:
                if b is None:
                    return self._new(at[1])
                b = as_index(b)
                if b < 0:  # counted from the end, and never before a
                    return lift(self._new(at[1]), self.isb).getitem(slice(None, b))
        a = 0 if a is None else as_index(a)
        b = None if b is None else as_index(b)
        ps = self.parts

        def drop_left(ps, k):
            if k == 0:
                return ps
            if member(ps, L.ANY.times(k) + L.ALL):
                return cut(ps, L.ANY.times(k), L.ALL)[1]
            return ()

        def take_left(ps, k):
            if k == 0:
                return ()
            if member(ps, L.ANY.times(k) + L.ALL):
                return cut(ps, L.ANY.times(k), L.ALL)[0]
            return ps

        def drop_right(ps, k):
            if member(ps, L.ALL + L.ANY.times(k)):
                return cut(ps, L.ALL, L.ANY.times(k))[0]
            return ()

        def take_right(ps, k):
            if member(ps, L.ALL + L.ANY.times(k)):
                return cut(ps, L.ALL, L.ANY.times(k))[1]
            return ps

        if b is None:
            return self._new(drop_left(ps, a) if a >= 0 else take_right(ps, -a))
        if a >= 0 and b >= 0:
            if b <= a:
                return self._new(())
            return self._new(take_left(drop_left(ps, a), b - a))
        if a >= 0 and b < 0:
            return self._new(drop_left(drop_right(ps, -b), a))
        if a < 0 and b < 0:
            if b <= a:
                return self._new(())
            if member(ps, L.ALL + L.ANY.times(-a)):
                return self._new(drop_right(take_right(ps, -a), -b))
            return self._new(drop_right(ps, -b))
        unsupported("slice bounds")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytes if self.isb else str, name):
            unsupported(f"str method {name}")
        raise AttributeError(f"'{'bytes' if self.isb else 'str'}' object has no attribute '{name}'")


class SymOrd(Sym):
    """The code of one character (an element of bytes): compared with constants through its language."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def value(self):
        p = resolve(self.parts)[0]
        return ord(p) if isinstance(p, str) else ord(concretise_char(p))

    def _cmp(self, o, f, iv):
        if isinstance(o, bool) or not isinstance(o, int):
            if isinstance(o, Sym):
                return f(self.value(), o)
            return NotImplemented
        return member(self.parts, L.charset([(a, b) for a, b in iv if a <= b]))

    def __eq__(self, o):
        if isinstance(o, int) and not 0 <= o <= L.MAXC:
            return False
        return self._cmp(o, lambda a, b: a == b, [(o, o)] if isinstance(o, int) else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, [(0, min(o - 1, L.MAXC))] if isinstance(o, int) else None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, [(0, min(o, L.MAXC))] if isinstance(o, int) else None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, [(max(o + 1, 0), L.MAXC)] if isinstance(o, int) else None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, [(max(o, 0), L.MAXC)] if isinstance(o, int) else None)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return self != 0


def _via_value(name):
    def op(self, *a):
        return getattr(int, name)(self.value(), *[x.value() if isinstance(x, SymOrd) else x for x in a])

    return op


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "xor", "rxor", "and", "rand", "or", "ror", "mod", "floordiv", "lshift", "rshift"):
    setattr(SymOrd, f"__{_n}__", _via_value(f"__{_n}__"))


def mkord(parts):
    p = resolve(parts)
    return ord(p[0]) if isinstance(p[0], str) else SymOrd(p)


def as_index(i):
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, (SymInt, SymLen)):
        if isinstance(i, SymLen):
            i = i.as_int()
        if isinstance(i, int):
            return i
        # a symbolic index: only when the path fixes it
        c = ctx()
        for k in range(-3, 20):
            if c.valid(i.e == k):
                return k
        unsupported("symbolic index")
    if hasattr(i, "__index__") and not isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, Sym):
        unsupported(f"index of kind {type(i).__name__}")
    raise TypeError("indices must be integers")


def topl(x):
    """Parts of a string-like value."""
    if isinstance(x, SymStr):
        return x._parts
    if isinstance(x, str):
        return (str.__str__(x),) if x else ()
    if isinstance(x, (bytes, bytearray)):
        return (bytes(x).decode("latin-1"),) if x else ()
    unsupported(f"not a string: {type(x).__name__}")


def lift(x, isb=None):
    if isinstance(x, SymStr):
        return x
    return SymStr(topl(x), isinstance(x, (bytes, bytearray)))


def mkstr(parts, isb=False):
    ps = resolve(parts)
    if not ps:
        return b"" if isb else ""
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0].encode("latin-1") if isb else ps[0]
    return SymStr(ps, isb)


def opaque(fname, args, domain, isb=False):
    """An uninterpreted function of texts/integers: same arguments, same result."""
    c = ctx()
    c.approx = True
    key = (fname, tuple(_key(a) for a in args))
    if key not in c.memo:
        a = new_atom(fname, domain)
        a.origin = (fname, args)
        c.memo[key] = a
    return mkstr((c.memo[key],), isb)


def _key(a):
    if isinstance(a, SymStr):
        return ("s", a.parts, a.isb)
    if isinstance(a, (SymInt, SymBV)):
        return ("i", a.e.sexpr())
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, (str, bytes)):
        return ("s", (a if isinstance(a, str) else a.decode("latin-1"),) if a else (), isinstance(a, bytes))
    if isinstance(a, int):
        return ("i", str(a))
    return ("o", id(a))


def _containing_any(iv):
    return L.ALL + L.charset(iv) + L.ALL


L.containing_any = _containing_any


# -- integers and text ----------------------------------------------------------


def canon_dec(width=0):
    """Texts of non-negative integers rendered with zero padding to `width`."""
    nz = L.charset("123456789")
    if width <= 1:
        return L.lit("0") | (nz + L.DIGIT.star())
    return L.DIGIT.times(width) | (nz + L.DIGIT.times(width) + L.DIGIT.star())


def int_text(n, width=0):
    """str(n) / format(n, '0{width}d') for a symbolic integer."""
    c = ctx()
    if isinstance(n, SymBool):
        return "True" if n else "False"
    if isinstance(n, SymLen):
        n = n.as_int()
    if isinstance(n, int):
        return f"{n:0{width}d}" if width else str(int(n))
    neg = (n < 0)
    if truth(neg):
        if width:
            width = max(0, width - 1)
        r = int_text(-n, width)
        return "-" + r
    key = ("dec", n.e.sexpr(), max(width, 1) if width <= 1 else width)
    if key not in c.memo:
        d = canon_dec(width)
        # narrow the language when the path bounds the number
        for k in range(1, 6):
            z = n < 10**k
            z = z.cond if isinstance(z, SymBool) else z
            if c.valid(z):
                d = d & _upto(max(k, width))
                break
        c.memo[key] = new_atom("dec", d, num=n, width=width if width > 1 else 0)
    return mkstr((c.memo[key],))


def _upto(k):
    r = L.EMPTY
    for i in range(1, k + 1):
        r = r | L.DIGIT.times(i)
    return r


def _value_intervals(d, base):
    """The values of a finite language of digit texts, as at most 40 intervals (None: not known)."""
    key = ("values", base)
    try:
        return d._cache[key]
    except KeyError:
        pass
    ws = d.enumerate(4000)
    r = None
    if ws:
        r = []
        for v in sorted({int(w, base) for w in ws}):
            if r and r[-1][1] == v - 1:
                r[-1][1] = v
            else:
                r.append([v, v])
        if len(r) > 40:
            r = None
    d._cache[key] = r
    return r


def _digit_facts(v, base, d):
    if not (d <= (L.DIGITS if base == 10 else L.int_literal(base))):
        return None
    cs = [v >= 0]
    mn, mx = d.lengths()
    if mx is not None and mx <= 30:
        cs.append(v < base**mx)
    iv = _value_intervals(d, base)
    if iv is not None:
        cs.append(z3.Or([v == a if a == b else z3.And(v >= a, v <= b) for a, b in iv]))
    elif base == 10 and d <= canon_dec() and mn is not None and mn > 1:
        cs.append(v >= 10 ** (mn - 1))
    return z3.And(cs)


def int_of(parts, base=10):
    """int(text, base) for text known to be plain digits of that base."""
    c = ctx()
    ps = resolve(parts)
    if all(isinstance(p, str) for p in ps):
        return int("".join(ps), base)
    # leading zeros do not count
    while len(ps) > 1 and (
        (isinstance(ps[0], str) and ps[0].strip("0") == "")
        or (not isinstance(ps[0], str) and c.dom[ps[0]] <= L.lit("0").star())
    ):
        ps = ps[1:]
    if isinstance(ps[0], str) and len(ps) > 1 and ps[0].startswith("0"):
        ps = (ps[0].lstrip("0"),) + ps[1:]
    if len(ps) == 1 and ps[0].num is not None and base == 10:
        return ps[0].num
    # fixed-width pieces combine positionally
    widths = [len(p) if isinstance(p, str) else c.dom[p].lengths() for p in ps]
    if len(ps) == 1:
        return mkint(_digitvar(ps[0], base))
    if all(isinstance(w, int) or w[0] == w[1] for w in widths[1:]):
        tot = z3.IntVal(0)
        for p, w in zip(ps, widths):
            w = w if isinstance(w, int) else (w[0] if w[0] == w[1] else 0)
            if isinstance(p, str):
                v = z3.IntVal(int(p, base))
            elif p.num is not None and base == 10:
                v = zint(p.num)
            else:
                v = _digitvar(p, base)
            tot = tot * (base**w) + v
        return mkint(tot)
    key = ("int", base, ps)
    if key not in c.memo:
        v = z3.Int(c.fresh_name("int"))
        c.add(v >= 0)
        c.memo[key] = v
    return SymInt(c.memo[key])


def _digitvar(atom, base):
    c = ctx()
    dvs = c.digitvar.get(atom, ())
    for v, b in dvs:
        if b == base:
            return v
    v = z3.Int(c.fresh_name("val"))
    c.digitvar[atom] = dvs + ((v, base),)
    d = c.dom[atom]
    f = _digit_facts(v, base, d)
    c.add(v >= 0 if f is None else f)
    if dvs:
        # the same digits read in another base
        v0, b0 = dvs[0]
        ws = d.enumerate(64)
        if d.lengths() == (1, 1):
            c.add(v == v0)
        elif ws:
            c.add(z3.Or([z3.And(v == int(w, base), v0 == int(w, b0)) for w in ws]))
        else:
            c.approx = True
    return v


@conv
def parse_int(s, base=10):
    """int(text[, base])"""
    s = lift(s)
    ps = s.parts
    if len(ps) == 2 and ps[0] == "-" and _is_num(ps[1:]) and base == 10:
        return -ps[1].num
    if base == 10:
        plain = L.DIGITS
    elif base == 2:
        plain = L.charset("01").plus()
    elif base == 16:
        plain = L.charset("0123456789abcdefABCDEF").plus()
    elif base == 8:
        plain = L.charset("01234567").plus()
    else:
        unsupported("int base")
    if not member(ps, plain):
        if not member(s.parts, L.int_literal(base)):
            raise ValueError(f"invalid literal for int() with base {base}")
        unsupported("int() of unusual digits")
    if base == 16:
        ps = s.parts
        if len(ps) == 1 and not isinstance(ps[0], str) and ctx().dom[ps[0]].lengths() == (1, 1):
            return int(concretise_char(ps[0]), 16)
    return int_of(s.parts, base)


def concretise_char(atom):
    c = ctx()
    ws = c.dom[atom].enumerate(64)
    if ws is None:
        unsupported("too many characters to enumerate")
    i = c.decide([None] * len(ws)) if len(ws) > 1 else 0
    refine(atom, L.lit(ws[i]))
    return ws[i]


@conv
def parse_float(s):
    s = lift(s)
    if member(s.parts, L.DIGITS):
        return SymFloat(mkstr(s.parts), int_of(s.parts))
    digitish = L.charset("0123456789#*").star()
    if decided(s.parts, digitish) is True:
        raise ValueError("could not convert string to float")
    unsupported("float() of unusual text")


# ============================================================================ sequences


class Tail:
    """[fn(p) for p in text.split(sep)]: at least one element."""

    __slots__ = ("parts", "sep", "fn", "isb")

    def __init__(self, parts, sep, fn, isb=False):
        self.parts = tuple(parts)
        self.sep = sep
        self.fn = fn
        self.isb = isb

    def apply(self, x):
        return x if self.fn is None else self.fn(x)

    def mapped(self, f):
        g = self.fn
        return Tail(self.parts, self.sep, f if g is None else (lambda x: f(g(x))), self.isb)


class SymSeq(Sym):
    """A list or tuple with known first elements and a symbolic rest."""

    __slots__ = ("known", "tail", "kind")

    def __init__(self, known, tail, kind):
        self.known = known
        self.tail = tail
        self.kind = kind

    def force(self):
        """Peel one element off the rest (which exists)."""
        t = self.tail
        a, b = lift(mkstr(t.parts, t.isb)).split_first(t.sep)
        self.known.append(t.apply(a))
        self.tail = None if b is None else Tail(topl(b), t.sep, t.fn, t.isb)

    def settle(self):
        """Peel everything that is determined without a case split."""
        while self.tail is not None:
            t = self.tail
            d = decided(t.parts, L.containing(t.sep))
            if d is None:
                break
            if d is True:
                ps = resolve(t.parts)
                # a determined first piece: the first concrete separator is the first one whatever the atoms hold
                ok = False
                for i, p in enumerate(ps):
                    if isinstance(p, str) and t.sep in p:
                        j = p.index(t.sep) + len(t.sep)
                        pre = tuple(ps[:i]) + (p[:j],)
                        ok = decided(pre, L.first_hit(t.sep)[0]) is True
                        break
                if not ok:
                    break
            self.force()
        return self

    def upto(self, n):
        """Make sure element n-1 is known if it exists; returns whether it exists."""
        while len(self.known) < n and self.tail is not None:
            self.force()
        return len(self.known) >= n

    def all(self):
        """Native list, only when the rest is determined."""
        self.settle()
        if self.tail is not None:
            return None
        return list(self.known)

    def __bool__(self):
        return bool(self.known) or self.tail is not None

    def length(self):
        self.settle()
        if self.tail is None:
            return len(self.known)
        return SeqLen(self)

    def getitem(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                unsupported("strided slice")
            a = 0 if i.start is None else as_index(i.start)
            b = None if i.stop is None else as_index(i.stop)
            if a >= 0 and b is None:
                if not self.upto(a):
                    return [] if self.kind == "list" else ()
                return mkseq(self.known[a:], self.tail, self.kind)
            if a >= 0 and b >= 0:
                self.upto(b)
                r = self.known[a:b]
                return r if self.kind == "list" else tuple(r)
            if a >= 0 and b < 0:
                r = self
                for _ in range(-b):
                    r = r.init_last()[0] if isinstance(r, SymSeq) else r[:-1]
                return r.getitem(slice(a, None)) if isinstance(r, SymSeq) else r[a:]
            unsupported("slice of a symbolic sequence")
        i = as_index(i)
        if i >= 0:
            if not self.upto(i + 1):
                raise IndexError(f"{self.kind} index out of range")
            return self.known[i]
        self.settle()
        if self.tail is None:
            return self.known[i]
        if i == -1:
            return self.init_last()[1]
        unsupported("negative index into a symbolic sequence")

    def init_last(self):
        """(all but the last, last) of a sequence whose rest is not determined."""
        self.settle()
        t = self.tail
        if t is None:
            k = self.known
            return (list(k[:-1]) if self.kind == "list" else tuple(k[:-1])), k[-1]
        s = lift(mkstr(t.parts, t.isb))
        if not member(s.parts, L.containing(t.sep)):
            self.force()
            return self.init_last()
        hit, _ = L.first_hit(t.sep)
        u, v = cut(s.parts, hit.plus(), L.nosep(t.sep))
        pre, _ = cut(u, L.ALL, L.lit(t.sep))
        init = mkseq(list(self.known), Tail(pre, t.sep, t.fn, t.isb), self.kind)
        return init, t.apply(mkstr(v, t.isb))

    def __eq__(self, o):
        from . import rt

        return rt.seq_eq(self, o)

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __add__(self, o):
        if isinstance(o, (list, tuple)) or isinstance(o, SymSeq):
            self.settle()
            if self.tail is None:
                if isinstance(o, SymSeq):
                    return mkseq(self.known + list(o.known), o.tail, self.kind)
                r = self.known + list(o)
                return r if self.kind == "list" else tuple(r)
        unsupported("concatenation after a symbolic sequence")

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return mkseq(list(o) + list(self.known), self.tail, self.kind)
        return NotImplemented

    def append(self, x):
        unsupported("append to a symbolic sequence")

    extend = insert = remove = sort = reverse = append

    def pop(self, i=-1):
        i = as_index(i)
        if i >= 0:
            if not self.upto(i + 1):
                raise IndexError("pop index out of range" if self.known else "pop from empty list")
            return self.known.pop(i)
        self.settle()
        if self.tail is None:
            return self.known.pop(i)
        if i != -1:
            unsupported("pop inside a symbolic sequence")
        r, last = self.init_last()
        self.known, self.tail = (list(r.known), r.tail) if isinstance(r, SymSeq) else (list(r), None)
        return last

    def copy(self):
        return mkseq(list(self.known), self.tail, self.kind)

    def index(self, x, *a):
        unsupported("index in a symbolic sequence")

    count = index

    def __deepcopy__(self, memo):
        import copy

        # elements of the rest are created on demand, so only known ones can alias
        return SymSeq([copy.deepcopy(k, memo) for k in self.known], self.tail, self.kind)

    def __repr__(self):
        return f"SymSeq({self.known}, {self.tail and self.tail.parts})"


def mkseq(known, tail, kind):
    s = SymSeq(list(known), tail, kind)
    s.settle()
    if s.tail is None:
        return list(s.known) if kind == "list" else tuple(s.known)
    return s


class SeqLen(Sym):
    """len(sequence): comparisons peel as many elements as they need."""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def _atleast(self, n):
        return self.seq.upto(n) if n > 0 else True

    def __eq__(self, o):
        o = as_index(o)
        return self._atleast(o) and not self._atleast(o + 1) if o >= 0 else False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __ge__(self, o):
        return self._atleast(as_index(o))

    def __gt__(self, o):
        return self._atleast(as_index(o) + 1)

    def __lt__(self, o):
        return not self._atleast(as_index(o))

    def __le__(self, o):
        return not self._atleast(as_index(o) + 1)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return self > 0

    def __sub__(self, o):
        unsupported("arithmetic on a symbolic length")

    __add__ = __radd__ = __rsub__ = __mul__ = __mod__ = __floordiv__ = __sub__


# ============================================================================ models


def model_value(v, m, c):
    """Concrete counterpart of an input under a z3 model and the string solved form."""
    if isinstance(v, SymStr):
        s = "".join(_part_value(p, m, c) for p in resolve(v._parts))
        return {"b": s} if v.isb else s
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBV):
        return m.eval(v.e, model_completion=True).as_signed_long()
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.cond, model_completion=True)))
    if isinstance(v, SymSeq):
        out = [model_value(k, m, c) for k in v.known]
        if v.tail is not None:
            t = v.tail
            s = "".join(_part_value(p, m, c) for p in resolve(t.parts))
            out += s.split(t.sep)
        return out
    if isinstance(v, (list, tuple)):
        return [model_value(x, m, c) for x in v]
    if isinstance(v, (str, int, bool, float, type(None))):
        return v
    return repr(v)


def _part_value(p, m, c):
    if isinstance(p, str):
        return p
    k = c.assign.get(p)
    if k is not None:
        return k
    d = c.dom[p]
    if p.num is not None:
        n = p.num
        if isinstance(n, int):
            v = n
        elif isinstance(n, SymBV):
            v = m.eval(n.e, model_completion=True).as_signed_long()
        else:
            v = m.eval(zint(n), model_completion=True).as_long()
        r = f"{v:0{p.width}d}" if p.width else str(v)
    else:
        r = None
        dv = c.digitvar.get(p, (None,))[0]
        if dv is not None and m is not None:
            v = m.eval(dv[0], model_completion=True).as_long()
            if v >= 0:
                s = _base(v, dv[1])
                for k in range(0, 24):
                    if ("0" * k + s) in d:
                        r = "0" * k + s
                        break
        if r is None:
            lv = c.lenvar.get(p)
            if lv is not None and m is not None:
                k = m.eval(lv, model_completion=True).as_long()
                if 0 <= k <= 200:
                    r = (d & L.ANY.times(k)).shortest()
            if r is None:
                r = d.sample(c.rng, c.rng.randint(1, 6)) if c.rng else d.shortest()
    c.assign[p] = r
    return r


def _base(v, b):
    if b == 10:
        return str(v)
    out = ""
    while True:
        out = "0123456789abcdef"[v % b] + out
        v //= b
        if v == 0:
            return out
