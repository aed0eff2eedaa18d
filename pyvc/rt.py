"""Runtime behind the instrumented code (`_vc_`): Python operations on symbolic values."""
import builtins
import copy
import enum
import functools
import collections
import collections.abc
import re
import sys
import types

import z3

from . import core
from . import lang as L
from . import sym as S
from .core import Abandon, Infeasible, Stop, Unsupported, ctx, unsupported
from .sym import (Sym, SymBool, SymBV, SymFloat, SymHash, SymInt, SymLen, SymSeq, SymStr, SeqLen, Tail, has_sym, lift,
                  mkbool, mkint, mknot, mkseq, mkstr, topl, truth)

MISSING = object()


# ============================================================================ helper values


class Poison(Sym):
    """A local the loop invariant says nothing about."""

    __slots__ = ("why",)

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        unsupported(f"value not fixed by the loop invariant: {self.why}")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __add__ = __radd__ = __sub__ = _no
    __rsub__ = __mul__ = __rmul__ = __and__ = __or__ = __xor__ = __call__ = __getattr__ = __setattr__ = _no
    __lshift__ = __rshift__ = __invert__ = __neg__ = __mod__ = __floordiv__ = __await__ = _no
    __hash__ = Sym.__hash__


class TextAcc(Sym):
    """A list of texts of which only the concatenation is known: it can grow and be joined with the empty text."""

    __slots__ = ("text",)

    def __init__(self, text):
        object.__setattr__(self, "text", text)

    def append(self, x):
        if not isinstance(x, (str, SymStr)) or (isinstance(x, SymStr) and x.isb):
            unsupported("a list accumulated in a loop gets something that is no text")
        object.__setattr__(self, "text", self.text + x)

    def extend(self, xs):
        for x in _iterlist(xs):
            self.append(x)

    def _no(self, *a, **k):
        unsupported("a list accumulated in a loop is used for more than joining")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __add__ = __radd__ = __iter__ = __len__ = _no
    __getattr__ = __setattr__ = __getitem__ = __contains__ = __mul__ = __rmul__ = _no
    __hash__ = Sym.__hash__


class SymRange(Sym):
    """range(0, len(text), step)"""

    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SymIdx(Sym):
    """Start of the current chunk of a text, plus an offset."""

    __slots__ = ("parts", "chunk", "off")

    def __init__(self, parts, chunk, off):
        self.parts, self.chunk, self.off = parts, chunk, off

    def __add__(self, o):
        if isinstance(o, int):
            return SymIdx(self.parts, self.chunk, self.off + o)
        unsupported("index arithmetic")

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return SymIdx(self.parts, self.chunk, self.off - o)
        unsupported("index arithmetic")

    def _no(self, *a):
        unsupported("index arithmetic")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __mul__ = __rmul__ = __mod__ = __bool__ = _no
    __rsub__ = __floordiv__ = _no
    __hash__ = Sym.__hash__


class OpenList(Sym):
    """A list with known first elements and an unknown rest."""

    __slots__ = ("known",)

    def __init__(self, known):
        self.known = list(known)

    def __bool__(self):
        return True

    def length(self):
        c = ctx()
        n = z3.Int(c.fresh_name("n"))
        c.add(n >= len(self.known))
        return SymInt(n)

    def getitem(self, i):
        if isinstance(i, int) and 0 <= i < len(self.known):
            return self.known[i]
        unsupported("element of an open list")

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if isinstance(o, list) and len(o) < len(self.known):
            return False
        unsupported("comparing an open list")


class GenExp:
    def __init__(self, it, lam, cond):
        self.src, self.lam, self.cond = it, lam, cond

    def symbolic(self):
        return isinstance(self.src, Sym) and not _natively(self.src)

    def __iter__(self):
        return iter(listcomp(self.src, self.lam, self.cond))

    def __next__(self):
        if not hasattr(self, "_i"):
            self._i = iter(self)
        return next(self._i)


class HInt(int):
    key = None


class KeyBox:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class FakeMatch:
    """Result of a successful pattern match: only its truth is known."""

    def __init__(self, pat, s):
        self.re, self.string = pat, s

    def group(self, *a):
        unsupported("match groups")

    groups = groupdict = start = end = span = group

    def __getitem__(self, i):
        unsupported("match groups")


def _natively(x):
    """A symbolic iterable that can be unrolled exactly."""
    if isinstance(x, SymSeq):
        return x.all() is not None
    if isinstance(x, SymStr):
        return _fixed_len(x) is not None
    return False


def _fixed_len(s, limit=40):
    n = 0
    for p in s.parts:
        if isinstance(p, str):
            n += len(p)
        else:
            a, b = ctx().dom[p].lengths()
            if a != b:
                return None
            n += a
    return n if n <= limit else None


def _unroll(x):
    if isinstance(x, SymSeq):
        return x.all()
    n = _fixed_len(x)
    return [x.getitem(i) for i in range(n)]


# ============================================================================ equality and hashing


def eq(a, b):
    return a == b


def _pyfunc(f):
    return isinstance(f, types.FunctionType)


def vhash(x):
    if isinstance(x, Sym):
        if isinstance(x, SymSeq):
            x.settle()
            return SymHash(("seq", x.kind, tuple(_hkey(vhash(k)) for k in x.known),
                            mkstr(x.tail.parts) if x.tail else None))
        return SymHash(x)
    if isinstance(x, tuple):
        hs = [vhash(e) for e in x]
        if any(isinstance(h, SymHash) for h in hs):
            return SymHash(tuple(_hkey(h) for h in hs))
        r = HInt(hash(tuple(int(h) for h in hs)) if False else builtins.hash(x))
        r.key = tuple(_hkey(h) for h in hs)
        return r
    h = type(x).__hash__
    if _pyfunc(h) and "_vc_" in h.__globals__:
        return h(x)
    if h is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    r = HInt(builtins.hash(x))
    r.key = x
    return r


def _hkey(h):
    return h.key if isinstance(h, (SymHash, HInt)) else h


def hash_eq(a, b):
    if not isinstance(a, SymHash) and not isinstance(b, SymHash):
        return int(a) == int(b)
    return S.hash_keys_equal(_hkey(a), _hkey(b))


def seq_eq(a, b):
    if isinstance(b, (list, tuple)):
        if isinstance(b, list) != (a.kind == "list"):
            return False
        b = SymSeq(list(b), None, a.kind)
    if not isinstance(b, SymSeq):
        return False
    if a.kind != b.kind:
        return False
    i = 0
    for _ in range(64):
        a.settle()
        b.settle()
        while i < len(a.known) and i < len(b.known):
            x, y = a.known[i], b.known[i]
            if x is not y and not truth(x == y):
                return False
            i += 1
        ta, tb = a.tail, b.tail
        if ta is None and tb is None:
            return len(a.known) == len(b.known)
        if ta is not None and tb is not None and len(a.known) == len(b.known) and ta.sep == tb.sep:
            if S.str_eq(ta.parts, tb.parts) is True and _tails_pointwise_equal(ta, tb):
                return True
        # peel the side that is behind
        if len(a.known) <= i and ta is not None:
            if not b.upto(i + 1):
                return False
            a.force()
        elif len(b.known) <= i and tb is not None:
            if not a.upto(i + 1):
                return False
            b.force()
        elif ta is None and len(a.known) == i and (tb is not None or len(b.known) > i):
            return False
        elif tb is None and len(b.known) == i and (ta is not None or len(a.known) > i):
            return False
        else:
            unsupported("sequence comparison")
        if len(a.known) > 12:
            unsupported("sequence comparison")
    unsupported("sequence comparison")


def _tails_pointwise_equal(ta, tb):
    if ta.fn is tb.fn:
        return True
    c = ctx()
    lang = piece_lang(ta)

    def one():
        x = mkstr((S.new_atom("e", lang),), ta.isb)
        u, v = ta.apply(x), tb.apply(x)
        return truth(u == v)

    return all(k == "ok" and v is True for k, v, pure in c.nested(one))


def piece_lang(t):
    """Language of one element of the rest of a split."""
    return L.split_pieces(S.parts_lang(t.parts), t.sep)


# ============================================================================ text


def vstr(x):
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            if x.isb:
                return S.opaque("repr", (x,), L.ALL)
            return x
        if isinstance(x, (SymInt, SymBV, SymBool, SymLen)):
            return S.int_text(x)
        if isinstance(x, SymFloat):
            return S.opaque("floatstr", (x.text,), L.ALL)
        return S.opaque("str", (x,), L.ALL)
    t = type(x)
    if isinstance(x, str) and not _pyfunc(t.__str__):
        return str(x)
    f = t.__str__
    if _pyfunc(f):
        r = f(x)
        if not isinstance(r, (str, SymStr)) or (isinstance(r, SymStr) and r.isb):
            raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
        return r
    if isinstance(x, BaseException):
        if not has_sym(x.args):
            return str(x)
        if len(x.args) == 1:
            return vstr(x.args[0])
        return S.opaque("exc", (x,), L.ALL)
    if f is object.__str__ and _pyfunc(t.__repr__):
        return t.__repr__(x)
    if isinstance(x, (list, tuple, dict, set)):
        return plain_or_opaque(x)
    return str(x)


def plain_or_opaque(x):
    if plain(x):
        return repr(x)
    return S.opaque("repr", (x,), L.ALL)


def vrepr(x):
    if isinstance(x, Sym):
        return S.opaque("repr", (x,), L.ALL)
    if _pyfunc(type(x).__repr__):
        return type(x).__repr__(x)
    if isinstance(x, (list, tuple, dict, set)) or isinstance(x, BaseException):
        return plain_or_opaque(x)
    return repr(x)


_INTSPEC = re.compile(r"^(0?)(\d*)(d?)$")


def vformat(x, spec=""):
    if isinstance(spec, Sym):
        unsupported("symbolic format specification")
    if isinstance(x, Sym):
        if spec == "":
            return vstr(x)
        if isinstance(x, SymBool):
            x = S.as_int(x)
        if isinstance(x, SymLen):
            x = x.as_int()
        if isinstance(x, int):
            return format(x, spec)
        if isinstance(x, (SymInt, SymBV)):
            m = _INTSPEC.match(spec)
            if m and (m.group(1) == "0" or m.group(2) == ""):
                return S.int_text(x, int(m.group(2) or 0))
            return S.opaque("fmt:" + spec, (x,), L.ALL)
        if isinstance(x, SymStr):
            m = re.match(r"^(.?[<>])?(0?)(\d+)$", spec)
            if m and m.group(1) in ("0>",) and m.group(2) == "":
                return x.rjust(int(m.group(3)), "0")
            return S.opaque("fmt:" + spec, (x,), L.ALL)
        return S.opaque("fmt:" + spec, (x,), L.ALL)
    t = type(x)
    f = t.__format__
    if f is object.__format__:
        if spec:
            raise TypeError("unsupported format string passed to object.__format__")
        return vstr(x)
    if _pyfunc(f):
        if f.__module__ == "enum":
            return str(vstr(x)) if spec == "" and not isinstance(vstr(x), Sym) else format(x, spec)
        return f(x, spec)
    return format(x, spec)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = vrepr(v)
        elif conv == 115:
            v = vstr(v)
        elif conv == 97:
            v = S.opaque("ascii", (v,), L.ALL) if has_sym(v) else ascii(v)
        r = vformat(v, spec)
        out.append(r)
    if not any(isinstance(o, Sym) for o in out):
        return "".join(out)
    ps = ()
    for o in out:
        ps = ps + topl(o)
    return mkstr(ps)


def str_join(sep, it):
    isb = isinstance(sep, (bytes, bytearray)) or (isinstance(sep, SymStr) and sep.isb)
    if isinstance(it, GenExp):
        it = listcomp(it.src, it.lam, it.cond)
    if isinstance(it, TextAcc):
        if isinstance(sep, str) and sep == "":
            return it.text
        unsupported("joining a list accumulated in a loop")
    if isinstance(it, SymStr):
        if isinstance(sep, str) and sep == "":
            return it
        it = _iterlist(it)
    if isinstance(it, SymSeq):
        known, tail = it.known, it.tail
        it.settle()
        known, tail = list(it.known), it.tail
    else:
        known, tail = list(_iterlist(it)), None
    if tail is None and not has_sym(known) and not isinstance(sep, Sym):
        return sep.join(known)
    ps = ()
    for i, k in enumerate(known):
        if i:
            ps += topl(sep)
        if not (isinstance(k, (str, bytes)) or isinstance(k, SymStr)) or (lift(k).isb != isb):
            raise TypeError(f"sequence item {i}: expected str instance, {type(k).__name__} found")
        ps += topl(k)
    if tail is not None:
        if known:
            ps += topl(sep)
        if isinstance(sep, Sym):
            unsupported("joining with a symbolic separator")
        ps += _join_tail(sep, tail)
    return mkstr(ps, isb)


def _join_tail(sep, t):
    c = ctx()
    lang = piece_lang(t)

    def one():
        a = S.new_atom("e", lang)
        x = mkstr((a,), t.isb)
        r = t.apply(x)
        if not isinstance(r, (str, bytes, SymStr)):
            return ("type", type(r).__name__)
        return ("same", S.resolve(topl(r)) == S.resolve((a,)))

    for kind, v, pure in c.nested(one):
        if kind == "exc":
            unsupported(f"joining elements that raise {type(v).__name__}")
        if v[0] == "type":
            raise TypeError(f"sequence item 0: expected str instance, {v[1]} found")
        if v[1] is not True:
            unsupported("joining transformed elements")
    if sep != t.sep:
        # sep.join(text.split(t.sep)) with another separator
        return topl(lift(mkstr(t.parts, t.isb)).replace(t.sep, sep))
    return t.parts


# ============================================================================ calls


def plain(x, depth=4):
    if x is None or isinstance(x, (int, float, str, bytes, bool, type, types.FunctionType, types.ModuleType,
                                   types.BuiltinFunctionType, enum.Enum, re.Pattern, slice, range)):
        return not isinstance(x, Sym)
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return all(plain(e, depth - 1) for e in x)
    if depth and type(x) is dict:
        return all(plain(k, depth - 1) and plain(v, depth - 1) for k, v in x.items())
    return False


_instr_cache = {}


def instrumented(f):
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, types.FunctionType):
        return "_vc_" in f.__globals__ or getattr(f, "_vc_ok", False)
    if isinstance(f, type):
        r = _instr_cache.get(f)
        if r is None:
            m = sys.modules.get(f.__module__)
            r = _instr_cache[f] = hasattr(m, "_vc_") or getattr(f, "_vc_ok", False)
        return r
    c = getattr(type(f), "__call__", None)
    if isinstance(c, types.FunctionType):
        return "_vc_" in c.__globals__ or getattr(type(f), "_vc_ok", False)
    return getattr(f, "_vc_ok", False)


ALLOW = {copy.deepcopy, copy.copy, functools.partial}


# slot methods called by name: the operators they implement
SLOTS = {"__contains__": lambda me, x: contains(x, me), "__getitem__": lambda me, i: getitem(me, i), "__len__": lambda me: b_len(me),
         "__str__": lambda me: b_str(me)}


def call(f, /, *a, **k):
    c = core.CTX
    if c is not None and c.stubs:
        g = f.__func__ if isinstance(f, types.MethodType) else f
        if isinstance(g, types.FunctionType):
            s = c.stubs.get(f"{g.__module__}:{g.__qualname__}")
            if s is not None:
                c.run.stubs_used.add(f"{g.__module__}:{g.__qualname__}")
                if isinstance(f, types.MethodType):
                    return s(f.__self__, *a, **k)
                return s(*a, **k)
    try:
        h = BUILTINS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if isinstance(f, Sym):
        return f(*a, **k)
    if type(f) is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k and f._member_map_:
        if isinstance(a[0], Sym) or not plain(a[0]):
            return enum_lookup(f, a[0])
    if instrumented(f):
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        try:
            ok = f in ALLOW
        except TypeError:
            ok = False
        if ok:
            return f(*a, **k)
        me = getattr(f, "__self__", None)
        if isinstance(me, BaseException):
            return f(*a, **k)
        if isinstance(f, types.MethodWrapperType):
            if f.__name__ in SLOTS and not k:
                return SLOTS[f.__name__](me, *a)
            unsupported(f"native call {getattr(f, '__qualname__', f)} with a symbolic argument")
        if isinstance(f, types.WrapperDescriptorType) and f.__name__ in SLOTS and a and not k and f.__objclass__ is not object:
            return SLOTS[f.__name__](*a)
        if me is not None and not isinstance(me, types.ModuleType) and not isinstance(me, type):
            return callm(me, f.__name__, *a, **k)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*a, **k)
        if isinstance(f, (types.MethodDescriptorType,)) and a:
            return callm(a[0], f.__name__, *a[1:], **k)
        unsupported(f"native call {getattr(f, '__qualname__', f)} with a symbolic argument")
    return native(f, a, k)


def native(f, a, k):
    try:
        return f(*a, **k)
    except (TypeError, AttributeError):
        if core.CTX is None or (all(plain(x) for x in a) and all(plain(x) for x in k.values())):
            raise
        me = getattr(f, "__self__", None)
        if not a and not k and plain(me):
            raise
        tb = sys.exc_info()[2]
        # raised by instrumented Python code further down: a real exception of that code
        while tb.tb_next is not None:
            tb = tb.tb_next
        if "_vc_" in tb.tb_frame.f_globals:
            raise
        raise Unsupported(f"native call {getattr(f, '__qualname__', f)} failed on symbolic data")


def enum_lookup(cls, v):
    if isinstance(v, cls):
        return v
    members = list(dict.fromkeys(cls._member_map_.values()))
    if isinstance(v, SymStr) and all(isinstance(m._value_, str) for m in members):
        if S.member(v.parts, L.words(sorted(str.__str__(m._value_) for m in members))):
            for m in members:
                if S.member(v.parts, L.lit(str.__str__(m._value_))):
                    return m
            raise Infeasible()
    else:
        for m in members:
            if truth(m._value_ == v):
                return m
    miss = cls._missing_
    if _pyfunc(getattr(miss, "__func__", None)) and "_vc_" in miss.__func__.__globals__:
        r = miss(v)
        if isinstance(r, cls):
            return r
    raise ValueError(f"value is not a valid {cls.__qualname__}")


engine_error = core.engine_error
Exception_ = Exception
EngineStop = (Unsupported, Infeasible, Abandon, Stop)


def callm(obj, name, /, *a, **k):
    if isinstance(obj, Sym):
        f = getattr(obj, name)
        return f(*a, **k)
    if isinstance(obj, dict) and name in DICTM and not _pyfunc(getattr(type(obj), name, None)):
        return DICTM[name](obj, *a, **k)
    if isinstance(obj, (str, bytes)):
        f = getattr(obj, name)
        if isinstance(f, types.BuiltinMethodType):
            if name == "join" and a:
                return str_join(obj, a[0])
            if has_sym(a) or has_sym(k):
                if name == "format":
                    return str_format(obj, a, k)
                return getattr(lift(obj), name)(*a, **k)
            if name == "format" and not all(plain(x) for x in a):
                return str_format(obj, a, k)
    if isinstance(obj, (set, frozenset)) and len(a) == 1 and isinstance(a[0], (SymStr, CharSet)):
        if name in ("issuperset", "issubset", "isdisjoint", "intersection"):
            t = b_set(a[0])
            return {"issuperset": t.__le__, "issubset": t.__ge__, "isdisjoint": t.isdisjoint, "intersection": t.__and__}[name](obj)
    if isinstance(obj, re.Pattern) and a and (isinstance(a[0], SymStr) or name == "sub" and len(a) > 1 and isinstance(a[1], SymStr)):
        return pattern_method(obj, name, *a, **k)
    if obj is re and len(a) > 1 and name in RE_FUNCS and has_sym(a):
        return re_func(name)(*a, **k)
    if isinstance(obj, list) and a and isinstance(a[0], (SymSeq, GenExp, SymStr)) and name == "extend":
        obj.extend(_iterlist(a[0]))
        return None
    if isinstance(obj, (list, set)) and core.CTX is not None and name in ("append", "add", "insert"):
        if isinstance(obj, set) and isinstance(vhash(a[0]), SymHash):
            unsupported("symbolic set element")
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, (list, tuple)) and name in ("index", "count", "remove", "sort") and (has_sym(a) or not plain(obj)):
        return getattr(obj, name)(*a, **k)
    f = getattr(obj, name)
    if isinstance(f, types.BuiltinMethodType) and not isinstance(obj, (type, types.ModuleType)) and (has_sym(a) or has_sym(k)):
        if isinstance(obj, (list, collections.deque)) and name in ("append", "appendleft", "insert"):
            return f(*a, **k)
        if not (isinstance(obj, BaseException) or obj is None):
            try:
                ok = f in ALLOW or f in BUILTINS
            except TypeError:
                ok = False
            if not ok:
                unsupported(f"native call {type(obj).__name__}.{name} with a symbolic argument")
    return call(f, *a, **k)


def str_format(s, a, k):
    import string

    out = []
    auto = 0
    for lit_, field, spec, conv in string.Formatter().parse(s):
        if lit_:
            out.append(lit_)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            unsupported("format field")
        out.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(*out)


RE_FUNCS = ("match", "fullmatch", "search", "split", "sub")


def re_func(name):
    def f(pat, *a, **k):
        s = a[1] if name == "sub" and len(a) > 1 else a[0] if a else None
        if not isinstance(s, SymStr):
            if has_sym(a) or has_sym(k) or has_sym((pat,)):
                unsupported(f"re.{name} with a symbolic argument")
            return getattr(re, name)(pat, *a, **k)
        if isinstance(pat, Sym) or k:
            unsupported(f"re.{name} with a symbolic pattern or options")
        if name == "sub":
            return pattern_method(re.compile(pat), name, *a)
        return pattern_method(re.compile(pat, *(a[1:] if name not in ("split",) else ())), name, s, *(a[1:] if name == "split" else ()))
    return f


def _literal(p):
    """The one word a pattern matches, if it is a plain literal."""
    from . import lang as L_

    if p.flags & (re.IGNORECASE | re.VERBOSE) or isinstance(p.pattern, bytes):
        return None
    try:
        items = list(L_.sre.parse(p.pattern, p.flags))
    except Exception:
        return None
    if items and all(op is L_.srec.LITERAL for op, _ in items):
        return "".join(chr(av) for _, av in items)
    return None


def pattern_method(p, name, s, *a):
    w = _literal(p) if name in ("split", "sub") else None
    if w is not None and name == "split" and not a and isinstance(s, SymStr):
        return s.split(w)
    if w is not None and name == "sub" and len(a) == 1 and isinstance(a[0], SymStr) and isinstance(s, (str, SymStr)):
        if isinstance(s, SymStr) or "\\" in s:
            unsupported("re.sub with a symbolic replacement")
        return a[0].replace(w, s)
    if a or name not in ("match", "fullmatch", "search"):
        unsupported(f"pattern {name}")
    try:
        lang = L.regex(p.pattern, p.flags, name)
    except L.Unsup as e:
        unsupported(str(e))
    return FakeMatch(p, s) if S.member(s.parts, lang) else None


# ============================================================================ dictionaries


def unbox(k):
    return k.k if isinstance(k, KeyBox) else k


def dict_find(d, k):
    if isinstance(d, OpaqueDict):
        return d.find(k)
    h = vhash(k)
    if isinstance(h, SymHash):
        cands = list(d)
    else:
        if builtins.dict.__contains__(d, k):
            return k
        cands = [b for b in d if isinstance(b, KeyBox)]
    for b in cands:
        key = unbox(b)
        if key is k:
            return b
        if truth(key == k) and truth(hash_eq(vhash(key), h)):
            return b
    return MISSING


def _new_key(d, k):
    if isinstance(d, OpaqueDict):
        return d.asked_box(k)
    return KeyBox(k) if isinstance(vhash(k), SymHash) else k


def dict_get(d, k, default=None):
    b = dict_find(d, k)
    return default if b is MISSING else builtins.dict.__getitem__(d, b)


def dict_set(d, k, v):
    b = dict_find(d, k)
    if b is MISSING:
        b = _new_key(d, k)
    builtins.dict.__setitem__(d, b, v)


def dict_setdefault(d, k, default=None):
    b = dict_find(d, k)
    if b is MISSING:
        b = _new_key(d, k)
        builtins.dict.__setitem__(d, b, default)
    return builtins.dict.__getitem__(d, b)


def dict_pop(d, k, *default):
    b = dict_find(d, k)
    if b is MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    return builtins.dict.pop(d, b)


def dict_keys(d):
    if isinstance(d, OpaqueDict):
        return d.keys()
    if any(isinstance(b, KeyBox) for b in d):
        return [unbox(b) for b in d]
    return builtins.dict.keys(d)


def dict_items(d):
    if isinstance(d, OpaqueDict):
        return d.items()
    if any(isinstance(b, KeyBox) for b in d):
        return [(unbox(b), v) for b, v in builtins.dict.items(d)]
    return builtins.dict.items(d)


def dict_copy(d):
    if isinstance(d, OpaqueDict):
        return d.copy()
    return dict(builtins.dict.items(d))


def dict_update(d, *a, **k):
    for x in a:
        for key, v in (dict_items(x) if isinstance(x, dict) else _iterlist(x)):
            dict_set(d, key, v)
    for key, v in k.items():
        dict_set(d, key, v)


DICTM = dict(update=dict_update, get=dict_get, setdefault=dict_setdefault, pop=dict_pop, keys=dict_keys, items=dict_items, copy=dict_copy)


class OpaqueDict(dict):
    """An arbitrary mapping: what is under a key is chosen by the harness on first use."""

    def __init__(self, chooser):
        super().__init__()
        self.chooser = chooser
        self.asked = []
        self.first = None  # how many entries it has at the start
        self.found = 0

    def length(self):
        if self.first is None:
            n = z3.Int(ctx().fresh_name("n"))
            ctx().add(n >= self.found)
            self.first = SymInt(n)
        return self.first + (builtins.dict.__len__(self) - self.found)

    def clear(self):
        builtins.dict.clear(self)
        self.chooser = lambda k: MISSING
        self.first = self.found = 0

    def _opaque(self, *a, **k):
        unsupported("all the entries of an arbitrary mapping")

    __iter__ = keys = values = items = copy = popitem = update = __eq__ = __ne__ = __or__ = __ior__ = __ror__ = __reversed__ = _opaque
    __len__ = _opaque

    def __bool__(self):
        return truth(self.length() != 0)

    def asked_box(self, k):
        for b in self.asked:
            if b.k is k or (truth(b.k == k) and truth(hash_eq(vhash(b.k), vhash(k)))):
                return b
        return None

    def find(self, k):
        b = self.asked_box(k)
        if b is not None:
            return b if builtins.dict.__contains__(self, b) else MISSING
        b = KeyBox(k)
        self.asked.append(b)
        r = self.chooser(k)
        if r is not MISSING:
            self.found += 1
            if isinstance(self.first, SymInt):
                ctx().add(self.first.e >= self.found)
            builtins.dict.__setitem__(self, b, r)
            return b
        return MISSING


# ============================================================================ containers


def contains(x, c):
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, CharSet):
        return c.__contains__(x)
    if isinstance(c, SymSeq):
        i = 0
        while True:
            c.settle()
            while i < len(c.known):
                if c.known[i] is x or truth(c.known[i] == x):
                    return True
                i += 1
            if c.tail is None:
                return False
            if i > 6:
                unsupported("membership in a symbolic sequence")
            c.force()
    if isinstance(c, OpenList):
        unsupported("membership in an open list")
    if isinstance(c, GenExp):
        c = _iterlist(c)
    if isinstance(c, dict):
        return dict_find(c, x) is not MISSING
    if isinstance(c, str) and isinstance(x, SymStr):
        return lift(c).contains(x)
    if isinstance(c, (set, frozenset)) and not plain(x):
        c = sorted(c, key=repr) if plain(list(c)) else list(c)
    if isinstance(c, (list, tuple)):
        if isinstance(x, SymStr) and c and all(type(e) is str for e in c):
            return S.member(x.parts, L.words(sorted(set(c))))
        for e in c:
            if e is x or truth(e == x):
                return True
        return False
    if isinstance(c, range) and isinstance(x, Sym):
        n = S.as_int(x)
        if n is None:
            return False
        if isinstance(n, int):
            return n in c
        if c.step == 1:
            lo, hi = n >= c.start, n < c.stop
            return mkbool(z3.And(S.zcond(lo), S.zcond(hi)))
        unsupported("membership in a strided range")
    if isinstance(c, enum.EnumMeta) and not plain(x):
        for m in c:
            if truth(m._value_ == x):
                return True
        return False
    if isinstance(c, types.MappingProxyType) and not plain(x):
        return any(truth(e == x) for e in c)
    f = getattr(type(c), "__contains__", None)
    if _pyfunc(f):
        return f(c, x)
    if isinstance(x, Sym):
        unsupported(f"membership in {type(c).__name__}")
    return x in c


def getitem(x, i):
    if isinstance(x, SymStr):
        if isinstance(i, SymIdx):
            return _chunk_item(x, i)
        if isinstance(i, slice) and isinstance(i.start, SymIdx):
            return _chunk_slice(x, i)
        return x.getitem(i)
    if isinstance(x, (SymSeq, OpenList)):
        return x.getitem(i)
    if isinstance(x, dict) and not _pyfunc(getattr(type(x), "__getitem__", None)):
        b = dict_find(x, i)
        if b is MISSING:
            if hasattr(type(x), "__missing__"):
                return type(x).__missing__(x, i)
            raise KeyError(i)
        return builtins.dict.__getitem__(x, b)
    if isinstance(i, Sym) or (isinstance(i, slice) and has_sym(i)):
        if isinstance(x, (list, tuple, str)) and isinstance(i, (SymInt, SymBV)):
            n = len(x)
            if n <= 64:
                for j in range(-n, n):
                    if truth(i == j):
                        return x[j]
                raise IndexError("index out of range")
        if isinstance(x, (str, bytes)):
            return lift(x).getitem(i)
        if isinstance(x, types.MappingProxyType):
            for k in x:
                if truth(k == i):
                    return x[k]
            raise KeyError(i)
        if isinstance(x, enum.EnumMeta) and isinstance(i, SymStr):
            for nme, m in x._member_map_.items():
                if truth(i == nme):
                    return m
            raise KeyError(i)
        f = getattr(type(x), "__getitem__", None)
        if not _pyfunc(f):
            unsupported("symbolic subscript")
    if isinstance(x, types.MappingProxyType) and not plain(i):
        for k in x:
            if truth(k == i):
                return x[k]
        raise KeyError(i)
    return x[i]


def _chunk_item(x, i):
    if S.resolve(x.parts) != S.resolve(i.parts):
        unsupported("index of another text")
    if not 0 <= i.off < len(i.chunk):
        unsupported("index outside the current chunk")
    return i.chunk[i.off]


def _chunk_slice(x, s):
    a, b = s.start, s.stop
    if not isinstance(b, SymIdx) or s.step not in (None, 1):
        unsupported("slice of a symbolic text")
    if S.resolve(x.parts) != S.resolve(a.parts) or a.off < 0 or b.off > len(a.chunk):
        unsupported("slice outside the current chunk")
    out = ""
    for ch in a.chunk[a.off : b.off]:
        out = out + ch
    return out


def setitem(x, k, v):
    if isinstance(x, dict) and not _pyfunc(getattr(type(x), "__setitem__", None)):
        return dict_set(x, k, v)
    if isinstance(k, Sym):
        unsupported("symbolic subscript assignment")
    x[k] = v


def delitem(x, k):
    if isinstance(x, dict) and not _pyfunc(getattr(type(x), "__delitem__", None)):
        dict_pop(x, k)
        return
    if isinstance(x, SymSeq):
        if isinstance(k, slice):
            if k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0 and k.step in (None, 1):
                x.upto(k.stop)
                del x.known[: k.stop]
                return
            unsupported("deleting from a symbolic sequence")
        x.pop(k)
        return
    if isinstance(k, Sym):
        unsupported("symbolic deletion")
    del x[k]


# -- match statements ---------------------------------------------------------
def true(x):
    return True


def same_object(x, v):
    if isinstance(x, SymBool):
        return isinstance(v, bool) and truth(x) == v
    return x is v


def plain_subject(x):
    if isinstance(x, Sym):
        unsupported("match on a symbolic value")
    return x


def match_seq(x, nb, na):
    """The elements a sequence pattern binds, or None; na is None without a star."""
    if isinstance(x, SymSeq):
        if na is None:
            return list(x.known) if x.upto(nb) and not x.upto(nb + 1) else None
        return unpack_ex(x, nb, na) if x.upto(nb + na) else None
    if isinstance(x, (OpenList, Poison)):
        unsupported("match on an open list")
    if isinstance(x, Sym) or isinstance(x, (str, bytes, bytearray)) or not isinstance(x, (collections.abc.Sequence,)):
        return None
    if na is None:
        return x if len(x) == nb else None
    return unpack_ex(x, nb, na) if len(x) >= nb + na else None


_SELF = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def match_class(x, cls, n, names):
    if not b_isinstance(x, cls):
        return None
    out = []
    if n:
        if cls in _SELF or (isinstance(cls, type) and issubclass(cls, _SELF) and not hasattr(cls, "__match_args__")):
            if n > 1:
                raise TypeError("too many positional patterns")
            out.append(x)
        else:
            args = getattr(cls, "__match_args__", ())
            if len(args) < n:
                raise TypeError(f"{cls.__name__}() accepts {len(args)} positional sub-patterns ({n} given)")
            names = tuple(args[:n]) + tuple(names)
    for a in names:
        try:
            out.append(getattr(x, a))
        except AttributeError:
            return None
    return out


def mod(a, b):
    if isinstance(a, str) and not isinstance(a, Sym):
        args = b if isinstance(b, tuple) else (b,)
        if all(plain(x) for x in args):
            return a % b
        if isinstance(b, dict) or isinstance(b, SymSeq):
            unsupported("% formatting with a mapping")
        out, i, pos = [], 0, 0
        for m in re.finditer(r"%(0?)(\d*)([sdi%r])|%", a):
            if m.group(0) == "%":
                unsupported("% formatting")
            out.append(a[pos : m.start()])
            pos = m.end()
            if m.group(3) == "%":
                out.append("%")
                continue
            if i >= len(args):
                raise TypeError("not enough arguments for format string")
            x = args[i]
            i += 1
            if m.group(3) == "r":
                unsupported("%r formatting")
            if m.group(3) in "di":
                if isinstance(x, (str, SymStr, bytes)) or x is None:
                    raise TypeError("%d format: a real number is required")
                if m.group(2) and not m.group(1):
                    unsupported("% formatting")
                out.append(fstr((x, -1, (m.group(1) + m.group(2) + "d"))))
            else:
                if m.group(1) or m.group(2):
                    unsupported("% formatting")
                out.append(fstr((x, -1, "")))
        if i < len(args):
            raise TypeError("not all arguments converted during string formatting")
        out.append(a[pos:])
        return str_join("", [x for x in out])
    return a % b


def mkslice(a, b, c):
    return slice(a, b, c)


def _iterlist(v):
    if isinstance(v, GenExp):
        v = listcomp(v.src, v.lam, v.cond)
    if isinstance(v, Sym):
        if _natively(v):
            return _unroll(v)
        unsupported(f"iteration over {type(v).__name__}")
    if isinstance(v, dict):
        return list(dict_keys(v))
    return list(v)


def _display(parts, kind):
    out = []
    tail = None
    for starred, v in parts:
        if tail is not None:
            unsupported("elements after a symbolic sequence")
        if not starred:
            out.append(v)
            continue
        if isinstance(v, GenExp):
            v = listcomp(v.src, v.lam, v.cond)
        if isinstance(v, SymSeq):
            v.settle()
            out += v.known
            tail = v.tail
        else:
            out += _iterlist(v)
    if tail is None:
        return out if kind == "list" else tuple(out)
    return mkseq(out, tail, kind)


def mktuple(*parts):
    return _display(parts, "tuple")


def mklist(*parts):
    return _display(parts, "list")


def iadd(a, b):
    if isinstance(a, list) and isinstance(b, (SymSeq, GenExp)):
        r = a + (b if isinstance(b, SymSeq) else _iterlist(b))
        if isinstance(r, list):
            a[:] = r
            return a
        return r
    if isinstance(a, list):
        a += b
        return a
    return a + b


def unpack(v, n):
    if isinstance(v, SymSeq):
        if not v.upto(n):
            raise ValueError(f"not enough values to unpack (expected {n}, got {len(v.known)})")
        if v.upto(n + 1):
            raise ValueError(f"too many values to unpack (expected {n})")
        return tuple(v.known)
    if isinstance(v, SymStr):
        if truth(v.length() == n):
            return tuple(v.getitem(i) for i in range(n))
        raise ValueError("unpack")
    if isinstance(v, (OpenList, Poison)):
        unsupported("unpacking")
    if isinstance(v, GenExp):
        v = _iterlist(v)
        if isinstance(v, SymSeq):
            return unpack(v, n)
    return v


def unpack_ex(v, nb, na):
    if isinstance(v, GenExp):
        v = listcomp(v.src, v.lam, v.cond)
    if isinstance(v, SymSeq):
        if not v.upto(nb + na):
            raise ValueError("not enough values to unpack")
        if v.all() is None:
            head = list(v.known[:nb])
            rest = mkseq(v.known[nb:], v.tail, "list")
            ends = []
            for _ in range(na):
                if isinstance(rest, SymSeq):
                    rest, last = rest.init_last()
                    if isinstance(rest, tuple):
                        rest = list(rest)
                else:
                    last = rest[-1]
                    rest = rest[:-1]
                ends.insert(0, last)
            return tuple(head) + (rest,) + tuple(ends)
        v = v.all()
    if isinstance(v, Sym):
        v = _iterlist(v)
    v = list(v)
    if len(v) < nb + na:
        raise ValueError(f"not enough values to unpack (expected at least {nb + na}, got {len(v)})")
    return tuple(v[:nb]) + (v[nb : len(v) - na],) + tuple(v[len(v) - na :])


def untuple(f):
    def g(x):
        return f(*x)

    return g


def _partition(t, lam, want):
    """Explore lam on a generic element of a split rest.

    Returns {outcome: language of the elements with that outcome}; want(value) -> outcome."""
    c = ctx()
    lang = piece_lang(t)
    out = {}

    def one():
        a = S.new_atom("e", lang)
        try:
            o = want(lam(t.apply(mkstr((a,), t.isb))))
        except Exception as e:
            core.engine_error(e)
            o = ("exc", type(e))
        return o, S.parts_lang((a,))

    for kind, v, pure in c.nested(one):
        if kind == "exc":
            raise Unsupported(f"element exploration failed: {v!r}"[:200])
        if not pure:
            unsupported("element outcome depends on other symbolic values")
        o, l = v
        out[o] = out[o] | l if o in out else l
    _disjoint(out)
    return out


def _disjoint(out):
    """The outcomes partition the elements (they may not where a loop was cut: nothing is concluded then)."""
    ls = list(out.values())
    for i, a in enumerate(ls):
        for b in ls[i + 1 :]:
            if not (a & b).is_empty():
                unsupported("an element has more than one outcome")


def _all_pieces(lang, sep):
    """Texts all of whose pieces (str.split) lie in lang; exact, also for long separators."""
    return ((lang & L.piece_lang(sep)) + L.lit(sep)).star() + (lang & L.nosep(sep))


def _raise_first(t, lam, good, bad):
    """Some element raises: run lam on the first such element."""
    lam(_first_of(t, good, bad))
    raise Infeasible()


def _first_of(t, good, bad):
    """The first element in `bad` (there is one), all before it in `good`."""
    sep = L.lit(t.sep)
    pl = L.piece_lang(t.sep)
    pre = ((good & pl) + sep).star()
    mid, end = (bad & pl), (bad & L.nosep(t.sep))
    u, v = S.cut(S.resolve(t.parts), pre, end | (mid + sep + L.ALL))
    if S.member(v, end):
        e = v
    else:
        w, _ = S.cut(v, mid + sep, L.ALL)
        e, _ = S.cut(w, mid, sep)
    return t.apply(mkstr(e, t.isb))


def _first_piece(v, Q, sep):
    ls, pl, ns = L.lit(sep), L.piece_lang(sep), L.nosep(sep)
    if S.member(v, Q & ns):
        return v
    w, _ = S.cut(v, (Q & pl) + ls, L.ALL)
    return S.cut(w, Q & pl, ls)[0]


def listcomp(it, lam, cond):
    if isinstance(it, GenExp):
        it = listcomp(it.src, it.lam, it.cond)
    if isinstance(it, EnumSeq) and it.it is None:
        seq = it.seq
        seq.upto(2)
        if seq.all() is None:
            return _enumcomp(seq, it.start, lam, cond)
    if isinstance(it, SymSeq) and it.all() is None:
        if cond is not None:
            parts = _partition(it.tail, cond, lambda v: truth(v))
            t = it.tail
            if False not in parts and set(parts) != {True}:
                # elements are kept or raise
                return listcomp(it, _kept(cond, lam), None)
            known = [lam(k) for k in it.known if truth(cond(k))]
            if not set(parts) <= {True, False}:
                unsupported("filtered comprehension over a symbolic sequence")
            if True not in parts:
                return known
            if False in parts and not S.member(t.parts, _all_pieces(parts[True], t.sep)):
                if S.member(t.parts, _all_pieces(parts[False], t.sep)):
                    return known
                return OpenList(known + [lam(_first_of(t, parts[False], parts[True]))])
        else:
            known = [lam(k) for k in it.known]
        t = it.tail
        parts = _partition(t, lam, lambda v: "ok")
        bad = None
        for o, l in parts.items():
            if o != "ok":
                bad = l if bad is None else bad | l
        if bad is not None:
            good = parts.get("ok", L.EMPTY) - bad
            if S.member(t.parts, _all_pieces(good, t.sep)):
                pass
            else:
                _raise_first(t, lam, good, bad)
        return mkseq(known, t.mapped(lam), "list")
    if isinstance(it, Sym):
        it = _iterlist(it)
    if isinstance(it, dict):
        it = dict_keys(it)
    if cond is None:
        return [lam(x) for x in it]
    return [lam(x) for x in it if truth(cond(x))]


def raise_(f):
    """raise, as an expression"""
    raise f()


def _kept(cond, lam):
    def f(e):
        if truth(cond(e)):
            return lam(e)
        unsupported("filtered comprehension over a symbolic sequence")

    return f


class _Later(Sym):
    """An index of which only a lower bound is known."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _cmp(op):
        def f(self, o):
            if type(o) is not int:
                unsupported("comparing an open index")
            a = getattr(self.n, op)(o)
            # every larger index compares alike
            if op in ("__gt__", "__ge__") and a:
                return True
            if op in ("__lt__", "__le__") and not a:
                return False
            if op in ("__eq__", "__ne__") and o < self.n:
                return op == "__ne__"
            unsupported("comparing an open index")

        return f

    __gt__, __ge__, __lt__, __le__ = _cmp("__gt__"), _cmp("__ge__"), _cmp("__lt__"), _cmp("__le__")
    __eq__, __ne__ = _cmp("__eq__"), _cmp("__ne__")
    __hash__ = Sym.__hash__

    def __bool__(self):
        if self.n > 0:
            return True
        unsupported("comparing an open index")


def _enumcomp(seq, start, lam, cond):
    """[lam(i, e) for i, e in enumerate(seq) if cond(i, e)]: the elements themselves, chosen by what is known of the index."""
    n = start + len(seq.known)
    known = [(start + i, k) for i, k in enumerate(seq.known)]
    out = [lam(x) for x in known if cond is None or truth(cond(x))]
    j = _Later(n)

    def one(e):
        r = lam((j, e))
        if r is not e:
            unsupported("the elements of an enumeration are computed")
        return r

    rest = listcomp(SymSeq([], seq.tail, "list"), one, None if cond is None else lambda e: cond((j, e)))
    return append_all(out, rest)


def append_all(out, new):
    """out.extend(new) for a list nobody else holds."""
    if isinstance(new, OpenList):
        known, end = new.known, None
    elif isinstance(new, SymSeq):
        known, end = new.known, new.tail
    elif isinstance(out, list):
        out.extend(new)
        return out
    else:
        unsupported("appending to a list of unknown length")
    if not isinstance(out, list):
        unsupported("appending to a list of unknown length")
    if end is None:
        return OpenList(out + known) if isinstance(new, OpenList) else out + known
    return mkseq(out + known, end, "list")


def collects(it):
    """A loop that only appends is run as the comprehension it is."""
    return core.CTX is not None and (isinstance(it, EnumSeq) or isinstance(it, SymSeq) and it.all() is None)


def setcomp(it, lam, cond):
    r = listcomp(it, lam, cond)
    if isinstance(r, Sym) or any(isinstance(vhash(x), SymHash) for x in r):
        unsupported("symbolic set")
    return set(r)


def dictcomp(it, lam, cond):
    d = {}
    for k, v in _iterlist(listcomp(it, lam, cond)):
        dict_set(d, k, v)
    return d


def genexp(it, lam, cond):
    return GenExp(it, lam, cond)


# -- quantifiers -----------------------------------------------------------------


def _quant(it, universal):
    if isinstance(it, GenExp):
        src = it.src
        lam = it.lam
        if it.cond is not None and isinstance(src, Sym):
            c0, l0 = it.cond, it.lam
            lam = (lambda x: (not truth(c0(x))) or truth(l0(x))) if universal else (
                lambda x: truth(c0(x)) and truth(l0(x)))
        if isinstance(src, SymStr) and _fixed_len(src, 4) is None:
            return _quant_chars(src, lam, universal)
        if isinstance(src, SymSeq) and src.all() is None:
            for k in src.known:
                if truth(lam(k)) != universal:
                    return not universal
            t = src.tail
            parts = _partition(t, lam, truth)
            if set(parts) - {True, False}:
                unsupported("quantifier over elements that may raise")
            good = parts.get(universal, L.EMPTY)
            r = S.member(t.parts, _all_pieces(good, t.sep)) if not good.is_empty() else False
            return r if universal else not r
        if isinstance(src, (SymStr, SymSeq)):
            src = _unroll(src)
        elif isinstance(src, Sym):
            unsupported("quantifier over a symbolic iterable")
        for x in (dict_keys(src) if isinstance(src, dict) else src):
            if it.cond is not None and not truth(it.cond(x)):
                continue
            if truth(it.lam(x)) != universal:
                return not universal
        return universal
    for x in _iterlist(it):
        if truth(x) != universal:
            return not universal
    return universal


def _quant_chars(s, lam, universal):
    c = ctx()
    iv = S._chars_of(s.parts)
    lang = L.charset(iv)

    def one():
        a = S.new_atom("ch", lang)
        try:
            o = truth(lam(mkstr((a,), s.isb)))
        except Exception as e:
            core.engine_error(e)
            o = ("exc", type(e))
        return o, S.parts_lang((a,))

    parts = {}
    for kind, v, pure in c.nested(one):
        if kind == "exc":
            raise Unsupported(f"character exploration failed: {v!r}"[:200])
        if not pure:
            unsupported("character outcome depends on other symbolic values")
        o, l = v
        parts[o] = parts[o] | l if o in parts else l
    _disjoint(parts)
    if set(parts) - {True, False}:
        unsupported("quantifier over characters that may raise")
    good = parts.get(universal, L.EMPTY)
    r = S.member(s.parts, good.star())
    return r if universal else not r


# ============================================================================ builtins


def typeof(x):
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            return bytes if x.isb else str
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, (SymInt, SymBV, SymLen, SeqLen, SymHash, SymIdx, S.SymOrd)):
            return int
        if isinstance(x, SymFloat):
            return float
        if isinstance(x, SymSeq):
            return list if x.kind == "list" else tuple
        if isinstance(x, OpenList):
            return list
        if isinstance(x, SymRange):
            return range
        if isinstance(x, CharSet):
            return set
        unsupported(f"type of {type(x).__name__}")
    return type(x)


def b_isinstance(x, t):
    if isinstance(x, Sym):
        return issubclass(typeof(x), _realtypes(t))
    return isinstance(x, _realtypes(t))


def _realtypes(t):
    return t


def b_type(*a):
    if len(a) == 1:
        return typeof(a[0])
    return type(*a)


def b_len(x):
    if isinstance(x, OpaqueDict):
        return x.length()
    if isinstance(x, (SymStr, SymSeq, OpenList)):
        return x.length()
    if isinstance(x, CharSet):
        return x._vc_len_()
    if isinstance(x, Sym):
        raise TypeError("object has no len()") if not isinstance(x, Poison) else Unsupported("len of havoc")
    f = getattr(type(x), "__len__", None)
    if _pyfunc(f):
        return f(x)
    return len(x)


def b_int(x=0, *a, **k):
    base = a[0] if a else k.get("base", None)
    if isinstance(x, SymStr):
        return S.parse_int(x, 10 if base is None else base)
    if isinstance(x, SymBool):
        return S.as_int(x)
    if isinstance(x, (SymInt, SymBV)):
        return x
    if isinstance(x, SymLen):
        return x.as_int()
    if isinstance(x, SymFloat):
        return x.iv
    if isinstance(x, Sym):
        unsupported(f"int of {type(x).__name__}")
    f = getattr(type(x), "__int__", None)
    if base is None and _pyfunc(f):
        return f(x)
    if not isinstance(x, (int, float, str, bytes)) and not plain(x):
        f = getattr(type(x), "__index__", None) or getattr(type(x), "__int__", None)
        if f is None:
            raise TypeError(f"int() argument must be a string, a bytes-like object or a real number, not '{type(x).__name__}'")
    return int(x, *a, **k)


def b_str(*a, **k):
    if len(a) == 1 and not k:
        r = vstr(a[0])
        if type(r) is not str and isinstance(r, str):
            # type.__call__ initialises whatever instance of str it gets
            call(type(r).__init__, r, *a)
        return r
    if a and isinstance(a[0], SymStr) and a[0].isb:
        return a[0].decode(*a[1:], **k)
    if has_sym(a):
        unsupported("str() arguments")
    return str(*a, **k)


def b_float(x=0.0):
    if isinstance(x, SymStr):
        return S.parse_float(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymInt, SymBV, SymBool)):
        n = S.as_int(x)
        return SymFloat(S.int_text(n) if not isinstance(n, SymBV) else "", n)
    if isinstance(x, Sym):
        unsupported("float()")
    f = getattr(type(x), "__float__", None)
    if _pyfunc(f):
        return f(x)
    return float(x)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymBV)):
        return x != 0
    if isinstance(x, Sym):
        return truth(x)
    return bool(x)


def b_hash(x):
    return vhash(x)


def b_all(it):
    return _quant(it, True)


def b_any(it):
    return _quant(it, False)


def _b_seq(kind, native_):
    def f(*a):
        if not a:
            return native_()
        v = a[0]
        if isinstance(v, GenExp):
            v = listcomp(v.src, v.lam, v.cond)
        if isinstance(v, SymSeq):
            return mkseq(list(v.known), v.tail, kind)
        if isinstance(v, OpenList) and kind == "list":
            return v
        return native_(_iterlist(v))

    return f


class CharSet(Sym):
    """set(text), or a part of it: the characters of the text that lie in `keep`."""

    __slots__ = ("parts", "keep")
    __hash__ = None

    def __init__(self, parts, keep=None):
        self.parts, self.keep = tuple(parts), L.ANY if keep is None else keep

    @staticmethod
    def _lang(o):
        if isinstance(o, (set, frozenset, list, tuple)) and plain(o) or type(o) is str:
            return L.charset("".join(sorted(x for x in o if type(x) is str and len(x) == 1)))
        return None

    def _within(self, l):
        return S.member(self.parts, ((L.ANY - self.keep) | l).star())

    def __le__(self, o):
        l = self._lang(o)
        return NotImplemented if l is None else self._within(l)

    def __ge__(self, o):
        if self._lang(o) is None:
            return NotImplemented
        return all(self._has(x) for x in sorted(o, key=repr))

    def _has(self, x):
        if not isinstance(x, str) or len(x) != 1 or (L.lit(x) & self.keep).is_empty():
            return False
        return S.member(self.parts, L.ALL + L.lit(x) + L.ALL)

    def __contains__(self, x):
        if isinstance(x, Sym):
            unsupported("membership of a symbolic value in a character set")
        return self._has(x)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            return self <= o and self >= o
        return unsupported("comparison of character sets") if isinstance(o, Sym) else False

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self <= o and not self >= o

    def __gt__(self, o):
        return self >= o and not self <= o

    def issubset(self, o):
        return self <= (o if isinstance(o, (set, frozenset)) else set(o))

    def issuperset(self, o):
        return self >= (o if isinstance(o, (set, frozenset)) else set(o))

    def isdisjoint(self, o):
        l = self._lang(o)
        return unsupported("disjoint character sets") if l is None else not bool(CharSet(self.parts, self.keep & l))

    def __sub__(self, o):
        l = self._lang(o)
        return NotImplemented if l is None else CharSet(self.parts, self.keep - l)

    def __and__(self, o):
        l = self._lang(o)
        return NotImplemented if l is None else CharSet(self.parts, self.keep & l)

    __rand__ = __and__
    difference = __sub__
    intersection = __and__

    def __bool__(self):
        return not self._within(L.EMPTY)

    def _vc_len_(self):
        if not bool(self):
            return 0
        unsupported("size of a character set")

    def __iter__(self):
        unsupported("order of a character set")


def b_set(*a):
    if not a:
        return set()
    if isinstance(a[0], SymStr) and not a[0].isb:
        return CharSet(a[0].parts)
    if isinstance(a[0], CharSet):
        return a[0]
    r = _iterlist(a[0])
    if any(isinstance(vhash(x), SymHash) for x in r):
        unsupported("symbolic set")
    return set(r)


def b_frozenset(*a):
    r = b_set(*a)
    return r if isinstance(r, Sym) else frozenset(r)


def b_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        d = {}
        for kk, v in _iterlist(a[0]):
            dict_set(d, kk, v)
        d.update(k)
        return d
    return dict(*a, **k)


def b_range(*a):
    if has_sym(a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(stop, SymInt) and isinstance(start, int) and isinstance(step, int):
            try:
                return range(start, S.as_index(stop), step)
            except Unsupported:
                pass
        return SymRange(start, stop, step)
    return range(*a)


class EnumSeq:
    """enumerate() of a sequence whose end is not known."""

    _vc_ok = True

    def __init__(self, seq, start):
        self.seq, self.start, self.it = seq, start, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.it is None:
            self.it = iter(enumerate(_lazy(self.seq), self.start))
        return next(self.it)


def b_enumerate(it, start=0):
    if isinstance(it, GenExp):
        it = listcomp(it.src, it.lam, it.cond)
    if isinstance(it, SymSeq) and it.all() is None and type(start) is int:
        return EnumSeq(it, start)
    return enumerate(_iterlist(it) if isinstance(it, (Sym, GenExp)) else it, start)


def _lazy(seq):
    """The elements of a symbolic sequence one by one, each step asking whether there is another."""
    seq = seq.copy()
    if not isinstance(seq, SymSeq):
        yield from seq
        return
    i = 0
    while seq.upto(i + 1):
        yield seq.known[i]
        i += 1
        if i > 40:
            unsupported("walk through a symbolic sequence")


def b_zip(*its, **k):
    return zip(*[_lazy(i) if isinstance(i, SymSeq) else _iterlist(i) if isinstance(i, (Sym, GenExp)) else i for i in its], **k)


def b_map(f, *its):
    if len(its) == 1:
        return GenExp(its[0], lambda x: call(f, x), None)
    return (call(f, *x) for x in b_zip(*its))


def b_filter(f, it):
    return GenExp(it, lambda x: x, (lambda x: call(f, x)) if f is not None else (lambda x: x))


def b_reversed(it):
    if isinstance(it, (Sym, GenExp)):
        return reversed(_iterlist(it))
    return reversed(it)


def b_sorted(it, **k):
    v = _iterlist(it) if isinstance(it, (Sym, GenExp)) else it
    return sorted(v, **k)


def b_sum(it, start=0):
    t = start
    for x in _iterlist(it):
        t = t + x
    return t


def b_abs(x):
    return x.__abs__() if isinstance(x, Sym) else abs(x)


def _minmax(pick):
    def f(*a, **k):
        if k.get("key") is not None:
            unsupported("min/max with key")
        xs = _iterlist(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("empty")
        r = xs[0]
        for x in xs[1:]:
            if truth(pick(x, r)):
                r = x
        return r

    return f


def b_hex(x):
    if isinstance(x, SymBool):
        x = S.as_int(x)
    if isinstance(x, Sym):
        if isinstance(x, SymInt):
            # small range: one path per value
            c = ctx()
            if c.valid(z3.And(x.e >= 0, x.e < 100)):
                for v in range(100):
                    if truth(x == v):
                        return hex(v)
        return S.opaque("hex", (x,), L.ALL)
    return hex(x)


def b_ord(x):
    if isinstance(x, SymStr):
        if truth(x.length() == 1):
            return S.mkord(x.parts)
        raise TypeError("ord() expected a character")
    return ord(x)


def b_chr(x):
    if isinstance(x, Sym):
        unsupported("chr of a symbolic value")
    return chr(x)


def b_repr(x):
    return vrepr(x)


def b_format(x, spec=""):
    return vformat(x, spec)


def b_print(*a, **k):
    return None


def b_iter(x, *a):
    if isinstance(x, SymSeq):
        return _lazy(x)
    if isinstance(x, (Sym, GenExp)):
        return iter(_iterlist(x))
    return iter(x, *a)


def b_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return divmod(a, b)


def b_round(x, *a):
    if isinstance(x, (SymInt, SymBV)) and not a:
        return x
    if isinstance(x, Sym):
        unsupported("round")
    return round(x, *a)


def b_bytes(*a, **k):
    if len(a) > 1 and isinstance(a[0], SymStr):
        return a[0].encode(a[1])
    if len(a) == 1 and isinstance(a[0], SymStr) and a[0].isb:
        return a[0]
    if has_sym(a):
        unsupported("bytes()")
    f = getattr(type(a[0]), "__bytes__", None) if a else None
    if _pyfunc(f):
        return f(a[0])
    return bytes(*a, **k)


def b_getattr(x, n, *d):
    if isinstance(n, Sym):
        unsupported("symbolic attribute name")
    return getattr(x, n, *d)


def b_id(x):
    return id(x)


def b_next(it, *d):
    if isinstance(it, Sym):
        unsupported("next")
    return next(it, *d)


def b_callable(x):
    return callable(x)


def b_pow(*a):
    if has_sym(a):
        unsupported("pow")
    return pow(*a)


BUILTINS = {
    isinstance: b_isinstance, type: b_type, len: b_len, int: b_int, str: b_str, float: b_float, bool: b_bool,
    hash: b_hash, all: b_all, any: b_any, list: _b_seq("list", list), tuple: _b_seq("tuple", tuple),
    set: b_set, frozenset: b_frozenset, dict: b_dict, range: b_range, enumerate: b_enumerate, zip: b_zip,
    map: b_map, filter: b_filter, reversed: b_reversed, sorted: b_sorted, sum: b_sum, abs: b_abs,
    min: _minmax(lambda a, b: a < b), max: _minmax(lambda a, b: a > b), hex: b_hex, ord: b_ord, chr: b_chr,
    repr: b_repr, format: b_format, print: b_print, iter: b_iter, divmod: b_divmod, round: b_round, bytes: b_bytes,
    getattr: b_getattr, id: b_id, next: b_next, callable: b_callable, pow: b_pow,
    **{getattr(re, n): re_func(n) for n in RE_FUNCS},
}


# ============================================================================ frames


_IMMUT = (int, float, str, bytes, bool, type(None), enum.Enum, types.ModuleType, re.Pattern, range, slice,
          types.CoroutineType, types.AsyncGeneratorType, types.GeneratorType, Sym, S.Atom, property)


def fingerprint(roots):
    """Identity and shallow contents of every mutable object reachable from the given values."""
    seen = {}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, _IMMUT) or id(x) in seen:
            continue
        if getattr(x, "_vc_skip_", False) is True:
            continue
        if isinstance(x, (types.MethodType, types.BuiltinFunctionType)):
            if x.__self__ is not None:
                todo.append(x.__self__)
            continue
        if isinstance(x, types.FunctionType):
            for cell in x.__closure__ or ():
                try:
                    todo.append(cell.cell_contents)
                except ValueError:
                    pass
            continue
        if isinstance(x, type):
            if not instrumented(x):
                continue
            d = {k: v for k, v in vars(x).items() if isinstance(v, (list, dict, set))}
            seen[id(x)] = (x, d)
            todo += list(d.values())
            continue
        if isinstance(x, (list, tuple)):
            seen[id(x)] = (x, dict(enumerate(x)))
            todo += list(x)
        elif isinstance(x, dict):
            ks = list(builtins.dict.keys(x))
            seen[id(x)] = (x, dict(enumerate(ks + list(builtins.dict.values(x)))))
            todo += [unbox(k) for k in ks] + list(builtins.dict.values(x))
        elif isinstance(x, (set, frozenset)):
            seen[id(x)] = (x, {id(e): e for e in x})
            todo += list(x)
        elif hasattr(x, "__dict__"):
            if type(x).__name__.startswith("_vc_"):
                continue
            d = dict(x.__dict__)
            seen[id(x)] = (x, d)
            todo += list(d.values()) + [type(x)]
    return seen


def _same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (Sym, int, str, bytes, float, type(None))) and isinstance(b, (Sym, int, str, bytes, float, type(None))):
        return is_valid_eq(a, b)
    return False


def frame_changed(before):
    """[(object, what)] for every object remembered in `before` that is no longer the same."""
    now = fingerprint([x for x, _ in before.values()])
    out = []
    for i, (x, f) in before.items():
        g = now.get(i)
        if g is None:
            out.append((x, f"{type(x).__name__} object"))
            continue
        g = g[1]
        ks = [k for k in f.keys() | g.keys() if k not in f or k not in g or not _same_val(f[k], g[k])]
        if ks:
            if isinstance(x, (dict, list, tuple, set, frozenset, type)):
                out.append((x, f"{type(x).__name__} contents"))
            else:
                out.append((x, f"attributes {sorted(map(str, ks))} of {type(x).__name__}"))
    return out


# ============================================================================ loops


def shape(v):
    if v is None:
        return ("none",)
    if isinstance(v, enum.Enum):
        return ("const", v)
    if isinstance(v, (bool, SymBool)):
        return ("bool",)
    if isinstance(v, (int, SymInt)):
        return ("int",)
    if isinstance(v, SymStr):
        return ("bytes",) if v.isb else ("str",)
    if isinstance(v, str):
        return ("str",)
    if isinstance(v, bytes):
        return ("bytes",)
    if isinstance(v, BaseException):
        return ("exc", type(v))
    return ("poison",)


def from_shape(sh, why):
    c = ctx()
    k = sh[0]
    if k == "none":
        return None
    if k == "const":
        return sh[1]
    if k == "bool":
        return SymBool(z3.Bool(c.fresh_name("hb")))
    if k == "int":
        return SymInt(z3.Int(c.fresh_name("hi")))
    if k == "str":
        return mkstr((S.new_atom("hs", L.ALL),))
    if k == "bytes":
        return mkstr((S.new_atom("hs", L.charset([(0, 255)]).star()),), True)
    if k == "exc":
        e = sh[1].__new__(sh[1])
        e.args = ("?",)
        return e
    return Poison(why)


class Loop:
    """One loop of the code: run natively, or cut at its head."""

    _vc_env_ = True
    _vc_skip_ = True

    def __init__(self, loopid, kind, names, it, accs=()):
        self.id, self.kind, self.names, self.it, self.accs = loopid, kind, names, it, accs
        self.native = True
        self.exhausted = False
        self.n = 0
        self.fold = None
        self.rounds = 0
        self.frame = None

    def tick(self):
        self.n += 1
        if core.CTX is not None and self.n > core.CTX.run.max_ticks:
            unsupported("loop did not end within the unrolling limit")

    # -- cut -----------------------------------------------------------------
    def _cands(self, name, v):
        out = [("same",)]
        if self.fold is not None:
            for i, kd in enumerate(self.fold.kinds):
                out.append(("g", i))
                if kd == "bool":
                    out.append(("ng", i))
        return out

    def _ghost(self, cand, state):
        g = state[cand[1]]
        return mknot(g) if cand[0] == "ng" else g

    def head(self, loc):
        c = ctx()
        run = c.run
        run.loops_cut.add(self.id)
        first = self.frame is None
        if first:
            self.init = {n: loc[n] for n in self.names if n in loc}
            self.frame = fingerprint([v for k, v in loc.items() if not k.startswith("_vc_")]
                                     + ([c.env] if c.env is not None else []))
            if self.fold is not None:
                self.fold.start()
            self.chosen = {}
            for n, v in self.init.items():
                for cand in self._cands(n, v):
                    if (self.id, n, cand) in run.houdini_dropped:
                        continue
                    if cand[0] != "same":
                        if not is_valid_eq(v, self._ghost(cand, self.fold.init)):
                            self._drop(n, cand)
                            continue
                    self.chosen[n] = cand
                    break
                else:
                    self.chosen[n] = ("shape",)
            self.grown = {}
            for n in self.accs:
                i = self._acc_ghost(n, loc) if (self.id, n) in run.textlists else None
                if i is not None:
                    self.grown[n] = i
        if self.fold is not None:
            self.fold.havoc()
        self.vals = {}
        for n in self.names:
            if n not in self.init:
                self.vals[n] = Poison(f"{n} in {self.id}")
                continue
            cand = self.chosen[n]
            if cand[0] == "same":
                self.vals[n] = self.init[n]
            elif cand[0] == "shape":
                shapes = [shape(self.init[n])] + [s for s in sorted(run.shapes.get((self.id, n), ()), key=repr)
                                                  if s != shape(self.init[n])]
                c.approx = True  # only its kind is known
                if ("poison",) in shapes:
                    self.vals[n] = Poison(f"{n} in {self.id}")
                else:
                    i = c.decide([None] * len(shapes)) if len(shapes) > 1 else 0
                    if shapes[i][0] == "exc" or i > 0 or shapes[i][0] != "exc":
                        self.vals[n] = from_shape(shapes[i], f"{n} in {self.id}")
            else:
                self.vals[n] = self._ghost(cand, self.fold.state)
        for n, i in self.grown.items():
            self.vals[n] = TextAcc(self.fold.state[i])
        if c.on_head is not None and self._hooked():
            c.on_head(self)

    def _acc_ghost(self, n, loc):
        """The text of the fold that the list in local n concatenates to, if nothing else can see that list."""
        v = loc.get(n)
        if self.fold is None or type(v) is not list or not all(isinstance(x, (str, SymStr)) for x in v):
            return None
        others = [x for k, x in loc.items() if k != n and not k.startswith("_vc_")]
        if id(v) in fingerprint(others + ([ctx().env] if ctx().env is not None else [])):
            return None
        for i, kd in enumerate(self.fold.kinds):
            if kd == "str" and (self.id, n, ("g", i)) not in ctx().run.houdini_dropped and is_valid_eq(str_join("", v), self.fold.init[i]):
                return i
        return None

    def _drop(self, n, cand):
        run = ctx().run
        run.houdini_dropped.add((self.id, n, cand))
        run.restart = True

    def has(self, n):
        return n in self.vals

    def val(self, n):
        return self.vals[n]

    def more(self):
        c = ctx()
        if c.decide([None, None]) == 0:
            # every element went through the body: it lies in the language the body lets pass
            P = c.run.passlang_prev.get(self.id)
            if P is not None:
                it = self.it
                if isinstance(it, SymStr):
                    S.assume_in(it.parts, P.star())
                elif isinstance(it, SymSeq) and it.tail is not None:
                    S.assume_in(it.tail.parts, _all_pieces(P, it.tail.sep))
            return False
        return True

    def elem(self):
        c = ctx()
        it = self.it
        self.cur = None
        if self.fold is not None:
            c.approx = True  # what the elements before this one did is only known as the fold's state
        if isinstance(it, SymStr):
            e = self._some(it.parts, L.charset(S._chars_of(it.parts)), lambda P, Q: (P.star(), Q + L.ALL),
                           lambda v, Q: S.cut(v, Q, L.ALL)[0], L.ANY)
            self.cur = e
            x = mkstr(e, it.isb)
            if it.isb:
                x = S.mkord(e)
        elif isinstance(it, SymSeq):
            k = c.decide([None] * (len(it.known) + 1)) if it.known else 0
            if k < len(it.known):
                x = it.known[k]
            else:
                t = it.tail
                sep, pl, ns = L.lit(t.sep), L.piece_lang(t.sep), L.nosep(t.sep)
                self.cur = self._some(
                    t.parts, piece_lang(t), lambda P, Q: (((P & pl) + sep).star(), (Q & ns) | ((Q & pl) + sep + L.ALL)),
                    lambda v, Q: _first_piece(v, Q, t.sep), pl | ns)
                x = it.tail.apply(mkstr(self.cur, it.tail.isb))
        elif isinstance(it, SymRange):
            x = self._chunk(it)
        else:
            unsupported("loop element")
        if self.fold is not None:
            self.fold.advance(x)
        if c.on_elem is not None and self._hooked():
            c.on_elem(self, x)
        return x

    def _hooked(self):
        """The contract's loop hooks are about the loops that go through messages, not texts."""
        return self.kind in ctx().hook_kinds and not isinstance(self.it, SymStr)

    def _some(self, parts, lang, around, first, whole):
        """The element of a generic round: one the body lets pass (language P of the round before), or the
        first it does not, in which case the text is split there and nothing is lost."""
        c = ctx()
        P = c.run.passlang_prev.get(self.id)
        c.run.passlang.setdefault(self.id, L.EMPTY)
        if self.fold is None and P is not None:
            Q = whole - P
            if (lang & P).is_empty() or c.decide([None, None]) == 1:
                U, V = around(P, Q)
                _, v = S.cut(S.resolve(parts), U, V)
                return first(v, Q)
            lang = lang & P
        c.approx = True  # the text is not known to contain this element
        return (S.new_atom("e", lang),)

    def _chunk(self, it):
        F = self.fold
        ctx().approx = True
        if it.start != 0 or not isinstance(it.stop, SymLen) or not isinstance(it.step, int) or it.step < 1:
            unsupported("symbolic range")
        ps = S.resolve(it.stop.parts)
        if F is not None and F.image is not None:
            ch = F.image_chunk(it.step)
        else:
            if S.decided(ps, L.ANY.times(it.step).star()) is not True:
                unsupported("range over an incomplete last chunk")
            lang = L.charset(S._chars_of(ps))
            ch = [mkstr((S.new_atom("c", lang),)) for _ in range(it.step)]
        return SymIdx(ps, ch, 0)

    def back(self, loc):
        c = ctx()
        run = c.run
        if c.before_back is not None and self._hooked():
            c.before_back(self)
        for x, ch in frame_changed(self.frame):
            if not c.ignore_frame_change(self, x):
                for n in self.accs:
                    if loc.get(n) is x and (self.id, n) not in run.textlists and type(x) is list:
                        run.textlists.add((self.id, n))
                        run.restart = True
                unsupported(f"loop body changes {ch}")
        for n, i in self.grown.items():
            v = loc.get(n)
            if not isinstance(v, TextAcc) or not is_valid_eq(v.text, self.fold.next[i]):
                self._drop(n, ("g", i))
        if self.cur_lang() is not None:
            l = self.cur_lang()
            run.passlang[self.id] = run.passlang[self.id] | l if self.id in run.passlang else l
        for n in self.init:
            v = loc.get(n, MISSING)
            cand = self.chosen[n]
            if cand[0] == "shape":
                sh = shape(v) if v is not MISSING else ("poison",)
                if sh != shape(self.init[n]) and sh not in run.shapes.setdefault((self.id, n), set()):
                    run.shapes[(self.id, n)].add(sh)
                    run.restart = True
                continue
            want = self.init[n] if cand[0] == "same" else self._ghost(cand, self.fold.next)
            if v is MISSING or not (v is want or is_valid_eq(v, want)):
                self._drop(n, cand)
        if self.fold is not None:
            self.fold.check()
        if c.on_back is not None and self._hooked():
            c.on_back(self)
        self.rounds += 1
        if self.rounds < c.generic_rounds:
            return
        raise Abandon()

    def cur_lang(self):
        cur = getattr(self, "cur", None)
        return S.parts_lang(cur) if cur is not None else None

    def exit(self):
        self.exhausted = True
        if self.fold is not None:
            self.fold.finish()


def is_valid_eq(a, b):
    """a == b on every completion of this path (never forks)."""
    c = ctx()
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        r = S.str_eq(topl(a), topl(b))
        if isinstance(r, bool):
            return r
        return not isinstance(r.cond, S.StrEq) and c.valid(r.cond)
    if type(a) is not type(b) and not isinstance(a, Sym) and not isinstance(b, Sym):
        return False
    if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
        return False
    try:
        r = a == b
    except Unsupported:
        return False
    if isinstance(r, SymBool):
        return not isinstance(r.cond, S.StrEq) and c.valid(r.cond)
    return r is True


class AsyncGuard:
    """Native async iteration; in generic mode the consumer's frame must not carry state."""

    _vc_env_ = True
    _vc_skip_ = True

    def __init__(self, it, frame, names, loopid):
        self.it = it.__aiter__()
        self.frame = frame
        self.loc = None
        self.names = names
        self.id = loopid

    def __aiter__(self):
        return self

    def _locals(self):
        return {k: v for k, v in self.frame.f_locals.items() if not k.startswith("_vc_")}

    async def __anext__(self):
        c = core.CTX
        if c is not None and c.generic:
            loc = self._locals()
            if self.loc is None:
                self.loc = {k: v for k, v in loc.items()}
                self.fp = fingerprint(loc.values())
            else:
                for k, v in self.loc.items():
                    if k in self.names and loc.get(k) is not v:
                        unsupported(f"{k} is carried from one reply to the next in {self.id}")
                for x, ch in frame_changed(self.fp):
                    if not c.ignore_frame_change(self, x):
                        unsupported(f"a reply changes {ch} in {self.id}")
        return await self.it.__anext__()


def loop(loopid, kind, names, it, accs=()):
    l = Loop(loopid, kind, names, it, accs)
    c = core.CTX
    if c is None:
        if isinstance(it, GenExp):
            l.it = list(it)
        return l
    if kind == "for":
        if isinstance(it, GenExp):
            it = l.it = listcomp(it.src, it.lam, it.cond)
        if isinstance(it, SymSeq):
            v = it.all()
            if v is not None:
                l.it = v
            else:
                l.native = False
        elif isinstance(it, SymStr):
            F = _fold_for(it.parts, None)
            if F is None and _fixed_len(it) is not None:
                l.it = _unroll(it)
            else:
                l.native = False
                l.fold = F
        elif isinstance(it, SymRange):
            l.native = False
            if isinstance(it.stop, SymLen):
                l.fold = _fold_for(it.stop.parts, it.step)
        elif isinstance(it, Sym):
            unsupported(f"loop over {type(it).__name__}")
        elif isinstance(it, dict):
            l.it = list(dict_keys(it))
    elif kind == "while":
        fn = loopid.split("#")[0]
        if not c.uncut and any(fn.endswith(x) for x in c.cut_while):
            l.native = False
    elif kind == "asyncfor":
        l.it = AsyncGuard(it, sys._getframe(1), names, loopid)
    return l


def _fold_for(parts, step):
    c = ctx()
    ps = S.resolve(parts)
    for F in c.folds:
        if not F.done and F.matches(ps, step):
            return F
    return None


async def alist(aiter):
    """[x async for x in aiter]"""
    c = core.CTX
    out = []
    if c is None or not c.generic:
        async for x in aiter:
            out.append(x)
        return out
    it = aiter.__aiter__()
    try:
        out.append(await it.__anext__())
    except StopAsyncIteration:
        return out
    saved = c.generic_rounds
    c.generic_rounds = 2
    try:
        await it.__anext__()
    except StopAsyncIteration:
        return OpenList(out)
    finally:
        c.generic_rounds = saved
    # yet another reply: by induction the same as before
    raise Abandon()


# ============================================================================ folds


class Fold:
    """Ghost: a left fold over the characters (or chunks) of a text, computed by the contract."""

    _vc_env_ = True
    _vc_skip_ = True

    def __init__(self, text, kinds, init, step, inv=None, name="fold", image=None, closed=None):
        self.text = text
        self.kinds = kinds
        self.init = tuple(init)
        self.step = step
        self.inv = inv
        self.name = name
        self.done = False
        self.final = None
        self.image = image  # (Fold over another text, function char -> chunk text)
        self.closed = closed
        self.state = self.next = None

    def matches(self, ps, step):
        return ps == S.resolve(topl(self.text))

    def start(self):
        self.done = True

    def havoc(self):
        c = ctx()
        st = []
        for i, k in enumerate(self.kinds):
            if k == "u32":
                v = z3.BitVec(c.fresh_name(self.name), 32)
                st.append(SymBV(z3.ZeroExt(1, v)))
            elif k == "bool":
                st.append(SymBool(z3.Bool(c.fresh_name(self.name))))
            elif k == "int":
                st.append(SymInt(z3.Int(c.fresh_name(self.name))))
            elif k == "str":
                st.append(mkstr((S.new_atom(self.name, L.ALL),)))
            else:
                raise ValueError(k)
        self.state = tuple(st)
        if self.inv is not None:
            c.assume(S.zcond(self.inv(*self.state)))

    def advance(self, x):
        if self.image is not None:
            x = self.img_char
        if isinstance(x, SymIdx):
            r = ""
            for ch in x.chunk:
                r = r + ch
            x = r
        self.next = tuple(self.step(self.state, x))

    def image_chunk(self, step):
        src, enc = self.image
        a = S.new_atom("ic", L.charset(S._chars_of(lift(src).parts)))
        S.concretise_char(a)
        self.img_char = mkstr((a,))
        t = enc(self.img_char)
        if len(t) != step:
            unsupported("chunk size differs from the encoding")
        return list(t)

    def check(self):
        if self.inv is not None:
            c = ctx()
            c.oblige(self.inv(*self.next), f"invariant of {self.name} is kept")

    def finish(self):
        self.final = self.state

    def value(self):
        if self.final is None:
            # not consumed by a loop: only a determined text can be folded directly
            t = self.text
            if isinstance(t, SymStr):
                n = _fixed_len(t)
                if n is None:
                    unsupported("the code does not run the loop the contract describes")
                t = [t.getitem(i) for i in range(n)]
            st = self.init
            for ch in t:
                st = tuple(self.step(st, ch))
            return st
        if self.closed is not None:
            return (self.closed,)
        return self.final
