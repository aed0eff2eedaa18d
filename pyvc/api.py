"""What a contract sees of the verifier (symbolic side)."""
import z3

from . import core, lang as L, rt, shims, sym as S
from .core import Abandon, Infeasible, ctx, engine_error, unsupported
from .api_common import Outcome
from .sym import SymBool, SymBV, SymInt, SymStr, mkstr, truth

_vc_ = None  # functions of this module may be handed symbolic values


class SymVC:
    symbolic = True
    _vc_env_ = True
    _vc_skip_ = True

    def __init__(self):
        self.lang = L

    # -- inputs ----------------------------------------------------------------
    def _in(self, name, v):
        c = ctx()
        k, i = name, 1
        while k in c.inputs:
            i += 1
            k = f"{name}#{i}"
        c.inputs[k] = v
        return v

    def text(self, name, lang=L.ALL, corpus=None):
        if isinstance(lang, str):
            lang = L.regex(lang)
        return self._in(name, mkstr((S.new_atom(name, lang),)))

    def bytes(self, name, lang=None, corpus=None):
        if isinstance(lang, str):
            lang = L.regex(lang)
        lang = L.charset([(0, 255)]).star() if lang is None else lang
        return self._in(name, mkstr((S.new_atom(name, lang),), True))

    def int(self, name, lo=None, hi=None, corpus=None):
        c = ctx()
        v = z3.Int(c.fresh_name(name))
        if lo is not None:
            c.add(v >= lo)
        if hi is not None:
            c.add(v <= hi)
        return self._in(name, SymInt(v))

    def u32(self, name):
        c = ctx()
        return self._in(name, SymBV(z3.ZeroExt(1, z3.BitVec(c.fresh_name(name), 32))))

    def u32_text(self, name):
        """Decimal text, leading zeros allowed, of a number below 2**32: (text, number)."""
        c = ctx()
        n = SymBV(z3.ZeroExt(1, z3.BitVec(c.fresh_name(name), 32)))
        z = S.new_atom(name + "_zeros", L.lit("0").star())
        d = S.new_atom(name, S.canon_dec() & S._upto(10), num=n)
        t = mkstr((z, d))
        self._in(name, t)
        return t, n

    def bool(self, name):
        return self._in(name, SymBool(z3.Bool(ctx().fresh_name(name))))

    def choose(self, name, options):
        options = list(options)
        i = ctx().decide([None] * len(options)) if len(options) > 1 else 0
        self._in(name, i)
        return options[i]

    def num_text(self, n, width=0):
        """Decimal text of a number (contract side)."""
        if not isinstance(n, S.Sym):
            return f"{n:0{width}d}" if width else str(int(n))
        return S.int_text(n, width)

    # -- judgements --------------------------------------------------------------
    def check(self, cond, label):
        c = ctx()
        if not isinstance(cond, (bool, SymBool)):
            cond = truth(cond)
        c.oblige(cond, label)
        return True

    def fail(self, label):
        self.check(False, label)

    def assume(self, cond):
        if not truth(cond):
            raise Infeasible()

    def cover(self, label):
        ctx().run.covered[label] = True

    def expect_cover(self, *labels):
        for l in labels:
            ctx().run.covered.setdefault(l, False)

    def stop(self):
        raise Abandon()

    def note(self, k, v):
        ctx().notes[k] = v

    # -- running -------------------------------------------------------------------
    def outcome(self, f, *a, **k):
        try:
            return Outcome("ok", rt.call(f, *a, **k))
        except RecursionError:
            unsupported("recursion")
        except Exception as e:
            engine_error(e)
            return Outcome("exc", e)

    async def aoutcome(self, coro):
        try:
            return Outcome("ok", await coro)
        except RecursionError:
            unsupported("recursion")
        except Exception as e:
            engine_error(e)
            return Outcome("exc", e)

    def run(self, coro):
        r = shims.drive(coro)
        shims.env().drain()
        return r

    def spawn(self, coro):
        """Let another task run up to its end, now."""
        return shims.drive(coro)

    async def settle(self):
        shims.env().drain()

    def loop(self, connector):
        lp = shims.env().loop
        lp.connector = connector
        return lp

    @property
    def env(self):
        return shims.env()

    @property
    def ctx(self):
        return ctx()

    def is_queue(self, loop, x):
        """Frame permission: the queues of this path and their contents."""
        return any(x is q or x is q.items for q in shims.env().queues)

    def crowd(self):
        """Any number (at least one) of unknown items follow those in the queues of this path that are not empty.

        Returns [(what is in front, what has come behind)] as live lists."""
        out = []
        for q in shims.env().queues:
            if q.items:
                q.crowd(self.int("pending", 1))
                out.append((q.items, q.back))
        return out

    def follow(self, cb, names):
        """Behind cb, any number (at least one) of other callbacks are registered: one per piece of the text."""
        from . import state

        n = 0
        seen = set()

        def crowd(x):
            return S.SymSeq(list(x), S.Tail(S.topl(names), ",", shims.CrowdCallback), "list" if isinstance(x, list) else "tuple")

        def walk(x):
            nonlocal n
            if type(x) is not dict or id(x) in seen:
                return
            seen.add(id(x))
            for k, v in list(x.items()):
                if type(v) in (list, tuple) and v and v[-1] is cb:
                    dict.__setitem__(x, k, crowd(v))
                    n += 1
                else:
                    walk(v)

        for o, _ in state._attrs:
            for k, v in list(vars(o).items()):
                if k.startswith("__") or k.startswith("_vc_"):
                    continue
                if type(v) in (list, tuple) and v and v[-1] is cb:
                    setattr(o, k, crowd(v))
                    n += 1
                else:
                    walk(v)
        if n != 1:
            unsupported("where callbacks are kept")

    def followers(self, tasks):
        """Split scheduled tasks: (those of known callbacks, the arguments of the unknown ones' calls - of every one of them -,
        the names of the unknown ones that are called, in order and joined; None if there are none or it cannot be told)."""
        ctx().approx = True  # a task may be scheduled without being handed back: only the real code can refute
        if isinstance(tasks, S.SymSeq):
            known, tail = list(tasks.known), tasks.tail
        elif isinstance(tasks, (list, tuple)):
            known, tail = list(tasks), None
        else:
            unsupported("tasks")
        i = 0
        while i < len(known) and not isinstance(known[i], (shims.CrowdTask, shims.CrowdCall)):
            i += 1
        first, rest = known[:i], known[i:]
        if not all(isinstance(t, shims.CrowdTask) for t in rest):
            return first, [], None
        texts = [t.call.name for t in rest]
        args = [t.call.args for t in rest if not t.call.kw]
        if tail is not None:
            if tail.sep != ",":
                unsupported("tasks")
            piece = mkstr((S.new_atom("piece", L.nosep(",")),))
            t = tail.apply(piece)
            if not isinstance(t, shims.CrowdTask) or not rt.is_valid_eq(t.call.name, piece):
                return first, [], None
            args.append(t.call.args)
            texts.append(mkstr(tail.parts))
        if not texts:
            return first, [], None
        text = texts[0]
        for t in texts[1:]:
            text = S.lift(text) + "," + t
        return first, args, text

    def queued(self):
        """Take everything from the queues of this path."""
        out = []
        for q in shims.env().queues:
            out += q.items
            q.items.clear()
        return out

    def same_state(self, a, b):
        """Every plain attribute of two objects is equal; anything else cannot be compared (no answer)."""
        da, db = vars(a), vars(b)
        if set(da) != set(db):
            unsupported("objects with different attributes")
        for k in da:
            x, y = da[k], db[k]
            if getattr(x, "_vc_env_", False) is True and type(x) is type(y):
                continue
            if x is y or rt.is_valid_eq(x, y):
                continue
            unsupported(f"attribute {k} differs")
        return True

    def stub(self, name, fn):
        ctx().stubs[name] = fn

    def fold(self, text, kinds, init, step, inv=None, name="fold", image=None, closed=None):
        F = rt.Fold(text, kinds, init, step, inv, name, image, closed)
        ctx().folds.append(F)
        return F

    def opaque(self, name, args, lang=L.ALL, isb=False):
        return S.opaque(name, tuple(args), lang, isb)

    def is_valid(self, cond):
        if isinstance(cond, bool):
            return cond
        return ctx().valid(cond.cond)

    def opaque_dict(self, chooser):
        return rt.OpaqueDict(chooser)

    MISSING = rt.MISSING
