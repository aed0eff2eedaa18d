"""Path exploration, obligations and solver back ends."""
import linecache
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
import types

import z3

from . import state


class Stop(BaseException):
    """Engine control flow: never caught by the code under verification."""


class Infeasible(Stop):
    pass


class Abandon(Stop):
    """The path ends here with nothing left to show (loop back edge)."""


class Unsupported(Stop):
    """The engine cannot carry this path: the harness is undecided, never refuted."""


CTX = None  # the active path


def ctx():
    if CTX is None:
        raise RuntimeError("no active symbolic path")
    return CTX


def unsupported(msg):
    raise Unsupported(msg)


_HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
_SLIPS = (AttributeError, NameError, TypeError, IndexError, KeyError, AssertionError)
_names = None


def engine_error(e):
    """An exception that tells of a limit of the engine, not of the program: no answer.

    The engine raises the program's exceptions with a raise statement; an exception that escapes one of its other
    statements, or that complains about one of its own objects, is a slip of the engine."""
    global _names
    if not isinstance(e, _SLIPS) or getattr(e, "_vc_seen", False):
        return
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and tb.tb_frame.f_code.co_filename.startswith(_HERE):
        f = tb.tb_frame.f_code.co_filename
        if linecache.getline(f, tb.tb_lineno).strip().startswith("raise"):
            return
        if os.path.basename(f) in ("sym.py", "lang.py", "core.py") or isinstance(e, (NameError, AssertionError)):
            raise Unsupported(f"engine: {type(e).__name__}: {e}"[:150] + f" ({os.path.basename(f)}:{tb.tb_lineno})") from e
    if isinstance(e, AttributeError) and e.obj is not None:
        t = e.obj if isinstance(e.obj, type) else type(e.obj)
        if str(t.__module__).startswith("pyvc."):
            raise Unsupported(f"engine: {e}"[:150]) from e
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", str(e))
        if m:
            if _names is None:
                _names = set()
                for n, mod in list(sys.modules.items()):
                    if n.startswith("pyvc."):
                        for x in list(vars(mod).values()):
                            if isinstance(x, type) and str(x.__module__).startswith("pyvc."):
                                _names.update(f.__qualname__ for f in vars(x).values() if isinstance(f, types.FunctionType))
                            elif isinstance(x, types.FunctionType):
                                _names.add(x.__qualname__)
            if m.group(1) in _names:
                raise Unsupported(f"engine: {e}"[:150]) from e
        elif re.search(r"\b(Sym[A-Z]\w*|SeqLen|CharSet|GenExp|Poison|TextAcc|OpenList|OpaqueDict|KeyBox|FakeMatch)\b|"
                       r"__(hash|index|bool|len|str|repr|format|int|float|iter|bytes)__ (method )?(should return|returned)", str(e)):
            raise Unsupported(f"engine: {e}"[:150]) from e


FEAS_MS = int(os.environ.get("PYVC_FEAS_MS", "3000"))
PROVE_MS = int(os.environ.get("PYVC_PROVE_MS", "10000"))
CVC5 = "cvc5"


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.feas_unknown = 0


class Ctx:
    def __init__(self, prefix, run):
        self.prefix = prefix
        self.taken = []
        self.run = run
        self.solver = z3.Solver()
        self.pc = []
        self.n = 0
        self.subst = {}
        self.inputs = {}
        self.memo = {}
        self.stubs = dict(run.stubs)
        self.loopspec = None
        self.symhash = False
        self.depth = 0
        self.notes = {}
        self.cut_while = ()
        self.uncut = 0  # inside what the environment does: loops run as they are
        self.folds = []
        self.generic = False
        self.generic_rounds = 1
        self.on_head = self.on_elem = self.on_back = self.before_back = None
        self.frame_ok = None
        self.hook_kinds = ("while",)
        self.env = None  # the simulated event loop (shims)
        self.dom = {}  # atom -> language
        self.lenvar = {}
        self.digitvar = {}
        self.diseqs = []
        self.assign = {}
        self.rng = None
        self.trace_marks = []
        self.nesting = 0
        self.boxes = []
        self.approx = False  # some constraint was only over-approximated on this path

    def ignore_frame_change(self, loop, what):
        return self.frame_ok is not None and self.frame_ok(loop, what)

    # -- nested exploration ----------------------------------------------------
    def snapshot(self):
        return (dict(self.dom), dict(self.subst), dict(self.lenvar), dict(self.digitvar),
                list(self.diseqs), dict(self.memo), list(self.pc))

    def restore(self, s):
        (self.dom, self.subst, self.lenvar, self.digitvar, self.diseqs, self.memo, self.pc) = (
            dict(s[0]), dict(s[1]), dict(s[2]), dict(s[3]), list(s[4]), dict(s[5]), list(s[6]))

    def nested(self, fn):
        """Every outcome of fn from the present state, which is left untouched.

        fn returns plain data about the leaf it reaches; its exceptions are caught.
        Returns [(kind, value, pure)], pure = nothing known before was narrowed."""
        saved = self.snapshot()
        outer = (self.prefix, self.taken, self.run.stack)
        approx = self.approx
        leaves = []
        stack = [[]]
        self.nesting += 1
        try:
            while stack:
                self.restore(saved)
                self.prefix = stack.pop()
                self.taken = []
                self.run.stack = stack
                self.solver.push()
                try:
                    try:
                        r = ("ok", fn())
                    except (Infeasible, Abandon):
                        continue
                    except Exception as e:
                        engine_error(e)
                        r = ("exc", e)
                    pure = (all(self.dom.get(a) is saved[0][a] or self.dom.get(a) == saved[0][a] for a in saved[0])
                            and len(self.subst) - len(saved[1]) == sum(1 for a in self.subst if a not in saved[1] and a not in saved[0])
                            and len(self.pc) == len(saved[6]))
                    leaves.append((r[0], r[1], pure))
                finally:
                    self.solver.pop()
                if len(leaves) > 200:
                    raise Unsupported("too many element cases")
        finally:
            self.nesting -= 1
            self.prefix, self.taken, self.run.stack = outer
            self.approx = approx
            self.restore(saved)
        return leaves

    # -- strings -----------------------------------------------------------------
    def check_diseqs(self):
        from . import sym

        keep = []
        for a, b in self.diseqs:
            r = sym.str_eq(a, b)
            if r is True:
                raise Infeasible()
            if r is False:
                continue
            if isinstance(r.cond, sym.StrEq):
                keep.append((a, b))
            else:
                self.assume(z3.Not(r.cond))
        self.diseqs = keep

    def known_neq(self, a, b):
        from . import sym

        a, b = sym.resolve(a), sym.resolve(b)
        for x, y in self.diseqs:
            x, y = sym.resolve(x), sym.resolve(y)
            if (x, y) == (a, b) or (x, y) == (b, a):
                return True
        return False

    # -- constraints ---------------------------------------------------------
    def fresh_name(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def add(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def _query(self, c, ms):
        t = time.time()
        self.solver.set("timeout", ms)
        self.solver.push()
        try:
            if c is not None:
                self.solver.add(c)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            st = self.run.stats
            st.solver_s += time.time() - t
            st.queries += 1
        return r, m

    def feasible(self, c):
        if c is True:
            return True
        if c is False:
            return False
        r, _ = self._query(c, FEAS_MS)
        if r == z3.unknown:
            self.run.stats.feas_unknown += 1
        return r != z3.unsat

    def valid(self, c):
        """True only if pc entails c (used for invariant candidates and simplification)."""
        c = simp(c)
        if c is True or c is False:
            return c
        r, _ = self._query(z3.Not(c), FEAS_MS)
        return r == z3.unsat

    def decide(self, conds):
        """Fork over mutually exclusive, exhaustive conditions; returns the chosen index."""
        if self.run.expired():
            raise Unsupported("time budget of the harness exhausted")
        k = len(self.taken)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            if len(self.taken) > self.run.max_depth:
                raise Unsupported("path too long")
            feas = []
            for j, c in enumerate(conds):
                if c is None:  # a string alternative: already known to be possible
                    feas.append(j)
                    continue
                c = simp(c)
                if c is True:
                    feas = [j]
                    break
                if c is False:
                    continue
                if j == len(conds) - 1 and not feas and None not in conds:
                    feas.append(j)  # exhaustive: the last one is all that is left
                elif self.feasible(c):
                    feas.append(j)
            if not feas:
                raise Infeasible()
            i = feas[0]
            for j in feas[1:]:
                self.run.stack.append(self.taken + [j])
        self.taken.append(i)
        if conds[i] is None:
            return i
        c = simp(conds[i])
        if c is False:
            raise Infeasible()
        if c is not True:
            self.add(c)
        return i

    def fork(self, c):
        c = simp(c)
        if c is True or c is False:
            return c
        return self.decide([c, z3.Not(c)]) == 0

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False or not self.feasible(c):
            raise Infeasible()
        self.add(c)

    # -- obligations ---------------------------------------------------------
    def oblige(self, cond, label):
        """pc => cond must be valid."""
        from . import sym

        run = self.run
        if isinstance(cond, sym.SymBool):
            cond = cond.cond
        if isinstance(cond, sym.StrEq):
            r = sym.str_eq(cond.a, cond.b)  # more may be known by now
            r = r.cond if isinstance(r, sym.SymBool) else r
            if isinstance(r, sym.StrEq):
                return self._oblige_str(cond, label)
            cond = (not r if isinstance(r, bool) else z3.Not(r)) if cond.neg else r
        c = simp(cond)
        rec = run.obl.setdefault(label, dict(n=0, discharged=0, trivial=0, z3=0, cvc5=0, solver_s=0.0))
        rec["n"] += 1
        if c is True:
            # still only an obligation if the path is reachable; it holds on it by evaluation
            rec["discharged"] += 1
            rec["trivial"] += 1
            return True
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        t = time.time()
        r, m = self._query(neg, PROVE_MS)
        backend = "z3"
        if r == z3.unknown:
            r2, m2 = self._retry(neg)
            if r2 is not None:
                r, m, backend = r2
        rec["solver_s"] += time.time() - t
        if r == z3.unsat:
            rec["discharged"] += 1
            rec[backend] += 1
            if len(run.samples) < 3:
                run.samples.append(dict(label=label, path=len(self.taken), backend=backend, negated_goal=str(neg)[:400]))
            return True
        if r == z3.sat:
            run.refuted.append(
                dict(label=label, inputs=self.concretise(m), goal=str(c)[:800], path=list(self.taken), approx=self.approx,
                     notes={k: str(v)[:200] for k, v in self.notes.items()})
            )
            if run.stop_on_refuted:
                run.stack.clear()
            raise Abandon()
        run.undecided.append(dict(label=label, why="solver returned unknown", path=list(self.taken), goal=str(c)[:300]))
        raise Abandon()

    def _oblige_str(self, c, label):
        """An equality of texts not settled by the solved form: look for a distinguishing value."""
        import random

        from . import sym

        run = self.run
        rec = run.obl.setdefault(label, dict(n=0, discharged=0, trivial=0, z3=0, cvc5=0, solver_s=0.0))
        rec["n"] += 1
        r, m = self._query(None, FEAS_MS)
        if r == z3.unsat:
            rec["discharged"] += 1
            rec["z3"] += 1
            return True
        if c.neg:
            # a != b: assuming equality must be impossible
            def equal():
                sym.unify(c.a, c.b)
                self.check_diseqs()

            try:
                if not self.nested(equal):
                    rec["discharged"] += 1
                    rec["strings"] = rec.get("strings", 0) + 1
                    return True
            except Unsupported:
                pass
        for k in range(60):
            self.assign = {}
            self.rng = random.Random(k)
            try:
                a = sym.model_value(sym.SymStr(c.a), m, self)
                b = sym.model_value(sym.SymStr(c.b), m, self)
            except Exception:
                break
            if (a == b) == c.neg and all(
                sym.model_value(sym.SymStr(x), m, self) != sym.model_value(sym.SymStr(y), m, self)
                for x, y in self.diseqs
            ):
                run.refuted.append(dict(label=label, inputs=self.concretise(m), path=list(self.taken),
                                        approx=self.approx, goal=f"{sym.resolve(c.a)} == {sym.resolve(c.b)}"[:800],
                                        notes={k: str(v)[:200] for k, v in self.notes.items()}))
                self.assign = {}
                self.rng = None
                raise Abandon()
        self.assign = {}
        self.rng = None
        run.undecided.append(dict(label=label, why="string equation", path=list(self.taken),
                                  goal=f"{sym.resolve(c.a)} == {sym.resolve(c.b)} neg={c.neg}"[:300]))
        raise Abandon()

    def _retry(self, neg):
        # a fresh, non-incremental z3, then cvc5 on the same SMT-LIB text
        t = time.time()
        s = z3.Solver()
        s.set("timeout", PROVE_MS)
        for c in self.pc:
            s.add(c)
        s.add(neg)
        r = s.check()
        self.run.stats.solver_s += time.time() - t
        if r == z3.unsat:
            return (r, None, "z3"), None
        if r == z3.sat:
            return (r, s.model(), "z3"), None
        t = time.time()
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run([CVC5, "--strings-exp", f"--tlimit={PROVE_MS}", f.name],
                               capture_output=True, text=True, timeout=PROVE_MS / 1000 + 10)
            out = o.stdout.strip().splitlines()
        except Exception:
            out = []
        finally:
            os.unlink(f.name)
        self.run.stats.solver_s += time.time() - t
        if out and out[0] == "unsat":
            return (z3.unsat, None, "cvc5"), None
        return None, None

    def concretise(self, m):
        import random

        from . import sym

        if m is None:
            _, m = self._query(None, FEAS_MS)
        if not self.assign:
            self.rng = random.Random(len(self.taken))
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = sym.model_value(v, m, self)
            except Exception as e:  # a value we cannot print is simply left out
                out[k] = f"<{type(e).__name__}>"
        return out


def simp(c):
    """Python bool when the condition is decided syntactically, else a z3 Bool."""
    if c is True or c is False:
        return c
    if not isinstance(c, z3.ExprRef):
        c2 = getattr(c, "cond", None)
        if c2 is None:
            raise Unsupported(f"not a condition: {type(c).__name__}")
        return simp(c2)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


class Run:
    """Exploration of one harness (one contract instance)."""

    def __init__(self, name, fn, stubs=None, budget=120.0, max_depth=400, max_paths=20000):
        self.name = name
        self.fn = fn
        self.stubs = stubs or {}
        self.budget = budget
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.houdini_dropped = set()
        self.shapes = {}
        self.textlists = set()
        self.passlang_prev = {}
        self.max_ticks = 200
        self.stop_on_refuted = False
        self.reset()
        self.rounds = 0

    def reset(self):
        self.stack = []
        self.stats = Stats()
        self.obl = {}
        self.refuted = []
        self.undecided = []
        self.unsupported = []
        self.covered = {}
        self.samples = []
        self.paths = 0
        self.pruned = 0
        self.restart = False
        self.passlang = {}
        self.functions = set()
        self.stubs_used = set()
        self.loops_cut = set()

    def expired(self):
        return time.time() - self.t0 > self.budget

    def go(self, vc):
        global CTX
        self.t0 = time.time()
        while True:
            self.rounds += 1
            self.reset()
            self.stack = [[]]
            while self.stack:
                if self.expired() or self.paths >= self.max_paths:
                    self.unsupported.append("budget exhausted with paths left")
                    break
                prefix = self.stack.pop()
                c = Ctx(prefix, self)
                CTX = None
                state.restore()
                CTX = c
                try:
                    self.fn(vc)
                    self.paths += 1
                except (Infeasible,):
                    self.pruned += 1
                except Abandon:
                    self.paths += 1
                except Unsupported as e:
                    self.paths += 1
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb
                             if "/pyvc/" not in f.filename][-2:]
                    self.unsupported.append(f"{e} @ {' < '.join(reversed(where))}")
                    if len(self.unsupported) > 20:
                        break
                except RecursionError as e:
                    self.paths += 1
                    self.unsupported.append("recursion limit")
                except Exception as e:
                    try:
                        engine_error(e)
                    except Unsupported as u:
                        self.paths += 1
                        self.unsupported.append(str(u))
                        if len(self.unsupported) > 20:
                            break
                        continue
                    # the harness lets no exception escape unless the engine misbehaved
                    # on something native: undecided, with the trace
                    self.paths += 1
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-6:]
                    files = ["pyown" if "/pyown/" in f.filename else "contract" if "/contracts/" in f.filename else ""
                             for f in tb]
                    last = max([i for i, f in enumerate(files) if f == "contract"], default=-1)
                    if "pyown" in files[last + 1 :] and c._reachable_hint():
                        self.obl.setdefault("no unexpected exception", dict(
                            n=0, discharged=0, trivial=0, z3=0, cvc5=0, solver_s=0.0))["n"] += 1
                        self.refuted.append(dict(label="no unexpected exception", inputs=c.concretise(None), approx=True,
                                                 goal=f"{type(e).__name__}: {str(e)[:200]} @ {where}", path=list(c.taken),
                                                 notes={}))
                    elif c._reachable_hint():
                        self.unsupported.append(f"escaped {type(e).__name__}: {str(e)[:200]} @ {where}")
                    if len(self.unsupported) > 20:
                        break
                finally:
                    CTX = None
            if self.passlang != self.passlang_prev and (
                    self.passlang_prev or self.refuted or self.undecided or self.unsupported):
                # (with no assumption made so far and everything shown, there is nothing to sharpen)
                self.passlang_prev = self.passlang
                self.restart = True
            if self.restart and self.rounds < 30 and not self.expired():
                continue
            if self.restart:
                self.unsupported.append("loop invariants did not settle")
            break
        self.wall = time.time() - self.t0
        return self

    def report(self):
        n = sum(o["n"] for o in self.obl.values())
        d = sum(o["discharged"] for o in self.obl.values())
        status = "proved"
        if self.refuted:
            status = "refuted"
        elif self.unsupported or self.undecided or (n and d < n):
            status = "undecided"
        elif n == 0:
            status = "vacuous"
        elif self.covered and not all(self.covered.values()):
            status = "vacuous"
        return dict(
            harness=self.name, status=status, obligations=n, discharged=d,
            by_label=self.obl, refuted=self.refuted[:5], undecided=self.undecided[:5],
            unsupported=sorted(set(self.unsupported))[:8], paths=self.paths, infeasible=self.pruned,
            rounds=self.rounds, solver_s=round(self.stats.solver_s, 3), queries=self.stats.queries,
            feasibility_unknown=self.stats.feas_unknown, wall_s=round(self.wall, 3),
            covers=self.covered, functions=sorted(self.functions), stubs=sorted(self.stubs_used),
            loops_cut=sorted(self.loops_cut), samples=self.samples,
        )


def _reachable_hint(self):
    r, _ = self._query(None, FEAS_MS)
    return r != z3.unsat


Ctx._reachable_hint = _reachable_hint
