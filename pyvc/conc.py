"""The same contracts evaluated on the real, uninstrumented code with concrete values."""
import asyncio
import logging
import os
import random
import selectors
import signal
import threading
import time

from . import lang as L, state
from .api_common import Outcome


class Skip(BaseException):
    pass


class Fail(BaseException):
    def __init__(self, label, inputs, detail=""):
        super().__init__(label)
        self.label, self.inputs, self.detail = label, inputs, detail


class Stopped(BaseException):
    pass


class _Warp(selectors.DefaultSelector):
    """Idle waiting takes no real time: the clock jumps to the next timer."""

    def __init__(self):
        super().__init__()
        self.now = 0.0

    def select(self, timeout=None):
        if timeout is None:
            # nothing will ever happen
            raise Blocked()
        r = super().select(0)
        if not r and timeout > 0:
            self.now += timeout
        return r


class Blocked(BaseException):
    pass


class Hung(KeyboardInterrupt):
    """One evaluation used CPU_LIMIT seconds of processor time (asyncio lets only this kind of exception through)."""


CPU_LIMIT = 20


class limited:
    """A limit on the processor time of one evaluation (not on its duration: the machine may be busy)."""

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGPROF, self.hung)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 1)

    def hung(self, *a):
        raise Hung()

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, self.old)


class WarpLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._warp = _Warp()
        super().__init__(self._warp)

    def time(self):
        return self._warp.now


class LoopProxy:
    """The running loop, except that connections are made by the contract."""

    def __init__(self, real, connector):
        self._real, self._connector = real, connector

    async def create_connection(self, factory, *a, **k):
        return await self._connector(factory)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def set_exception_handler(self, h):
        self._real.set_exception_handler(lambda l, c: None)


NUMS = [-1, 0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 23, 24, 31, 32, 59, 60, 99, 100, 101, 127, 128, 254, 255, 256, 359, 360,
        361, 1000, 65534, 65535, 65536]


class ConcVC:
    symbolic = False

    def __init__(self, rng, replay=None, size=6, pool=None):
        self.pool = pool  # values drawn by earlier evaluations with the same state: using them again finds stale caches
        self.rng = rng
        self.replay = dict(replay or {})
        self.inputs = {}
        self.lang = L
        self.size = size
        self.checks = 0
        self.covered = set()
        self.draws = 0

    def _in(self, name, make, fits=None):
        k, i = name, 1
        while k in self.inputs:
            i += 1
            k = f"{name}#{i}"
        if k in self.replay and not (isinstance(self.replay[k], str) and self.replay[k].startswith("<")):
            v = self.replay[k]
            if isinstance(v, dict) and "b" in v:
                v = v["b"].encode("latin-1")
        else:
            old = self.pool.setdefault(k, []) if self.pool is not None and fits is not None else None
            v = self.rng.choice(old) if old and self.rng.random() < 0.15 else None
            if v is None or not fits(v):
                v = make()
                if old is not None:
                    old.append(v)
        self.inputs[k] = v
        return v

    def _sample(self, lang, corpus):
        r = self.rng
        if corpus and r.random() < 0.5:
            w = r.choice(corpus)
            if r.random() < 0.35:
                w2 = self._mutate(w)
                if w2 in lang:
                    return w2
            if w in lang:
                return w
        for _ in range(5):
            w = lang.sample(r, r.choice([0, 1, 2, 3, 4, 6, 10, 16] * 8 + [33, 70, 300]))
            if w is not None:
                return w
        return lang.shortest()

    def _mutate(self, w):
        r = self.rng
        al = "0123456789*# \n*##"
        if w and r.random() < 0.25:  # a stretch of it many times over
            i = r.randint(0, len(w) - 1)
            j = min(len(w), i + r.randint(1, 4))
            return w[:j] + w[i:j] * r.choice([1, 2, 3, 7, 9, 12, 20, 40]) + w[j:]
        for _ in range(r.randint(1, 2)):
            i = r.randint(0, len(w))
            m = r.random()
            if m < 0.4:
                w = w[:i] + r.choice(al) + w[i:]
            elif m < 0.7 and w:
                w = w[: max(0, i - 1)] + w[i:]
            else:
                w = w[:i] + r.choice(al) + w[i + 1 :]
        return w

    def text(self, name, lang=L.ALL, corpus=None):
        if isinstance(lang, str):
            lang = L.regex(lang)
        v = self._in(name, lambda: self._sample(lang, corpus), lambda v: isinstance(v, str) and v in lang)
        if v not in lang:
            raise Skip()
        return v

    def bytes(self, name, lang=None, corpus=None):
        if isinstance(lang, str):
            lang = L.regex(lang)
        lang = L.charset([(0, 255)]).star() if lang is None else lang
        v = self._in(name, lambda: self._sample(lang, corpus).encode("latin-1"), lambda v: isinstance(v, bytes))
        if isinstance(v, str):
            v = v.encode("latin-1")
        if v.decode("latin-1") not in lang:
            raise Skip()
        return v

    def int(self, name, lo=None, hi=None, corpus=None):
        r = self.rng

        def make():
            if corpus and r.random() < 0.5:
                return r.choice(corpus)
            if r.random() < 0.6:
                c = [n for n in NUMS if (lo is None or n >= lo) and (hi is None or n <= hi)]
                c += [x for x in (lo, hi) if x is not None] * 2
                if c:
                    return r.choice(c)
            e = r.randint(1, 6) if r.random() < 0.7 else r.choice([9, 10, 11, 12, 16, 20, 25, 40])
            a = lo if lo is not None else -(10**e)
            b = hi if hi is not None else max(10**e, (lo or 0) + 1)
            return r.randint(a, b)

        v = self._in(name, make, lambda v: type(v) is int and (lo is None or v >= lo) and (hi is None or v <= hi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def _u32(self):
        r = self.rng
        return r.choice([r.getrandbits(32), r.getrandbits(32), r.randrange(100000), 0, 1, 0xFFFFFFFF, 0x80000000,
                         1 << r.randrange(32), r.getrandbits(32) & (0xFF << (8 * r.randrange(4)))])

    def u32(self, name):
        return self._in(name, self._u32, lambda v: type(v) is int)

    def u32_text(self, name):
        t = self._in(name, lambda: "0" * self.rng.choice([0, 0, 0, 1, 3]) + str(self._u32()), lambda v: isinstance(v, str))
        return t, int(t)

    def bool(self, name):
        return self._in(name, lambda: self.rng.random() < 0.5)

    def choose(self, name, options):
        options = list(options)
        i = self._in(name, lambda: self.rng.randrange(len(options)))
        return options[i]

    def num_text(self, n, width=0):
        return f"{n:0{width}d}" if width else str(int(n))

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise Fail(label, dict(self.inputs))
        return True

    def fail(self, label):
        self.check(False, label)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def cover(self, label):
        self.covered.add(label)

    def expect_cover(self, *labels):
        pass

    def stop(self):
        raise Stopped()

    def note(self, k, v):
        pass

    def outcome(self, f, *a, **k):
        try:
            return Outcome("ok", f(*a, **k))
        except Exception as e:
            return Outcome("exc", e)

    async def aoutcome(self, coro):
        try:
            return Outcome("ok", await coro)
        except Exception as e:
            return Outcome("exc", e)

    def run(self, coro):
        loop = WarpLoop()
        asyncio.set_event_loop(loop)
        try:
            return loop.run_until_complete(coro)
        finally:
            try:
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop._warp.now = loop._warp.now
                loop.run_until_complete(asyncio.sleep(0))
            except BaseException:
                pass
            asyncio.set_event_loop(None)
            loop.close()

    async def settle(self):
        for _ in range(12):
            await asyncio.sleep(0)

    def loop(self, connector):
        return LoopProxy(asyncio.get_running_loop(), connector)


class _Reader(logging.Handler):
    """Somebody reads the log: every record is formatted."""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


_reader = _Reader()
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-13", "YYY3:30"]


def surroundings(seed, window):
    """What the results must not depend on: the local time zone and whether anyone reads the log."""
    rng = random.Random(f"{seed}:env:{window}")
    zone, log = (rng.choice(ZONES), rng.random() < 0.3) if window else ("UTC0", False)
    os.environ["TZ"] = zone
    time.tzset()
    root = logging.getLogger()
    logging.disable(logging.NOTSET if log else logging.CRITICAL)
    root.setLevel(logging.DEBUG if log else logging.WARNING)
    root.handlers[:] = [_reader] if log else []


WINDOW = 25  # evaluations between two restorations of module- and class-level state


def explore(h, seed, seconds, replay=None, limit=None, window=None):
    """Random evaluation of one contract; returns a report dict (fail = first failure).

    Unless the contract asks for a fresh state, module- and class-level state lives on for WINDOW evaluations, so that
    state kept between calls is exercised; a failure that needs it is recorded with its window."""
    r = _explore(h, seed, seconds, replay, limit, window)
    f = r["fail"]
    if f and replay is None and window is None:
        r2 = _explore(h, seed, 1.0, f["inputs"], 1, None)
        if not r2["fail"]:
            f["window"] = [seed, r["k"] if h.fresh else r["k"] // WINDOW * WINDOW, r["k"] + 1]
    return r


def _explore(h, seed, seconds, replay, limit, window):
    t0 = time.time()
    n = skipped = checks = 0
    seen = set()
    samples = []
    covered = set()
    errors = {}
    fail = None
    k = window[1] if window else 0
    if window:
        seed, limit = window[0], window[2]
    while (time.time() - t0 < seconds or n == 0) and (limit is None or k < limit):
        rng = random.Random(f"{seed}:{h.name}:{k}")
        if h.fresh or replay is not None or k % WINDOW == 0:
            state.restore()
            pool = {}
        if replay is not None or k % WINDOW == 0 or window and k == window[1]:
            surroundings(seed, 0 if replay is not None else k // WINDOW)
        k += 1
        vc = ConcVC(rng, replay, pool=None if h.fresh or replay is not None else pool)
        try:
            with limited():
                h(vc)
        except Skip:
            skipped += 1
            if skipped > 200000 or time.time() - t0 > seconds + 20:
                break
            if replay is not None:
                break
            continue
        except Stopped:
            pass
        except Hung:
            errors["the scenario never ends"] = errors.get("the scenario never ends", 0) + 1
            fail = dict(label="the scenario ends", inputs=show(vc.inputs), detail=f"still busy after {CPU_LIMIT} s of processor time")
            break
        except Blocked:
            errors["the scenario never ends"] = errors.get("the scenario never ends", 0) + 1
            fail = dict(label="the scenario ends", inputs=show(vc.inputs), detail="waits for ever")
            break
        except Fail as e:
            fail = dict(label=e.label, inputs=show(e.inputs), detail=e.detail)
            n += 1
            break
        except Exception as e:
            # the contract itself could not be evaluated (e.g. it reads an attribute that is gone)
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            files = ["pyown" if "/pyown/" in f.filename else "contract" if "/contracts/" in f.filename else "" for f in tb]
            last = max([i for i, f in enumerate(files) if f == "contract"], default=-1)
            if "pyown" in files[last + 1 :]:
                fail = dict(label="no unexpected exception", inputs=show(vc.inputs),
                            detail="".join(traceback.format_exception_only(e))[-300:] + " @ "
                            + " < ".join(f"{f.filename}:{f.lineno}" for f in reversed(tb[-3:])))
                n += 1
                break
            rest = tb[last + 1:]
            private = isinstance(e, AttributeError) and str(getattr(e, "name", "") or "").startswith("_")
            if last >= 0 and not any("/pyvc/" in f.filename for f in rest) and not private and not isinstance(e, (ImportError, NameError)):
                # what the code returned cannot be read the way the contract reads it (None instead of a time, say)
                fail = dict(label="what the code returns has the documented form", inputs=show(vc.inputs),
                            detail="".join(traceback.format_exception_only(e))[-300:] + " @ "
                            + " < ".join(f"{f.filename}:{f.lineno}" for f in reversed(tb[-3:])))
                n += 1
                break
            key = f"{type(e).__name__}: {e}"[:200]
            errors[key] = errors.get(key, 0) + 1
            if len(errors) > 5 or sum(errors.values()) > 50:
                break
            errors_where = [f"{f.filename}:{f.lineno}" for f in tb][-3:]
            errors[key + " @ " + " < ".join(errors_where)] = 1
            continue
        n += 1
        checks += vc.checks
        covered |= vc.covered
        key = repr(sorted(vc.inputs.items(), key=lambda x: x[0]))
        if key not in seen:
            if len(seen) < 200000:
                seen.add(key)
            if len(samples) < 2:
                samples.append(show(vc.inputs))
        if replay is not None:
            break
    return dict(harness=h.name, k=k - 1, evaluations=n, distinct=len(seen), checks=checks, skipped=skipped, samples=samples,
                fail=fail, errors=errors, covered=sorted(covered), wall_s=round(time.time() - t0, 2))


def show(d):
    return {k: ({"b": v.decode("latin-1")} if isinstance(v, bytes) else v) for k, v in d.items()}
