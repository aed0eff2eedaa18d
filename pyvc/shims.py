"""Assumed contracts of the standard library modules the code uses.

Everything here stands for behaviour of CPython's library that is *assumed*, not verified:
asyncio (single-threaded scheduling, queues, timeouts), threading.Lock, datetime and
ipaddress (field validation and field access), hashlib/hmac/secrets (deterministic opaque
functions of their inputs; random bytes are arbitrary), logging (no effect).
"""
import asyncio as _asyncio
import datetime as _dt
import hashlib as _hashlib
import hmac as _hmac
import ipaddress as _ip
import logging as _logging
import secrets as _secrets
import threading as _threading
import types

import z3

from . import core, lang as L, sym as S
from .core import Abandon, unsupported
from .sym import SymBool, SymInt, SymStr, mkbool, mkint, mkstr, truth


_vc_ = None  # functions of this module may be handed symbolic values


def ok(x):
    x._vc_ok = True
    return x


class Module(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.__dict__["_real"], n)


# ============================================================================ asyncio


class Env:
    """The simulated event loop of one path."""

    _vc_env_ = True

    def __init__(self):
        self.tasks = []
        self.pending = []
        self.blocked = []  # tasks waiting for another one
        self.running = None  # the background task being run
        self.timeouts = []
        self.on_empty = None  # called with a queue on a read that finds nothing
        self.on_sleep = None
        self.on_block = None
        self.loop = FakeLoop(self)
        self.draining = False
        self.queues = []

    def drain(self):
        if self.draining:
            return
        self.draining = True
        try:
            while True:
                while self.pending:
                    self.pending.pop(0)._run()
                again = [t for t in self.blocked if t.waits.ready()]
                if not again:
                    break
                for t in again:
                    self.blocked.remove(t)
                self.pending.extend(again)
        finally:
            self.draining = False

    def block(self, what):
        """Nothing will ever wake this wait: a timeout fires, or the path waits for ever."""
        if any(t is not None for t in self.timeouts):
            raise TimeoutError()
        if self.on_block is not None:
            self.on_block(what)
        raise Abandon()


def env():
    c = core.ctx()
    if c.env is None:
        c.env = Env()
    return c.env


def drive(coro):
    """Run a coroutine that never really suspends."""
    try:
        y = coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    unsupported(f"a real suspension ({y!r})"[:200])


class _Wait:
    """The wait for another task; in a background task it really suspends."""

    _vc_ok = True
    _vc_env_ = True

    def __init__(self, what, ready):
        self.what, self.ready = what, ready

    def __await__(self):
        e = env()
        e.drain()
        while not self.ready():
            r = e.running
            if r is None:
                e.block(self.what)
            if any(t is not None for t in e.timeouts[r.base:]) and not e.pending:
                raise TimeoutError()
            yield self


@ok
class Task:
    _vc_env_ = True

    def __init__(self, coro):
        if not hasattr(coro, "send"):
            raise TypeError(f"a coroutine was expected, got {coro!r}"[:100])
        self.coro = coro
        self.state = "pending"
        self.value = self.exc = None
        self.cbs = []

    def _run(self):
        if self.state != "pending":
            return
        self.state = "running"
        w = env()
        before, w.running = w.running, self
        self.base = len(w.timeouts)
        try:
            y = self.coro.send(None)
            if not isinstance(y, _Wait):
                self.coro.close()
                unsupported(f"a real suspension ({y!r})"[:200])
            if len(w.timeouts) > self.base:
                unsupported("a task suspended inside a time limit")
            self.state, self.waits = "pending", y
            w.blocked.append(self)
            return
        except StopIteration as e:
            self.value = e.value
        except Exception as e:
            core.engine_error(e)
            self.exc = e
        finally:
            w.running = before
        self.state = "done"
        for f in self.cbs:
            f(self)

    def done(self):
        return self.state == "done"

    def result(self):
        if self.state != "done":
            raise _asyncio.InvalidStateError()
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self):
        return self.exc

    def add_done_callback(self, f):
        self.cbs.append(f)

    def cancel(self, *a):
        if self.state == "pending":
            self.state = "done"
            self.exc = _asyncio.CancelledError()
            self.coro.close()

    def cancelled(self):
        return isinstance(self.exc, _asyncio.CancelledError)

    def __await__(self):
        yield from _Wait("task", self.done).__await__()
        return self.result()


@ok
class Future:
    _vc_env_ = True

    def __init__(self, *a, **k):
        self.state = "pending"
        self.value = self.exc = None

    def set_result(self, v):
        if self.state == "done":
            raise _asyncio.InvalidStateError("invalid state")
        self.state, self.value = "done", v

    def set_exception(self, e):
        if self.state == "done":
            raise _asyncio.InvalidStateError("invalid state")
        self.state, self.exc = "done", e

    def done(self):
        return self.state == "done"

    result = Task.result
    exception = Task.exception

    def cancelled(self):
        return False

    def __await__(self):
        yield from _Wait("future", self.done).__await__()
        return self.result()

    def __class_getitem__(cls, k):
        return cls


@ok
class Queue:
    _vc_env_ = True

    def __init__(self, maxsize=0):
        if maxsize:
            unsupported("bounded queue")
        self.items = []
        self.gap = None  # how many unknown items follow the known first ones (see crowd)
        self.back = []  # and the known items after those
        env().queues.append(self)

    def crowd(self, n):
        self.gap = n

    def put_nowait(self, x):
        (self.items if self.gap is None else self.back).append(x)

    async def put(self, x):
        self.put_nowait(x)

    def get_nowait(self):
        self._known()
        if not self.items:
            raise _asyncio.QueueEmpty()
        return self.items.pop(0)

    def _known(self):
        if not self.items and self.gap is not None:
            unsupported("an unknown item of a queue")

    async def get(self):
        e = env()
        self._known()
        if not self.items:
            e.drain()
        if not self.items and e.on_empty is not None:
            e.on_empty(self)
        if not self.items:
            e.block("queue")
        return self.items.pop(0)

    def empty(self):
        return not self.items and self.gap is None

    def qsize(self):
        return len(self.items) if self.gap is None else self.gap + (len(self.items) + len(self.back))

    def full(self):
        return False

    def task_done(self):
        pass

    def __class_getitem__(cls, k):
        return cls


class _Timeout:
    _vc_ok = True
    _vc_env_ = True

    def __init__(self, t):
        self.t = t

    async def __aenter__(self):
        env().timeouts.append(self.t)
        return self

    async def __aexit__(self, *a):
        env().timeouts.pop()
        return False


@ok
def timeout(t):
    return _Timeout(t)


@ok
async def wait_for(coro, t=None, **k):
    t = k.get("timeout", t)
    e = env()
    e.timeouts.append(t)
    try:
        return await coro
    finally:
        e.timeouts.pop()


@ok
async def sleep(d, result=None):
    e = env()
    e.drain()
    if e.on_sleep is not None:
        e.on_sleep()
    return result


@ok
class CrowdCallback:
    """One of any number of callbacks: known by its name only."""

    _vc_env_ = True
    _vc_skip_ = True

    def __init__(self, name):
        self.name = name

    def __call__(self, *args, **k):
        return CrowdCall(self.name, args, k)


@ok
class CrowdCall:
    _vc_env_ = True

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw


@ok
class CrowdTask:
    """The task of such a callback's call.  Only what is handed back can be judged."""

    _vc_env_ = True

    def __init__(self, call):
        self.call = call

    def __await__(self):
        unsupported("waiting for one of any number of callbacks")


@ok
def create_task(coro, **k):
    if isinstance(coro, CrowdCall):
        return CrowdTask(coro)
    t = Task(coro)
    e = env()
    e.tasks.append(t)
    e.pending.append(t)
    return t


@ok
async def gather(*aws, return_exceptions=False):
    ts = [a if isinstance(a, (Task, Future)) else create_task(a) for a in aws]
    out = []
    for t in ts:
        await _Wait("gather", t.done)
        if t.exc is not None:
            if not return_exceptions:
                raise t.exc
            out.append(t.exc)
        else:
            out.append(t.value)
    return out


@ok
class Event:
    _vc_env_ = True

    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    async def wait(self):
        if truth(self.flag):
            return True
        e = env()
        e.drain()
        if e.on_sleep is not None:
            e.on_sleep()
        if not truth(self.flag):
            e.block("event")
        return True


@ok
class ALock:
    _vc_env_ = True

    def __init__(self):
        self.held = False

    def locked(self):
        return self.held

    async def acquire(self):
        if self.held:
            env().block("lock")
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("Lock is not acquired.")
        self.held = False

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


@ok
class FakeLoop:
    _vc_env_ = True

    def __init__(self, e):
        self.e = e
        self.connector = None

    def set_exception_handler(self, h):
        self.handler = h

    def create_future(self):
        return Future()

    def create_task(self, coro, **k):
        return create_task(coro)

    async def create_connection(self, factory, *a, **k):
        return await self.connector(factory)

    def call_soon(self, f, *a):
        unsupported("call_soon")

    call_later = call_soon_threadsafe = call_soon

    def time(self):
        return SymInt(z3.Int(core.ctx().fresh_name("time")))

    def is_running(self):
        return True

    def is_closed(self):
        return False


@ok
def get_event_loop():
    return env().loop


asyncio = Module(
    "asyncio", _asyncio, Task=Task, Future=Future, Queue=Queue, timeout=timeout, wait_for=wait_for, sleep=sleep,
    create_task=create_task, ensure_future=create_task, gather=gather, Event=Event, Lock=ALock,
    get_event_loop=get_event_loop, get_running_loop=get_event_loop, new_event_loop=get_event_loop,
)


# ============================================================================ threading


@ok
class Lock:
    """A lock nobody else touches except through the calls of the transport."""

    _vc_env_ = True

    def __init__(self):
        self.held = False

    def locked(self):
        return self.held

    def acquire(self, blocking=True, timeout=-1):
        if truth(self.held):
            if not blocking:
                return False
            env().block("lock")
        self.held = True
        return True

    def release(self):
        if not truth(self.held):
            raise RuntimeError("release unlocked lock")
        self.held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


threading = Module("threading", _threading, Lock=Lock)


# ============================================================================ logging


@ok
class _Logger:
    _vc_env_ = True
    _vc_skip_ = True

    def _n(self, *a, **k):
        return None

    debug = info = warning = error = exception = critical = log = setLevel = addHandler = _n

    def isEnabledFor(self, l):
        """Whether anyone reads the log is not the program's business: arbitrary, the same throughout a path."""
        c = core.CTX
        if c is None:
            return False
        if "log" not in c.notes:
            if c.nesting:
                unsupported("a question about the log inside an element case")
            c.notes["log"] = c.decide([None, None]) == 1
        return c.notes["log"]


_LOGGER = _Logger()
logging = Module("logging", _logging, getLogger=ok(lambda *a: _LOGGER), **{
    n: _LOGGER._n for n in ("debug", "info", "warning", "error", "exception")})
for _n in ("debug", "info", "warning", "error", "exception"):
    logging.__dict__[_n] = ok(lambda *a, **k: None)


# ============================================================================ digests


def _b(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, SymStr) and x.isb:
        return x
    raise TypeError("object supporting the buffer API required")


HEXD = L.charset("0123456789abcdef")
BYTE = L.charset([(0, 255)])
SIZES = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}


class _Digest:
    _vc_ok = True

    def __init__(self, name, data=b""):
        self.name = name
        self.data = _b(data)
        self.digest_size = SIZES[name]

    def update(self, d):
        self.data = self.data + _b(d)

    def digest(self):
        if isinstance(self.data, bytes) and self.name in SIZES:
            return _hashlib.new(self.name, self.data).digest()
        return S.opaque("H:" + self.name, (self.data,), BYTE.times(self.digest_size), True)

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        return _Digest(self.name, self.data)


def _mk(name):
    def f(data=b"", **k):
        return _Digest(name, data)

    f.__name__ = f.__qualname__ = name
    f._vc_ok = True
    f._vc_hash = name
    return f


_HASHES = {n: _mk(n) for n in SIZES}


@ok
def _new(name, data=b"", **k):
    if name not in SIZES:
        raise ValueError("unsupported hash type " + str(name))
    return _Digest(name, data)


hashlib = Module("hashlib", _hashlib, new=_new, **_HASHES)


def _hname(m):
    if isinstance(m, str):
        m = m.lower().replace("-", "")
        if m not in SIZES:
            raise ValueError("unsupported hash type")
        return m
    n = getattr(m, "_vc_hash", None)
    if n is None:
        unsupported("digestmod")
    return n


class HMAC:
    _vc_ok = True

    def __init__(self, key, msg=None, digestmod=""):
        if digestmod == "":
            raise TypeError("Missing required argument 'digestmod'.")
        self.key = _b(key)
        self.msg = _b(msg) if msg is not None else b""
        self.h = _hname(digestmod)
        self.digest_size = SIZES[self.h]

    def update(self, d):
        self.msg = self.msg + _b(d)

    def digest(self):
        if isinstance(self.key, bytes) and isinstance(self.msg, bytes):
            return _hmac.new(self.key, self.msg, self.h).digest()
        return S.opaque("HMAC:" + self.h, (self.key, self.msg), BYTE.times(self.digest_size), True)

    def hexdigest(self):
        return self.digest().hex()


@ok
def _hnew(key, msg=None, digestmod=""):
    return HMAC(key, msg, digestmod)


@ok
def _hdigest(key, msg, digest):
    return HMAC(key, msg, digest).digest()


@ok
def compare_digest(a, b):
    sa = isinstance(a, str) or (isinstance(a, SymStr) and not a.isb)
    sb = isinstance(b, str) or (isinstance(b, SymStr) and not b.isb)
    if sa != sb:
        raise TypeError("unsupported operand types(s) or combination of types")
    return truth(a == b)


hmac = Module("hmac", _hmac, HMAC=HMAC, new=_hnew, digest=_hdigest, compare_digest=compare_digest)


@ok
def token_bytes(n=32):
    a = S.new_atom("rnd", BYTE.times(n) if isinstance(n, int) and n <= 64 else BYTE.star())
    return mkstr((a,), True)


@ok
def token_hex(n=32):
    return token_bytes(n).hex()


secrets = Module("secrets", _secrets, token_bytes=token_bytes, token_hex=token_hex, compare_digest=compare_digest)


# ============================================================================ datetime


def _isint(x):
    return S.as_int(x) is not None and not isinstance(x, bool)


def _idx(x):
    if isinstance(x, bool):
        return int(x)
    n = S.as_int(x)
    if n is None:
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    return n


def _between(lo, x, hi, msg):
    if not truth(_and(x >= lo, x <= hi)):
        raise ValueError(msg)


def _and(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return mkbool(z3.And(S.zcond(a), S.zcond(b)))


class timedelta:
    _vc_ok = True

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        for v in (days, seconds, microseconds, milliseconds, minutes, hours, weeks):
            if isinstance(v, float) or S.as_int(v) is None:
                unsupported("fractional timedelta")
        if microseconds != 0 or milliseconds != 0:
            unsupported("microseconds")
        tot = seconds + minutes * 60 + hours * 3600 + days * 86400 + weeks * (7 * 86400)
        if isinstance(tot, S.Sym):
            # |days| < 10**9 or OverflowError
            lim = 86400 * 10**9
            if not truth(_and(tot > -lim, tot < lim)):
                raise OverflowError("days; must have magnitude <= 999999999")
        elif abs(tot) >= 86400 * 10**9:
            raise OverflowError("days; must have magnitude <= 999999999")
        self.tot = tot

    @classmethod
    def _of(cls, tot):
        r = cls()
        r.tot = tot
        return r

    @property
    def days(self):
        return self.tot // 86400

    @property
    def seconds(self):
        return self.tot % 86400

    microseconds = 0

    def total_seconds(self):
        if isinstance(self.tot, int):
            return float(self.tot)
        return self.tot  # only ever divided or compared

    def _o(self, o):
        return isinstance(o, timedelta)

    def __neg__(self):
        return self._of(-self.tot)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._of(abs(self.tot) if isinstance(self.tot, int) else self.tot.__abs__())

    def __add__(self, o):
        return self._of(self.tot + o.tot) if self._o(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self._of(self.tot - o.tot) if self._o(o) else NotImplemented

    def __mul__(self, o):
        return self._of(self.tot * o) if S.as_int(o) is not None else NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if self._o(o):
            return self.tot // o.tot
        return self._of(self.tot // o)

    def __mod__(self, o):
        return self._of(self.tot % o.tot)

    def __truediv__(self, o):
        if isinstance(self.tot, int) and (not self._o(o) or isinstance(o.tot, int)):
            r = _dt.timedelta(seconds=self.tot) / (_dt.timedelta(seconds=o.tot) if self._o(o) else o)
            return r if not isinstance(r, _dt.timedelta) else unsupported("timedelta division")
        unsupported("timedelta division")

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return truth(self.tot != 0)

    def __eq__(self, o):
        return self.tot == o.tot if self._o(o) else False

    def __ne__(self, o):
        return S.mknot(self.__eq__(o))

    def __hash__(self):
        return hash(self.tot)

    def __lt__(self, o):
        return self.tot < o.tot

    def __le__(self, o):
        return self.tot <= o.tot

    def __gt__(self, o):
        return self.tot > o.tot

    def __ge__(self, o):
        return self.tot >= o.tot

    def __repr__(self):
        return f"timedelta({self.tot!r})"


class tzinfo:
    _vc_ok = True

    def utcoffset(self, dt):
        raise NotImplementedError

    def tzname(self, dt):
        raise NotImplementedError

    def dst(self, dt):
        raise NotImplementedError


class timezone(tzinfo):
    _vc_ok = True

    def __init__(self, offset, name=None):
        if not isinstance(offset, timedelta):
            raise TypeError("offset must be a timedelta")
        if not truth(_and(offset.tot > -86400, offset.tot < 86400)):
            raise ValueError("offset must be a timedelta strictly between -24h and 24h")
        self.offset = offset

    def utcoffset(self, dt):
        return self.offset

    def dst(self, dt):
        return None

    def __eq__(self, o):
        return self.offset == o.offset if isinstance(o, timezone) else False

    def __hash__(self):
        return hash(self.offset)

    def __repr__(self):
        return f"timezone({self.offset!r})"


timezone.utc = timezone(timedelta(0))


def _tz(t):
    if t is not None and not isinstance(t, tzinfo):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
    return t


class date:
    _vc_ok = True

    def __init__(self, year, month, day):
        self._ymd(year, month, day)

    def _ymd(self, year, month, day):
        year, month, day = _idx(year), _idx(month), _idx(day)
        _between(1, year, 9999, "year out of range")
        _between(1, month, 12, "month must be in 1..12")
        if all(isinstance(x, int) for x in (year, month, day)):
            _dt.date(year, month, day)
        else:
            y, m, d = S.zint(year), S.zint(month), S.zint(day)
            leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
            dim = z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
            if not truth(mkbool(z3.And(d >= 1, d <= dim))):
                raise ValueError("day is out of range for month")
        self.year, self.month, self.day = year, month, day

    @classmethod
    def today(cls):
        r = _dt_now()
        return date(r.year, r.month, r.day)

    def weekday(self):
        y, m, d = self.year, self.month, self.day
        if all(isinstance(x, int) for x in (y, m, d)):
            return _dt.date(y, m, d).weekday()
        c = core.ctx()
        key = ("weekday",) + tuple(S._key(x) for x in (y, m, d))
        if key not in c.memo:
            w = z3.Int(c.fresh_name("weekday"))
            c.add(z3.And(w >= 0, w <= 6))
            c.memo[key] = w
        return SymInt(c.memo[key])

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        unsupported("toordinal")

    def strftime(self, f):
        return _strftime(self, f)

    __format__ = None

    def isoformat(self):
        return _strftime(self, "%Y-%m-%d")

    def replace(self, year=None, month=None, day=None):
        return date(self.year if year is None else year, self.month if month is None else month,
                    self.day if day is None else day)

    def _k(self):
        return (self.year, self.month, self.day)

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        return _all_eq(self._k(), o._k())

    def __ne__(self, o):
        return S.mknot(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of a date")

    def __repr__(self):
        return f"{type(self).__name__}{self._k()!r}"


del date.__format__


def _all_eq(a, b):
    for x, y in zip(a, b):
        if not truth(x == y):
            return False
    return True


def _tpart(h, m, s, us):
    h, m, s, us = _idx(h), _idx(m), _idx(s), _idx(us)
    _between(0, h, 23, "hour must be in 0..23")
    _between(0, m, 59, "minute must be in 0..59")
    _between(0, s, 59, "second must be in 0..59")
    _between(0, us, 999999, "microsecond must be in 0..999999")
    return h, m, s, us


def _off_eq(a, b):
    if a is None or b is None:
        return a is b
    return a == b


class time:
    _vc_ok = True

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.hour, self.minute, self.second, self.microsecond = _tpart(hour, minute, second, microsecond)
        self.tzinfo = _tz(tzinfo)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def replace(self, **k):
        d = dict(hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        d.update(k)
        return time(**d)

    def strftime(self, f):
        return _strftime(self, f)

    def __eq__(self, o):
        if not isinstance(o, time):
            return False
        # compared field by field: stricter than the library's comparison of instants
        if not truth(_off_eq(self.utcoffset(), o.utcoffset())):
            unsupported("comparison of times with different offsets")
        return _all_eq((self.hour, self.minute, self.second, self.microsecond), (o.hour, o.minute, o.second, o.microsecond))

    def __ne__(self, o):
        return S.mknot(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of a time")

    def __repr__(self):
        return f"time({self.hour!r},{self.minute!r},{self.second!r},{self.tzinfo!r})"


class datetime(date):
    _vc_ok = True

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self._ymd(year, month, day)
        self.hour, self.minute, self.second, self.microsecond = _tpart(hour, minute, second, microsecond)
        self.tzinfo = _tz(tzinfo)

    @classmethod
    def now(cls, tz=None):
        return _dt_now(tz)

    @classmethod
    def today(cls):
        return _dt_now()

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return cls(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond,
                   tzinfo=t.tzinfo if tzinfo is True else tzinfo)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def date(self):
        return date(self.year, self.month, self.day)

    def time(self):
        return time(self.hour, self.minute, self.second, self.microsecond)

    def timetz(self):
        return time(self.hour, self.minute, self.second, self.microsecond, tzinfo=self.tzinfo)

    def replace(self, **k):
        d = dict(year=self.year, month=self.month, day=self.day, hour=self.hour, minute=self.minute,
                 second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        d.update(k)
        return datetime(**d)

    def _k(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return False
        if not truth(_off_eq(self.utcoffset(), o.utcoffset())):
            unsupported("comparison of datetimes with different offsets")
        return _all_eq(self._k(), o._k())

    def __ne__(self, o):
        return S.mknot(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of a datetime")


def _dt_now(tz=None):
    """The clock: some valid moment, the same for the whole path."""
    c = core.ctx()
    r = c.notes.get("now")
    if r is None:
        v = {}
        for n, lo, hi in (("year", 2000, 2099), ("month", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("minute", 0, 59),
                          ("second", 0, 59)):
            x = z3.Int(c.fresh_name("now_" + n))
            c.add(z3.And(x >= lo, x <= hi))
            v[n] = SymInt(x)
        r = c.notes["now"] = datetime(**v, tzinfo=tz)
    return r


def _strftime(x, f):
    out = ""
    i = 0
    while i < len(f):
        if f[i] != "%":
            out = out + f[i]
            i += 1
            continue
        d = f[i + 1]
        i += 2
        if d in "dmHMS":
            v = S.int_text(getattr(x, {"d": "day", "m": "month", "H": "hour", "M": "minute", "S": "second"}[d]), 2)
        elif d == "Y":
            v = S.int_text(x.year)
            if not isinstance(x.year, int):
                if not truth(x.year >= 1000):
                    unsupported("%Y of a small year")
        elif d == "w":
            v = S.int_text((x.weekday() + 1) % 7)
        elif d == "u":
            v = S.int_text(x.weekday() + 1)
        elif d == "%":
            v = "%"
        else:
            unsupported("strftime %" + d)
        out = out + v
    return out


datetime_ = Module("datetime", _dt, date=date, time=time, datetime=datetime, timedelta=timedelta, timezone=timezone,
                   tzinfo=tzinfo, UTC=timezone.utc)


# ============================================================================ ipaddress


class AddressValueError(ValueError):
    pass


class IPv4Address:
    _vc_ok = True

    def __init__(self, a):
        if not isinstance(a, (str, SymStr)):
            unsupported("IPv4Address from a number")
        if isinstance(a, str):
            str_ = str(_ip.IPv4Address(a))
            self.text = str_
            return
        octs = a.split(".")
        if isinstance(octs, S.SymSeq):
            v = octs.all()
            if v is None:
                unsupported("shape of an address")
            octs = v
        if len(octs) != 4:
            raise _ip.AddressValueError("Expected 4 octets")
        for o in octs:
            n = S.parse_int(o) if isinstance(o, SymStr) else int(o) if o.isdecimal() else -1
            if not truth(_and(n >= 0, n <= 255)):
                raise _ip.AddressValueError("Octet out of range")
            o2 = S.lift(o)
            if not truth(o2 == S.int_text(n)):
                raise _ip.AddressValueError("Leading zeros are not permitted")
        self.text = a

    def __str__(self):
        return self.text

    def __eq__(self, o):
        return self.text == o.text if isinstance(o, IPv4Address) else False

    def __ne__(self, o):
        return S.mknot(self.__eq__(o))

    def __hash__(self):
        unsupported("hash of an address")

    def __repr__(self):
        return f"IPv4Address({self.text!r})"


class IPv4Network:
    _vc_ok = True

    def __init__(self, a, strict=True):
        self.text, self.strict = a, strict

    def __eq__(self, o):
        return (truth(self.text == o.text) and self.strict == o.strict) if isinstance(o, IPv4Network) else False

    def __hash__(self):
        unsupported("hash of a network")


@ok
def ip_network(a, strict=True):
    return IPv4Network(a, strict)


@ok
def ip_address(a):
    return IPv4Address(a)


ipaddress = Module("ipaddress", _ip, IPv4Address=IPv4Address, IPv4Network=IPv4Network, ip_network=ip_network,
                   ip_address=ip_address)

SHIMS = {
    "asyncio": asyncio, "threading": threading, "logging": logging, "hashlib": hashlib, "hmac": hmac,
    "secrets": secrets, "datetime": datetime_, "ipaddress": ipaddress,
}
ASSUMED = {
    "asyncio": "single-threaded event loop: a task runs without interruption up to its next await; FIFO queue; a "
               "timeout on a wait that nothing ends raises TimeoutError",
    "threading": "Lock.locked/acquire/release",
    "logging": "logging has no effect on the program",
    "hashlib": "digests are deterministic functions of their input bytes",
    "hmac": "HMAC is a deterministic function of key, message and hash; compare_digest is equality",
    "secrets": "token_bytes(n) returns some n bytes",
    "datetime": "constructors accept exactly the documented field ranges and expose those fields; weekday() is a "
                "function of the date in 0..6; now() is some valid moment",
    "ipaddress": "IPv4Address accepts exactly four canonical decimal octets 0-255 and prints the same text",
}
