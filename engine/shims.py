"""Rebinding of the names through which docket's modules reach clocks, numbers and the event
loop, so that the unmodified functions run on symbolic values.  Installed for the duration of
one run and removed afterwards; found by identity, not by module or name.
"""
from __future__ import annotations

import asyncio as _aio
import builtins
import datetime as _dt
import json as _json
import logging
import os as _os
import random as _random
import re
import sys
import time as _time

import z3

from . import core
from .core import Unsupported
from .sym import (EPOCH, TOKEN, Sym, SymDatetime, SymTimedelta, _real, _round, dt_us, is_num, parse_num,
                  td_us, text, unwrap)

NOW_LO, NOW_HI = 1_600_000_000_000_000, 4_000_000_000_000_000


def now_us():
    return core.ctx().now_us()


def now_seconds():
    c = core.ctx()
    us = c.now_us()
    if type(us) is Sym:
        return Sym(z3.ToReal(us.e) / z3.RealVal(10**6))
    return us / 1e6


class _Meta(type):
    def __instancecheck__(cls, x): return isinstance(x, cls._real_)
    def __subclasscheck__(cls, k): return issubclass(k, cls._real_)
    def __eq__(cls, o): return o is cls._real_ or o is type.__call__ or type.__eq__(cls, o) is True
    def __hash__(cls): return hash(cls._real_)
    def __or__(cls, o): return cls._real_ | o
    def __ror__(cls, o): return o | cls._real_
    def __getattr__(cls, n): return getattr(cls._real_, n)


class Datetime(metaclass=_Meta):
    _real_ = _dt.datetime

    def __new__(cls, *a, **k): return _dt.datetime(*a, **k)

    @staticmethod
    def now(tz=None):
        us = now_us()
        if type(us) is Sym:
            if tz is None: raise Unsupported("a local time without a zone")
            return SymDatetime(us.e, tz)
        return (EPOCH + _dt.timedelta(microseconds=us)).astimezone(tz) if tz else \
            (EPOCH + _dt.timedelta(microseconds=us)).astimezone(None).replace(tzinfo=None)

    @staticmethod
    def utcnow(): raise Unsupported("datetime.utcnow")

    @staticmethod
    def fromtimestamp(x, tz=None):
        if type(x) is Sym:
            if tz is None: raise Unsupported("a local time without a zone")
            return SymDatetime(z3.simplify(_round(_real(x.e) * 10**6)), tz)
        return _dt.datetime.fromtimestamp(x, tz)

    @staticmethod
    def fromisoformat(s):
        if type(s) is str and (m := TOKEN.fullmatch(s)):
            if m.group(1) != "d": raise ValueError(f"Invalid isoformat string: {s!r}")
            return SymDatetime(core.ctx().tokens[s])
        return _dt.datetime.fromisoformat(s)


class Timedelta(metaclass=_Meta):
    _real_ = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        parts = [(days, 86400 * 10**6), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000),
                 (minutes, 60 * 10**6), (hours, 3600 * 10**6), (weeks, 7 * 86400 * 10**6)]
        if not any(type(v) is Sym for v, _ in parts):
            return _dt.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        tot, frac = z3.IntVal(0), None
        for v, m in parts:
            if type(v) is Sym and not v.e.is_int() or type(v) is float:
                frac = (frac if frac is not None else z3.RealVal(0)) + _real(unwrap(v)) * m
            else:
                tot = tot + unwrap(v) * m
        if frac is not None:
            tot = _round(z3.simplify(frac + z3.ToReal(tot)))
        return SymTimedelta(z3.simplify(tot))


class IntShim(metaclass=_Meta):
    _real_ = int

    def __new__(cls, x=0, *a, **k):
        if type(x) is Sym: return x.trunc()
        if isinstance(x, (str, bytes)) and not a and not k and "@@" in text(x):
            v = parse_num(x)
            if type(v) is Sym and v.e.is_int(): return v
            raise ValueError(f"invalid literal for int() with base 10: {x!r}")
        return int(x, *a, **k)

    @staticmethod
    def from_bytes(x, *a, **k):
        return x.number if type(x) is Bytes else int.from_bytes(x, *a, **k)


class Bytes(bytes):
    """bytes of which only the (symbolic) big-endian number they spell is known"""
    number = None


class FloatShim(metaclass=_Meta):
    _real_ = float

    def __new__(cls, x=0.0):
        if type(x) is Sym: return x.to_real()
        if isinstance(x, (str, bytes)) and "@@" in text(x):
            v = parse_num(x)
            if type(v) is Sym: return v.to_real()
            raise ValueError(f"could not convert string to float: {x!r}")
        return float(x)


class Proxy:
    def __init__(self, mod, **over):
        self.__dict__["_mod"] = mod
        self.__dict__.update(over)

    def __getattr__(self, n): return getattr(self._mod, n)


def _mono():
    return core.ctx().mono()


def _time_ns():
    h = core.ctx().hooks.get("time_ns")
    return h() if h else _time.time_ns()


def _urandom(n):
    h = core.ctx().hooks.get("urandom")
    return h(n) if h else _os.urandom(n)


time_proxy = Proxy(_time, time=now_seconds, monotonic=_mono, perf_counter=_mono, time_ns=_time_ns)


def _uniform(a, b):
    c = core.ctx()
    c.rnd_n = getattr(c, "rnd_n", -1) + 1
    if not c.symbolic:
        f = c.real(f"rnd{c.rnd_n}", 0, 1)
        return a + (b - a) * f
    v = c.real(f"rndv{c.rnd_n}")
    lo, hi = (a, b) if a <= b else (b, a)
    c.assume(v >= lo)
    c.assume(v <= hi)
    return v


os_proxy = Proxy(_os, urandom=_urandom)
random_proxy = Proxy(_random, uniform=_uniform, random=lambda: _uniform(0, 1))

# ---- json ----------------------------------------------------------------


def _default(o):
    if type(o) is Sym: return f"\x00{o}"
    raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def _dumps(o, *a, **k):
    s = _json.dumps(o, *a, default=_default, **k)
    return re.sub(r'"\\u0000(@@[ir]\d+@@|-?\d+)"', r"\1", s)


def _loads(s, *a, **k):
    s = text(s)
    s2 = re.sub(r'(?<=[:\[, ])(@@[ir]\d+@@)', r'{"__sym__": "\1"}', s)
    if s2 == s: return _json.loads(s, *a, **k)

    def hook(d):
        return parse_num(d["__sym__"]) if set(d) == {"__sym__"} else d
    return _json.loads(s2, object_hook=hook)


json_proxy = Proxy(_json, dumps=_dumps, loads=_loads)

# ---- asyncio -------------------------------------------------------------


class FakeTask:
    """What asyncio.create_task returns in a symbolic run: never runs by itself."""

    def __init__(self, coro, name=None):
        self.coro, self.name, self.cancelled_with = coro, name, []
        core.ctx().cleanup.append(coro)

    def cancel(self, msg=None):
        self.cancelled_with.append(msg)
        return True

    def done(self): return bool(self.cancelled_with)
    def cancelled(self): return bool(self.cancelled_with)
    def get_name(self): return self.name
    def add_done_callback(self, f): pass
    def remove_done_callback(self, f): pass
    def result(self): raise _aio.CancelledError()
    def exception(self): raise _aio.CancelledError()

    def __await__(self):
        if not self.cancelled_with:
            raise Unsupported("await of a background task")
        raise _aio.CancelledError(*[m for m in self.cancelled_with[-1:] if m is not None])
        yield


class EagerTask(FakeTask):
    """A task that ran to completion at once (no await of the code under test really suspends)."""

    def __init__(self, coro, name=None):
        import contextvars
        super().__init__(coro, name)
        self.value = self.error = None
        try:
            contextvars.copy_context().run(coro.send, None)
        except StopIteration as s:
            self.value = s.value
        except core.PathEnd:
            raise
        except Unsupported:
            raise
        except BaseException as e:
            self.error = e
        else:
            raise Unsupported("a task that suspends")

    def done(self): return True
    def cancel(self, msg=None): return False
    def cancelled(self): return isinstance(self.error, _aio.CancelledError)
    def exception(self): return self.error

    def result(self):
        if self.error is not None: raise self.error
        return self.value

    def __await__(self):
        return self.result()
        yield


class NoTaskGroup:
    """Stands in for the group of a worker's background loops, whose contracts are separate."""

    def __new__(cls):
        h = core.ctx().hooks.get("task_group")
        return h() if h else super().__new__(cls)

    async def __aenter__(self): return self
    async def __aexit__(self, *a): return None

    def create_task(self, coro, *, name=None, context=None):
        coro.close()
        return None


async def _wait_for(aw, timeout=None):
    c = core.ctx()
    h = c.hooks.get("wait_for")
    if h: return await h(aw, timeout)
    return await aw


async def _sleep(d=0, result=None):
    c = core.ctx()
    h = c.hooks.get("sleep")
    if h: await h(d)
    else: await c.env.step("sleep")
    return result


def _create_task(coro, *, name=None, context=None):
    c = core.ctx()
    h = c.hooks.get("create_task")
    return h(coro, name) if h else FakeTask(coro, name)


async def _gather(*aws, return_exceptions=False):
    h = core.ctx().hooks.get("gather")
    if h: return await h(*aws, return_exceptions=return_exceptions)
    out = []
    for a in aws:
        try:
            out.append(await a)
        except BaseException as e:
            if not return_exceptions: raise
            out.append(e)
    return out


class FakeEvent:
    def __init__(self): self.v = False
    def set(self): self.v = True
    def clear(self): self.v = False
    def is_set(self): return self.v

    async def wait(self):
        if not self.v:
            await core.ctx().env.idle("event")
        return True


def _unsup(n):
    def f(*a, **k): raise Unsupported(f"asyncio.{n}")
    return f


class Shielded:
    """what asyncio.shield returns here: the protected awaitable, still recognisable"""
    def __init__(self, inner): self.inner = inner
    def __await__(self): return self.inner.__await__()
    def close(self): pass


def _shield(x, **k): return Shielded(x)


async def _wait(aws, *, timeout=None, return_when=None):
    c = core.ctx()
    h = c.hooks.get("wait")
    if h is None: raise Unsupported("asyncio.wait")
    return await h(aws, timeout)


class Me:
    """the task running the code under test"""
    def cancelling(self): return core.ctx().cancelling
    def uncancel(self): return core.ctx().cancelling
    def get_name(self): return "me"
    def done(self): return False


asyncio_proxy = Proxy(_aio, TaskGroup=NoTaskGroup, wait_for=_wait_for, sleep=_sleep, create_task=_create_task, gather=_gather,
                      shield=_shield, Event=FakeEvent, wait=_wait,
                      current_task=lambda: Me(), get_running_loop=_unsup("get_running_loop"))

# In concrete runs a hook may stand in for one of these; otherwise they are the real ones.

async def _c_wait_for(aw, timeout=None):
    h = core.ctx().hooks.get("wait_for")
    return await (h(aw, timeout) if h else _aio.wait_for(aw, timeout))


async def _c_sleep(d=0, result=None):
    h = core.ctx().hooks.get("sleep")
    if h:
        await h(d)
        return result
    return await _aio.sleep(d, result)


async def _c_gather(*aws, **k):
    h = core.ctx().hooks.get("gather")
    return await (h(*aws, **k) if h else _aio.gather(*aws, **k))


def _c_create_task(coro, *, name=None, context=None):
    h = core.ctx().hooks.get("create_task")
    return h(coro, name) if h else _aio.create_task(coro, name=name)


def _c_shield(x, **k):
    return Shielded(x) if core.ctx().hooks.get("wait_for") else _aio.shield(x, **k)


async def _c_wait(aws, **k):
    h = core.ctx().hooks.get("wait")
    return await (h(aws, k.get("timeout")) if h else _aio.wait(aws, **k))


def _c_current_task(*a): return Me() if core.ctx().hooks.get("current_task") else _aio.current_task(*a)


asyncio_concrete = Proxy(_aio, TaskGroup=NoTaskGroup, wait_for=_c_wait_for, sleep=_c_sleep, create_task=_c_create_task, gather=_c_gather,
                         shield=_c_shield, wait=_c_wait, current_task=_c_current_task)

_SAVED: list = []


def _modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "docket" or n.startswith("docket.")) and m is not None and hasattr(m, "__dict__")]


def _table(c):
    tab = {id(_dt.datetime): Datetime, id(_time): time_proxy, id(_time.time): now_seconds,
           id(_time.monotonic): _mono, id(_random): random_proxy, id(_os): os_proxy, id(_os.urandom): _urandom, id(_time.time_ns): _time_ns, id(_random.uniform): _uniform,
           id(_aio): asyncio_concrete, id(_aio.wait_for): _c_wait_for, id(_aio.sleep): _c_sleep,
           id(_aio.create_task): _c_create_task, id(_aio.TaskGroup): NoTaskGroup, id(_aio.gather): _c_gather}
    if c.symbolic:
        tab.update({id(_dt.timedelta): Timedelta, id(_json): json_proxy, id(_aio): asyncio_proxy,
                    id(_json.dumps): _dumps, id(_json.loads): _loads, id(_aio.wait_for): _wait_for,
                    id(_aio.sleep): _sleep, id(_aio.create_task): _create_task, id(_aio.gather): _gather,
                    id(_aio.Event): FakeEvent, id(_aio.shield): _shield})
        from docket.dependencies import _base
        tab[id(_base.format_duration)] = lambda s: "0ms"
        fd = sys.modules["docket.dependencies"].__dict__.get("format_duration")
        if fd is not None: tab[id(fd)] = lambda s: "0ms"
    return tab


def enter(c):
    logging.disable(logging.CRITICAL)
    c.hooks = {}
    c.cleanup = []
    tab = _table(c)
    for m in _modules():
        d = m.__dict__
        for k, v in list(d.items()):
            r = tab.get(id(v))
            if r is not None and not k.startswith("__"):
                _SAVED.append((d, k, v))
                d[k] = r
        if c.symbolic:
            for k, r in (("int", IntShim), ("float", FloatShim)):
                if k not in d:
                    _SAVED.append((d, k, None))
                    d[k] = r


def leave():
    while _SAVED:
        d, k, v = _SAVED.pop()
        if v is None: d.pop(k, None)
        else: d[k] = v
    c = core.CURRENT
    for x in getattr(c, "cleanup", []):
        try: x.close()
        except Exception: pass


def suspend():
    """For the rest of this run, every name means what docket's modules bound it to."""
    for d, k, v in reversed(_SAVED):
        if v is None: d.pop(k, None)
        else: d[k] = v
    _SAVED.clear()


def rebind(real, stand_in):
    """For the rest of this run, let docket's modules reach stand_in where they name real."""
    for m in _modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if v is real:
                _SAVED.append((d, k, v))
                d[k] = stand_in
