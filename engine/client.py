"""The Redis client seen by docket in symbolic runs (Store-backed) and the wrapper put around
the real burner_redis client in concrete runs."""
from __future__ import annotations

import hashlib
import re
from contextlib import asynccontextmanager

import redis.exceptions as rx

from . import core, lua
from .core import Unsupported
from .store import Ok, RedisError, Store, num, t
from .sym import Sym, is_num, parse_num


def B(x):
    return x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x


def to_py(v):
    if v is Ok: return b"OK"
    if isinstance(v, str): return B(v)
    if isinstance(v, list): return [to_py(x) for x in v]
    return v


def enc(x):
    """redis-py's argument encoder"""
    if type(x) is bool or x is None or not (isinstance(x, (str, bytes, bytearray, memoryview)) or is_num(x)):
        raise rx.DataError(f"Invalid input of type: '{type(x).__name__}'. Convert to a bytes, string, int or float first.")
    if isinstance(x, str): x.encode("utf-8")        # lone surrogates are refused
    return t(x)


def lua_val(v):
    """Redis reply -> Lua value"""
    if v is None: return False
    if v is Ok:
        tb = lua.Table(); tb.hash["ok"] = "OK"
        return tb
    if isinstance(v, (list, tuple)):
        return lua.Table([lua_val(x) for x in v])
    return v


def from_lua(v):
    """Lua value -> Redis reply"""
    if v is None or v is False: return None
    if v is True: return 1
    if isinstance(v, str): return v
    if type(v) is float: return int(v)
    if type(v) is Sym: return v.trunc()
    if isinstance(v, lua.Table):
        if "ok" in v.hash: return Ok if v.hash["ok"] == "OK" else v.hash["ok"]
        if "err" in v.hash: raise RedisError(v.hash["err"])
        out = []
        for x in v.arr:
            if x is None: break
            out.append(from_lua(x))
        return out
    return v


class FakeLock:
    def __init__(self, cl, name, blocking, timeout=None):
        self.cl, self.name, self.blocking, self.timeout = cl, name, blocking, timeout

    async def __aenter__(self):
        self.cl.env.uses([t(self.name)])
        held = self.cl.env.locks.get(self.name)
        if held:
            raise rx.LockError("Unable to acquire lock within the time specified")
        self.cl.env.locks[self.name] = self.timeout or True
        await self.cl.env.step("lock")
        return self

    async def __aexit__(self, *a):
        self.cl.env.locks.pop(self.name, None)
        await self.cl.env.step("unlock")

    async def acquire(self, *a, **k):
        await self.__aenter__()
        return True

    async def release(self):
        await self.__aexit__()


def _pairs(mapping, items):
    out = []
    for k, v in (mapping or {}).items():
        out += [enc(k), enc(v)]
    for x in items or ():
        out.append(enc(x))
    return out


class Commands:
    """name -> (store -> python value); shared by the client and pipelines"""

    def get(self, s, name): return to_py(s.cmd("GET", enc(name)))
    def mget(self, s, keys, *more):
        keys = list(keys) if not isinstance(keys, (str, bytes)) else [keys]
        return to_py(s.cmd("MGET", *map(enc, [*keys, *more])))

    def set(self, s, name, value, ex=None, px=None, nx=False, xx=False, keepttl=False, get=False):
        o = []
        if ex is not None: o += ["PX", _ms(ex, 1000)]
        if px is not None: o += ["PX", _ms(px, 1)]
        if nx: o.append("NX")
        if xx: o.append("XX")
        if keepttl: o.append("KEEPTTL")
        r = s.cmd("SET", enc(name), enc(value), *o)
        return True if r is Ok else None

    def setex(self, s, name, time, value): return self.set(s, name, value, ex=time)
    def setnx(self, s, name, value): return bool(s.cmd("SETNX", enc(name), enc(value)))
    def incr(self, s, name, amount=1): return s.cmd("INCRBY", enc(name), amount)
    incrby = incr
    def delete(self, s, *names): return s.cmd("DEL", *map(enc, names))
    unlink = delete
    def exists(self, s, *names): return s.cmd("EXISTS", *map(enc, names))
    def expire(self, s, name, time, **k): return bool(s.cmd("PEXPIRE", enc(name), _ms(time, 1000)))
    def pexpire(self, s, name, time, **k): return bool(s.cmd("PEXPIRE", enc(name), _ms(time, 1)))
    def persist(self, s, name): return bool(s.cmd("PERSIST", enc(name)))
    def ttl(self, s, name): return s.cmd("TTL", enc(name))
    def pttl(self, s, name): return s.cmd("PTTL", enc(name))
    def type(self, s, name): return B(s.c_type(enc(name)))
    def keys(self, s, pattern="*"):
        import fnmatch
        return [B(k) for k in s.data if fnmatch.fnmatchcase(k, t(pattern))]
    def hget(self, s, name, key): return to_py(s.cmd("HGET", enc(name), enc(key)))
    def hmget(self, s, name, keys, *more):
        keys = list(keys) if not isinstance(keys, (str, bytes)) else [keys]
        return to_py(s.cmd("HMGET", enc(name), *map(enc, [*keys, *more])))
    def hgetall(self, s, name):
        f = s.cmd("HGETALL", enc(name))
        return {B(a): B(b) for a, b in zip(f[::2], f[1::2])}
    def hkeys(self, s, name): return to_py(s.cmd("HKEYS", enc(name)))
    def hvals(self, s, name): return to_py(s.cmd("HVALS", enc(name)))
    def hlen(self, s, name): return s.cmd("HLEN", enc(name))
    def hexists(self, s, name, key): return bool(s.cmd("HEXISTS", enc(name), enc(key)))
    def hset(self, s, name, key=None, value=None, mapping=None, items=None):
        a = ([enc(key), enc(value)] if key is not None else []) + _pairs(mapping, items)
        if not a:
            raise rx.DataError("'hset' with no key value pairs")
        return s.cmd("HSET", enc(name), *a)
    def hsetnx(self, s, name, key, value): return bool(s.cmd("HSETNX", enc(name), enc(key), enc(value)))
    def hdel(self, s, name, *keys): return s.cmd("HDEL", enc(name), *map(enc, keys))
    def hincrby(self, s, name, key, amount=1): return s.cmd("HINCRBY", enc(name), enc(key), amount)
    def sadd(self, s, name, *v): return s.cmd("SADD", enc(name), *map(enc, v))
    def srem(self, s, name, *v): return s.cmd("SREM", enc(name), *map(enc, v))
    def smembers(self, s, name): return {B(x) for x in s.cmd("SMEMBERS", enc(name))}
    def scard(self, s, name): return s.cmd("SCARD", enc(name))
    def sismember(self, s, name, v): return bool(s.cmd("SISMEMBER", enc(name), enc(v)))
    def zadd(self, s, name, mapping, nx=False, xx=False, gt=False, lt=False, ch=False):
        a = [o for o, f in (("NX", nx), ("XX", xx), ("GT", gt), ("LT", lt)) if f]
        for m, sc in mapping.items():
            enc(sc)
            a += [sc, enc(m)]
        return s.cmd("ZADD", enc(name), *a)
    def zrem(self, s, name, *v): return s.cmd("ZREM", enc(name), *map(enc, v))
    def zcard(self, s, name): return s.cmd("ZCARD", enc(name))
    def zscore(self, s, name, v):
        r = s.cmd("ZSCORE", enc(name), enc(v))
        return None if r is None else num(r)
    def zcount(self, s, name, lo, hi): return s.cmd("ZCOUNT", enc(name), lo, hi)
    def _scored(self, r, withscores, cast=float):
        if not withscores: return to_py(r)
        return [(B(m), num(sc)) for m, sc in zip(r[::2], r[1::2])]
    def zrange(self, s, name, start, end, desc=False, withscores=False, byscore=False, offset=None, num=None, **k):
        if k: raise Unsupported(f"zrange {k}")
        if byscore:
            o = ["LIMIT", offset, num] if offset is not None else []
            r = s.c_zrangebyscore(enc(name), *((end, start) if desc else (start, end)), *o,
                                  *(["WITHSCORES"] if withscores else []), rev=desc)
        else:
            r = s.cmd("ZRANGE", enc(name), start, end, *(["REV"] if desc else []),
                      *(["WITHSCORES"] if withscores else []))
        return self._scored(r, withscores)
    def zrevrange(self, s, name, start, end, withscores=False):
        return self.zrange(s, name, start, end, desc=True, withscores=withscores)
    def zrangebyscore(self, s, name, min, max, start=None, num=None, withscores=False, **k):
        o = ["LIMIT", start, num] if start is not None else []
        r = s.cmd("ZRANGEBYSCORE", enc(name), min, max, *o, *(["WITHSCORES"] if withscores else []))
        return self._scored(r, withscores)
    def zremrangebyscore(self, s, name, min, max): return s.cmd("ZREMRANGEBYSCORE", enc(name), min, max)
    def xadd(self, s, name, fields, id="*", maxlen=None, approximate=True, nomkstream=False, **k):
        if not fields: raise rx.DataError("XADD fields must be a non-empty dict")
        a = (["MAXLEN", maxlen] if maxlen is not None and not approximate else [])
        return to_py(s.cmd("XADD", enc(name), *a, enc(id), *_pairs(fields, None)))
    def xlen(self, s, name): return s.cmd("XLEN", enc(name))
    def xdel(self, s, name, *ids): return s.cmd("XDEL", enc(name), *map(enc, ids))
    def xack(self, s, name, groupname, *ids): return s.cmd("XACK", enc(name), enc(groupname), *map(enc, ids))
    def xtrim(self, s, name, maxlen=None, approximate=True, minid=None, limit=None):
        if maxlen is None or (approximate and maxlen != 0): raise Unsupported("xtrim")
        return s.cmd("XTRIM", enc(name), "MAXLEN", maxlen)
    def _ents(self, es): return [(B(i), {B(a): B(b) for a, b in zip(f[::2], f[1::2])}) for i, f in es]
    def xrange(self, s, name, min="-", max="+", count=None):
        return self._ents(s.cmd("XRANGE", enc(name), min, max, *(["COUNT", count] if count is not None else [])))
    def xrevrange(self, s, name, max="+", min="-", count=None):
        return self._ents(s._range(enc(name), min, max, True, count))
    def xread(self, s, streams, count=None, block=None):
        out = []
        for k, last in streams.items():
            es = s._range(enc(k), "(" + t(last), "+", False, count)
            if es: out.append([B(enc(k)), self._ents(es)])
        return out
    def xreadgroup(self, s, groupname, consumername, streams, count=None, block=None, noack=False):
        out = []
        for k, last in streams.items():
            if t(last) != ">": raise Unsupported("xreadgroup history")
            es = s.readgroup(enc(k), groupname, consumername, count)
            if es: out.append([B(enc(k)), self._ents(es)])
        return out
    def xautoclaim(self, s, name, groupname, consumername, min_idle_time, start_id="0-0", count=None, justid=False):
        a, es, dead = s.autoclaim(enc(name), groupname, consumername, min_idle_time, start_id, count)
        return [B(a), self._ents(es), [B(d) for d in dead]]
    def xclaim(self, s, name, groupname, consumername, min_idle_time, message_ids, idle=None, time=None,
               retrycount=None, force=False, justid=False):
        if force or time is not None: raise Unsupported("xclaim force/time")
        es = s.claim(enc(name), groupname, consumername, min_idle_time, message_ids, idle or 0)
        return [B(i) for i, _ in es] if justid else self._ents(es)
    def xpending_range(self, s, name, groupname, min, max, count, consumername=None, idle=None):
        return [{"message_id": B(i), "consumer": B(p["consumer"]), "time_since_delivered": p["idle"],
                 "times_delivered": p["count"]} for i, p in s.pending(enc(name), groupname, count)
                if (consumername is None or p["consumer"] == t(consumername))
                and (idle is None or p["idle"] >= idle)]
    def xgroup_create(self, s, name, groupname, id="$", mkstream=False, entries_read=None):
        s.cmd("XGROUP", "CREATE", enc(name), enc(groupname), enc(id), *(["MKSTREAM"] if mkstream else [])) if False else \
            s.c_xgroup("CREATE", enc(name), enc(groupname), enc(id), *(["MKSTREAM"] if mkstream else []))
        return True
    def xinfo_groups(self, s, name):
        return [{"name": B(g)} for g in s.data[t(name)].groups]
    def publish(self, s, channel, message): return s.c_publish(enc(channel), enc(message))


def _ms(x, unit):
    from .sym import SymTimedelta, td_us
    import datetime
    if type(x) is SymTimedelta or isinstance(x, datetime.timedelta):
        us = td_us(x)
        if isinstance(us, int):
            return us // 10**6 * 1000 if unit == 1000 else us // 1000
        import z3
        return Sym(z3.simplify((us / z3.IntVal(10**6)) * 1000 if unit == 1000 else us / z3.IntVal(1000)))
    if isinstance(x, float) and type(x) is not int:
        # redis rejects non-integer expirations
        raise rx.ResponseError("value is not an integer or out of range")
    return x * unit


COMMANDS = Commands()


class FakePipeline:
    def __init__(self, cl):
        self.cl, self.ops = cl, []

    async def __aenter__(self): return self
    async def __aexit__(self, *a): self.ops = []
    def __bool__(self): return True
    def __len__(self): return len(self.ops)

    def __getattr__(self, name):
        f = getattr(COMMANDS, name, None)
        if f is None or name.startswith("_"):
            raise Unsupported(f"pipeline.{name}")

        def add(*a, **k):
            self.ops.append((name, f, a, k))
            return self
        return add

    async def execute(self, raise_on_error=True):
        ops, self.ops = self.ops, []
        out = self.cl.atomic(lambda: [f(self.cl.store, *a, **k) for _, f, a, k in ops])
        await self.cl.env.step("pipeline:" + "+".join(n for n, *_ in ops))
        return out


class FakeClient:
    """Commands take effect atomically on the Store; every effect is followed by a step point."""

    def __init__(self, env, store: Store):
        self.env, self.store = env, store
        self.scripts: dict[str, str] = {}

    def atomic(self, f):
        data, n = self.store.data, len(self.store.published)
        data.touched = touched = set()
        try:
            return f()
        except RedisError as e:
            raise rx.ResponseError(str(e)) from None
        finally:
            data.touched = None
            self.env.uses(touched, [ch for ch, _ in self.store.published[n:]])

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        f = getattr(COMMANDS, name, None)
        if f is None:
            raise Unsupported(f"client.{name}")

        async def op(*a, **k):
            r = self.atomic(lambda: f(self.store, *a, **k))
            await self.env.step(name)
            if name == "xread" and not r and k.get("block") is not None: await self.env.idle("xread")
            return r
        return op

    async def script_load(self, script):
        script = script.decode() if isinstance(script, bytes) else script
        sha = hashlib.sha1(script.encode()).hexdigest()
        self.scripts[sha] = script
        return sha

    async def evalsha(self, sha, numkeys, *a):
        src = self.scripts.get(sha)
        if src is None:
            raise rx.NoScriptError("NOSCRIPT No matching script. Please use EVAL.")
        return await self._eval(src, numkeys, a)

    async def eval(self, script, numkeys, *a):
        return await self._eval(script, numkeys, a)

    async def _eval(self, src, n, a):
        a = [enc(x) for x in a]

        def run():
            rec = self.env.record

            def call(name, args):
                if rec is not None: rec.append((name, [t(x) for x in args]))
                return lua_val(self.store.cmd(name, *args))
            it = lua.Interp(call, None if rec is None else (lambda what, v: rec.append((what, v))))
            try:
                return to_py(from_lua(it.run(src, a[:n], a[n:])))
            except lua.LuaError as e:
                raise rx.ResponseError(str(e)) from None
        r = self.atomic(run)
        await self.env.step("script")
        return r

    def pipeline(self, transaction=True, shard_hint=None):
        if not transaction:
            raise Unsupported("non-transactional pipeline")
        return FakePipeline(self)

    def lock(self, name, timeout=None, sleep=0.1, blocking=True, blocking_timeout=None, **k):
        return FakeLock(self, name, blocking, timeout)

    def pubsub(self, **k):
        return FakePubSub(self.env)

    async def aclose(self): pass


def _glob(p: str):
    """a pattern of the server's as a regular expression"""
    out, i = "", 0
    while i < len(p):
        ch = p[i]
        i += 1
        if ch == "*": out += ".*"
        elif ch == "?": out += "."
        elif ch == "\\" and i < len(p):
            out += re.escape(p[i])
            i += 1
        elif ch == "[":
            neg = p[i:i + 1] == "^"
            i += neg
            cls = ""
            while i < len(p) and p[i] != "]":
                if p[i] == "\\" and i + 1 < len(p): i += 1
                if p[i + 1:i + 2] == "-" and i + 2 < len(p):
                    lo, hi = sorted((p[i], p[i + 2]))
                    cls += f"{re.escape(lo)}-{re.escape(hi)}"
                    i += 3
                else:
                    cls += re.escape(p[i])
                    i += 1
            i += 1
            out += f"[{'^' if neg else ''}{cls}]" if cls else ("." if neg else "(?!)")
        else: out += re.escape(ch)
    return re.compile(out, re.S)


def glob(pattern: str, text: str) -> bool: return _glob(pattern).fullmatch(text) is not None


def literal(pattern: str) -> str:
    """what everything that matches begins with"""
    out, i = "", 0
    while i < len(pattern) and pattern[i] not in "*?[":
        if pattern[i] == "\\" and i + 1 < len(pattern): i += 1
        out += pattern[i]
        i += 1
    return out


class FakePubSub:
    """Delivery log of one subscriber: everything published after the subscription took effect."""

    def __init__(self, env):
        self.env = env
        self.channels: dict[str, int] = {}
        self.patterns: dict[str, int] = {}
        self.pos = None
        self.queue: list[dict] = []

    async def __aenter__(self): return self
    async def __aexit__(self, *a): await self.aclose()

    async def subscribe(self, *channels):
        if self.pos is None: self.pos = len(self.env.store.published)
        self._pull()
        for ch in channels: self.channels[t(ch)] = 1
        self.env.uses((), self.channels)
        await self.env.step("subscribe")

    async def psubscribe(self, *patterns):
        if self.pos is None: self.pos = len(self.env.store.published)
        self._pull()
        for p in patterns: self.patterns[t(p)] = 1
        self.env.uses((), [literal(p) for p in self.patterns])
        await self.env.step("psubscribe")

    async def unsubscribe(self, *a): self.channels.clear()
    async def punsubscribe(self, *a): self.patterns.clear()
    async def aclose(self): self.channels.clear(); self.patterns.clear()

    def _pull(self):
        if self.pos is None: return
        pub = self.env.store.published
        for ch, payload in pub[self.pos:]:
            if ch in self.channels:
                self.queue.append({"type": "message", "pattern": None, "channel": B(ch), "data": B(payload)})
            for p in self.patterns:
                if glob(p, ch):
                    self.queue.append({"type": "pmessage", "pattern": B(p), "channel": B(ch), "data": B(payload)})
        self.pos = len(pub)

    async def get_message(self, ignore_subscribe_messages=False, timeout=0.0):
        self._pull()
        if self.queue: return self.queue.pop(0)
        await self.env.idle("get_message")
        self._pull()
        return self.queue.pop(0) if self.queue else None

    async def listen(self):
        while True:
            self._pull()
            while self.queue:
                yield self.queue.pop(0)
                self._pull()
            await self.env.idle("listen")


class HookClient:
    """Around the real burner_redis client: step points, the commands it lacks, lock stand-in."""

    def __init__(self, env, real):
        self._env, self._real = env, real

    def __getattr__(self, name):
        f = getattr(self._real, name)

        async def op(*a, **k):
            r = await f(*a, **k)
            await self._env.step("script" if name == "evalsha" else name)
            return r
        return op

    async def hmget(self, name, keys, *more):
        keys = list(keys) if not isinstance(keys, (str, bytes)) else [keys]
        r = [await self._real.hget(name, k) for k in [*keys, *more]]
        await self._env.step("hmget")
        return r

    async def xread(self, streams, count=None, block=None):
        r = await self._real.xread(streams, count=count)
        await self._env.step("xread")
        if not r and block is not None: await self._env.idle("xread")
        return r

    async def script_load(self, s): return await self._real.script_load(s)

    def pipeline(self, *a, **k):
        p = self._real.pipeline(*a, **k)
        real_exec = p.execute

        async def execute(*a, **k):
            r = await real_exec(*a, **k)
            await self._env.step("pipeline")
            return r
        try:
            p.execute = execute
        except AttributeError:
            return p
        return p

    def lock(self, name, timeout=None, *a, blocking=True, **k): return FakeLock(_LockHost(self._env), name, blocking, timeout)
    def pubsub(self, **k): return self._real.pubsub(**k)
    def scan_iter(self, *a, **k): return self._real.scan_iter(*a, **k)


class _LockHost:
    def __init__(self, env): self.env = env


@asynccontextmanager
async def yielding(x):
    yield x
