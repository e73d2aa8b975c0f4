"""One docket under test: the real Docket object on the symbolic store, or on burner_redis."""
from __future__ import annotations

import copy
import uuid
from contextlib import asynccontextmanager

from . import client as cl
from . import core, meters
from .core import Unsupported
from .store import Hash, SetV, Store, Str, Stream, ZSet, t
from .sym import Sym, SymBool, str_eq, unwrap

import z3

GROUP = "docket-workers"


# ---- connectives that do not branch ------------------------------------------------

def land(*xs):
    es = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = land(*x)
        if type(x) is SymBool: es.append(x.e)
        elif not x: return False
    return SymBool(z3.And(*es)) if es else True


def lnot(x): return SymBool(z3.Not(x.e)) if type(x) is SymBool else not x


def lor(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool: es.append(x.e)
        elif x: return True
    return SymBool(z3.Or(*es)) if es else False


def implies(a, b): return lor(lnot(a), b)


def ite(cond, a, b):
    if type(cond) is SymBool:
        from .sym import _coerce
        x, y = _coerce(unwrap(a), unwrap(b))
        return Sym(z3.If(cond.e, x, y))
    return a if cond else b


def dict_eq(a, b, skip=()):
    ka = {k for k in a if k not in skip}
    kb = {k for k in b if k not in skip}
    if ka != kb: return False
    return land(*[val_eq(a[k], b[k]) for k in ka])


def val_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return dict_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and land(*[val_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) and isinstance(b, str): return str_eq(a, b)
    if a is None or b is None: return a is b
    if type(a) is float and type(b) is float: return abs(a - b) < 1e-5
    return a == b


def slot_of(key):
    """the part of a key that a cluster goes by"""
    key = t(key)
    i = key.find("{")
    j = key.find("}", i + 1) if i >= 0 else -1
    return key[i + 1:j] if j > i + 1 else key


class StreamSnap:
    def __init__(self, entries, pel, groups):
        self.entries, self.pel, self.groups = entries, pel, groups   # [(id, fields)], {id: info}


class Snap:
    """Everything observable in the store at one instant."""

    def __init__(self):
        self.v: dict[str, object] = {}
        self.ttl: dict[str, object] = {}
        self.ttl_at: dict[str, int] = {}
        self.commands = None

    def expires_since(self, k, before) -> bool:
        """the time to live k has now, if any, was given to it after the moment ``before`` (a Snap)"""
        return self.ttl.get(k) is None or self.commands is None or self.ttl_at[k] > before.commands

    def hash(self, k):
        v = self.v.get(k)
        return v if isinstance(v, dict) else {}

    def zset(self, k):
        v = self.v.get(k)
        return v[1] if isinstance(v, tuple) and v[0] == "zset" else {}

    def stream(self, k):
        v = self.v.get(k)
        return v if isinstance(v, StreamSnap) else StreamSnap([], {}, set())

    def string(self, k):
        v = self.v.get(k)
        return v if isinstance(v, str) else None

    def members(self, k):
        v = self.v.get(k)
        return v[1] if isinstance(v, tuple) and v[0] == "set" else set()

    def __contains__(self, k): return k in self.v


class Env:
    def __init__(self, c):
        self.c = c
        c.env = self
        self.locks: dict[str, bool] = {}
        self.on_step: list = []
        self.on_idle = None
        self.in_step = False
        self.record = None      # a list: commands and loop iterations of the scripts run
        self.steps: list[str] = []
        self.seen: set = set()

    def uses(self, keys, channels=()):
        """one operation of the code under test looked at these keys, published or listened on these channels"""
        if self.scopes is None: return          # keys are no docket's here
        for what, names in (("keys", keys), ("channels", channels)):
            for x in names:
                if x in self.seen: continue
                self.seen.add(x)
                # a rule's scope is shared by whoever gives it that name
                mine = any(t(x).startswith(p + ":") for p in (self.prefix, *([self.name, *self.scopes] if what == "keys" else ())))
                self.c.prove(f"{self.c.harness}/only-its-own-{what}", mine, "C31", x)
        if len(keys) > 1:
            together = frozenset(map(slot_of, keys))
            if together not in self.seen:
                self.seen.add(together)
                self.c.prove(f"{self.c.harness}/in-one-slot", len(together) == 1, "C31", list(keys))

    @classmethod
    async def make(cls, c, name="d", strikes=True, scopes=(), **kw):
        from docket.docket import Docket
        from docket.strikelist import StrikeList
        self = cls(c)
        url = f"memory://{uuid.uuid4().hex}"
        self.scopes = scopes
        self.name, self.prefix = name, f"{{{name}}}"      # as in a cluster, to tell names from prefixes
        d = self.docket = Docket(name=name, url=url, **kw)
        if c.symbolic:
            self.store = Store()
            self.raw = cl.FakeClient(_Quiet(self), self.store)
            self.client = cl.FakeClient(self, self.store)
            self.client.scripts = self.raw.scripts
        else:
            await d._redis.__aenter__()
            self.raw = d._redis.memory_client
            self.client = cl.HookClient(self, self.raw)
            self.ps = self.raw.pubsub()
            await self.ps.psubscribe("*")
            # the server delivers a script's PUBLISH to exact subscribers only
            self.exact = {f"{self.prefix}:{kind}:{k}" for k in ("k", "o1", "o2", "o3", "k2", "k3", 'k"q\\', "__safeguard__:k")
                          for kind in ("state", "progress", "cancel")}
            await self.ps.subscribe(*self.exact)
            self.conn_exit = d._redis.__aexit__
            c.closers = [self._close]
        d._redis = _connection(self, d._redis)
        if strikes:
            d.strike_list = StrikeList()
        d.result_storage = Results(await self.results(d, quiet=False), self)
        await self.drain()
        return self

    async def results(self, d=None, quiet=True):
        """the docket's own result storage, as in memory: and on clusters"""
        from types import SimpleNamespace
        from docket._result_store import ResultStorage
        d = d or self.docket
        client = self.raw if quiet else self.client
        there = SimpleNamespace(is_cluster=False, is_memory=True, memory_client=client, cluster_client=None, is_connected=True)
        return await ResultStorage(there, d.results_collection).__aenter__()

    async def result(self, key):
        """(what is stored for a key, for how many seconds)"""
        return await (await self.results()).ttl(key)

    async def _close(self):
        await self.ps.aclose()

    async def step(self, what):
        """called after every atomic operation of the code under test"""
        self.steps.append(what)
        if self.in_step: return
        self.in_step = True
        try:
            for h in list(self.on_step):
                await h(what)
        finally:
            self.in_step = False

    async def idle(self, what):
        """the code under test would block here"""
        if self.on_idle is None:
            if self.c.symbolic:
                raise Unsupported(f"blocked on {what}")
            import asyncio
            await asyncio.sleep(0.001)
            return
        await self.on_idle(what)

    # ---- events ----------------------------------------------------------
    async def drain(self):
        """messages published since the last drain"""
        if self.c.symbolic:
            pos = getattr(self, "_pos", 0)
            out = self.store.published[pos:]
            self._pos = len(self.store.published)
            return out
        import asyncio
        out = []
        misses = 0
        while misses < 2:
            m = await self.ps.get_message(ignore_subscribe_messages=True, timeout=0.002)
            if m is None:
                misses += 1
                await asyncio.sleep(0)
                continue
            misses = 0
            if m["type"] == "pmessage" and t(m["channel"]) in self.exact: continue
            if m["type"] in ("pmessage", "message"):
                out.append((t(m["channel"]), t(m["data"])))
        return out

    # ---- snapshot ----------------------------------------------------------
    async def snap(self) -> Snap:
        s = Snap()
        if self.c.symbolic:
            for k, v in self.store.data.items():
                if isinstance(v, Hash): s.v[k] = dict(v)
                elif isinstance(v, ZSet): s.v[k] = ("zset", dict(v))
                elif isinstance(v, SetV): s.v[k] = ("set", set(v))
                elif isinstance(v, Str): s.v[k] = v.v
                else:
                    pel = {i: dict(p) for g in v.groups.values() for i, p in g.pel.items()}
                    s.v[k] = StreamSnap([(i, dict(zip(f[::2], f[1::2]))) for i, f in v.entries], pel, set(v.groups))
                s.ttl[k] = self.store.ttl.get(k)
            s.ttl_at, s.commands = dict(self.store.ttl_at), self.store.commands
            return s
        r = self.raw
        for kb in await r.keys("*"):
            k = t(kb)
            s.v[k] = await self._read(r, k)
            if s.v[k] is None:
                del s.v[k]
                continue
            ttl = await r.ttl(k)
            s.ttl[k] = None if ttl in (-1, -2) else ttl * 1000
        for k in s.v: self.uses([k])
        return s

    async def _read(self, r, k):
        import redis.exceptions as rx
        async def attempt(f):
            try:
                return await f()
            except Exception as e:
                if "WRONGTYPE" in str(e) or isinstance(e, rx.ResponseError) or type(e).__name__ == "ResponseError":
                    return NotImplemented
                raise
        h = await attempt(lambda: r.hgetall(k))
        if h is not NotImplemented and h:
            return {t(a): t(b) for a, b in h.items()}
        z = await attempt(lambda: r.zrange(k, 0, -1, withscores=True))
        if z is not NotImplemented and z:
            return ("zset", {t(m): float(x) for m, x in z})
        st = await attempt(lambda: r.get(k))
        if st is not NotImplemented and st is not None:
            return t(st)
        m = await attempt(lambda: r.smembers(k))
        if m is not NotImplemented and m:
            return ("set", {t(x) for x in m})
        e = await attempt(lambda: r.xrange(k, "-", "+"))
        if e is not NotImplemented and e is not None:
            pel, groups = {}, set()
            try:
                gs = await r.xinfo_groups(k)
            except Exception:
                gs = []
            for g in gs:
                gname = t(g["name"])
                groups.add(gname)
                for p in await r.xpending_range(k, gname, "-", "+", 1000):
                    p = {t(a): v for a, v in p.items()}
                    pel[t(p["message_id"])] = {"consumer": t(p["consumer"])}
            return StreamSnap([(t(i), {t(a): t(b) for a, b in f.items()}) for i, f in e], pel, groups)
        return None


class _Quiet:
    """an env for set-up and observation: no step points"""
    def __init__(self, env): self._e = env
    async def step(self, w): pass
    def uses(self, *a): pass
    async def idle(self, w): await self._e.idle(w)
    def __getattr__(self, n): return getattr(self._e, n)


def _connection(env, real):
    from docket._redis import RedisConnection

    class Connection(RedisConnection):
        def __init__(self):
            self.__dict__.update(real.__dict__)

        async def __aenter__(self): return self
        async def __aexit__(self, *a): pass

        def prefix(self, name): return f"{{{name}}}"

        @property
        def is_connected(self): return True

        @asynccontextmanager
        async def client(self):
            yield env.client

        if env.c.symbolic:
            @asynccontextmanager
            async def pubsub(self):
                ps = env.client.pubsub()
                try:
                    yield ps
                finally:
                    await ps.aclose()

            async def publish(self, channel, message):
                return await env.client.publish(channel, message)
        else:
            async def publish(self, channel, message):
                r = await RedisConnection.publish(self, channel, message)
                await env.step("publish")
                return r
    return Connection()


class Results:
    """the real result storage, remembering what it was asked"""

    def __init__(self, real, env):
        self._real, self._env, self.log = real, env, []

    async def put(self, key, value, **k):
        self.log.append(("put", key))
        await self._real.put(key, value, **k)

    def __getattr__(self, n): return getattr(self._real, n)


meters.install()
