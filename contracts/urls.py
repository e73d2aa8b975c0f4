"""Contracts of server URLs: where docket connects to, and as whom (C35)."""
from __future__ import annotations

import asyncio
from datetime import datetime, timezone
from urllib.parse import quote

from engine import core, shims
from .cli import as_it_is, run, VirtualLoop
from .registry import contract

import docket._redis
import docket._redis_sentinel

R_, N_ = "docket._redis:RedisConnection.", "docket._redis_sentinel:"

# as written, and as meant
USERS = [("", None, None), ("u:p@q@", "u", "p@q"), ("u:p@", "u", "p"), ("u+cluster:p+q@", "u+cluster", "p+q"), (":p@", None, "p"), ("u@", "u", None),
         (f"{quote('a@b:c/d?e#f%', safe='')}:{quote('p@s:s/w?o,r#d%20+', safe='')}@", "a@b:c/d?e#f%", "p@s:s/w?o,r#d%20+")]
OPTIONS = [("", {}), ("max_connections=7", {"max_connections": 7}), ("socket_timeout=2.5&health_check_interval=9", {"socket_timeout": 2.5, "health_check_interval": 9}),
           ("socket_keepalive=no&client_name=a%20b", {"socket_keepalive": False, "client_name": "a b"})]


def has(kwargs, name, value):
    """an option is as given, or absent where none was"""
    got = kwargs.get(name)
    return type(got) is type(value) and got == value


class Checks:
    def __init__(self, c, name): self.c, self.name = c, name
    def __call__(self, clause, cond, detail="", props="C35"): self.c.prove(f"{self.name}/{clause}", cond, props, detail)


def tls_of(pool): return "SSL" in pool.connection_class.__name__


@contract("url.standalone", "C35", [R_ + f for f in ("__init__", "__aenter__", "__aexit__", "client", "pubsub", "is_connected", "is_cluster", "is_sentinel", "is_memory")],
          weight=2, kind="unrolled", note="URLs made of parts from short lists")
async def standalone(c):
    """a single server"""
    as_it_is()
    p = Checks(c, "url.standalone")
    from docket._redis import RedisConnection
    tls = bool(c.choose(2, "tls"))
    user, username, password = c.pick(*USERS)
    host, port = c.pick(("example.org", None), ("example.org:7001", 7001), ("10.1.2.3:1", 1), ("[::1]:7002", 7002))
    path, db = c.pick(("", None), ("/", None), ("/0", 0), ("/5", 5))
    query, options = c.pick(*OPTIONS)
    url = f"redis{'s' if tls else ''}://{user}{host}{path}{'?' + query if query else ''}"
    out = {}

    async def main():
        conn = RedisConnection(url)
        out["kinds"] = (conn.is_cluster, conn.is_sentinel, conn.is_memory, conn.is_connected)
        async with conn:
            out["connected"] = conn.is_connected
            async with conn.client() as r: out["client"] = r.connection_pool
            async with conn.pubsub() as ps: out["pubsub"] = ps.connection_pool
        out["after"] = conn.is_connected
    run(main())
    pool = out["client"]
    k = pool.connection_kwargs
    p("one-pool-for-all", out["pubsub"] is pool, url)
    p("its-kind", out["kinds"] == (False, False, False, False) and out["connected"] and not out["after"], [url, out])
    p("where", k.get("host", "localhost") == host.rsplit(":", 1)[0].strip("[]") if port else k.get("host") == host, [url, k])
    p("port", k.get("port", 6379) == (port or 6379), [url, k])
    p("database", (k.get("db") or 0) == (db or 0), [url, k])
    p("as-whom", has(k, "username", username) and has(k, "password", password), [url, k])
    p("tls", tls_of(pool) == tls, [url, pool])
    p("options", all(has(k, n, v) or n == "max_connections" and pool.max_connections == v for n, v in options.items()), [url, k])
    p("long-reads-are-left-alone", k.get("socket_timeout", "default") == options.get("socket_timeout"), [url, k])
    p("answers-as-bytes", not k.get("decode_responses"), [url, k])


SERVICES = [("/svc", "svc", 0), ("/my-master.1/", "my-master.1", 0), ("/svc/0", "svc", 0), ("/svc/7", "svc", 7)]
HOSTS = [("s1", [("s1", 26379)]), ("s1:1", [("s1", 1)]), ("s1,s2:2,10.0.0.3:3", [("s1", 26379), ("s2", 2), ("10.0.0.3", 3)]), ("[::1]", [("::1", 26379)]),
         ("s1:1,[fe80::2]:2,s3", [("s1", 1), ("fe80::2", 2), ("s3", 26379)]), ("[::1]:5,[::2]", [("::1", 5), ("::2", 26379)])]
GUARDS = [("", {}), ("sentinel_password=q", {"password": "q"}), ("sentinel_username=g%40h&sentinel_password=p%2Fq", {"username": "g@h", "password": "p/q"})]


@contract("url.sentinel", "C35", [N_ + f for f in ("is_sentinel_url", "urlparse_multihost", "parse_sentinel_url", "sentinel_connection_pool", "OwnedSentinelConnectionPool.aclose")] +
          [R_ + f for f in ("__init__", "__aenter__", "__aexit__", "client", "pubsub")], weight=8, kind="unrolled", sweep_factor=0.2, note="URLs made of parts from short lists", max_paths=30000)
async def sentinel(c):
    """a master found through its sentinels"""
    as_it_is()
    p = Checks(c, "url.sentinel")
    from docket._redis import RedisConnection
    # two of the parts vary at a time
    axes = [(False, True), USERS, HOSTS, SERVICES, GUARDS, OPTIONS + [("db=9&username=nobody&password=nothing", {})]]
    one = c.choose(len(axes), "one part")
    two = c.choose(len(axes), "another")
    parts = [a[c.choose(len(a), "part")] if i in (one, two) else a[2 if i == 1 else 0] for i, a in enumerate(axes)]
    tls, (user, username, password), (hosts, sentinels), (path, service, db), (guard, guards), (query, options) = parts
    q = "&".join(x for x in (guard, query) if x)
    url = f"redis{'s' if tls else ''}+sentinel://{user}{hosts}{path}{'?' + q if q else ''}"
    out = {}
    closed = []

    async def main():
        conn = RedisConnection(url)
        out["kinds"] = (conn.is_cluster, conn.is_sentinel, conn.is_memory)
        out["prefix"] = conn.prefix("x")
        async with conn:
            async with conn.client() as r: out["client"] = r.connection_pool
            async with conn.pubsub() as ps: out["pubsub"] = ps.connection_pool
            out["sentinels"] = out["client"].sentinel_manager.sentinels
            for s in out["sentinels"]:
                async def aclose(*a, s=s, **k): closed.append(s)
                s.aclose = aclose
        out["after"] = conn.is_connected
    run(main())
    pool = out["client"]
    k = pool.connection_kwargs
    p("one-pool-for-all", out["pubsub"] is pool and not out["after"] and out["kinds"] == (False, True, False) and out["prefix"] == "x", [url, out])
    p("every-sentinel-once", [(s.connection_pool.connection_kwargs.get("host"), s.connection_pool.connection_kwargs.get("port")) for s in out["sentinels"]] == sentinels, [url, out["sentinels"]])
    p("which-service", pool.service_name == service and pool.is_master, [url, pool.service_name])
    p("database", (k.get("db") or 0) == db, [url, k])
    p("as-whom", has(k, "username", username) and has(k, "password", password), [url, k])
    p("as-whom-to-the-sentinels", all(has(s.connection_pool.connection_kwargs, n, guards.get(n)) for s in out["sentinels"] for n in ("username", "password")), [url, out["sentinels"]])
    p("tls", tls_of(pool) == tls and all(tls_of(s.connection_pool) == tls for s in out["sentinels"]), [url, pool])
    p("options", all(has(k, n, v) or n == "max_connections" and pool.max_connections == v for n, v in options.items()), [url, k])
    p("long-reads-are-left-alone", k.get("socket_timeout", "default") == options.get("socket_timeout"), [url, k])
    p("notices-a-dead-master", k.get("socket_keepalive") is options.get("socket_keepalive", True) and bool(k.get("socket_keepalive_options")), [url, k])
    p("answers-as-bytes", not k.get("decode_responses"), [url, k])
    p("closes-what-it-opened", len(closed) == len(sentinels), [url, closed])


@contract("url.refused", "C35", [N_ + "parse_sentinel_url", N_ + "urlparse_multihost"], weight=1, kind="unrolled", note="malformed URLs from a short list")
async def refused(c):
    """sentinel URLs that mean nothing"""
    as_it_is()
    p = Checks(c, "url.refused")
    from docket._redis import RedisConnection
    url = "redis+sentinel://" + c.pick("", "/svc", "u:p@/svc", "s1", "s1/", "s1:x/svc", "s1:99999/svc", ":1/svc", "s1,:1/svc", "s1/svc/x", "s1/svc?max_connections=x", ",/svc")

    async def main():
        async with RedisConnection(url): pass
    try: run(main())
    except ValueError as e: p("refused", True, [url, e])
    except Exception as e: p("refused", False, [url, repr(e)])
    else: p("refused", False, url)


@contract("url.cluster", "C35 C31", [R_ + f for f in ("__init__", "__aenter__", "__aexit__", "client", "pubsub", "publish", "_normalized_url", "_create_cluster_client", "_create_node_pool", "_cluster_pubsub", "prefix")],
          weight=3, kind="unrolled", note="URLs made of parts from short lists; the cluster itself is a stand-in")
async def cluster(c):
    """a cluster: commands through its client, announcements through one of its nodes"""
    as_it_is()
    p = Checks(c, "url.cluster")
    from redis.asyncio import Redis
    from redis.asyncio.cluster import RedisCluster
    from docket._redis import RedisConnection
    tls = bool(c.choose(2, "tls"))
    user, username, password = c.pick(*USERS)
    host = c.pick("example.org", "example.org:7001", "[::1]:7002")
    extra, more = c.pick(("", {}), ("?max_connections=7", {}), *([("?ssl_cert_reqs=none&ssl_ca_certs=%2Fca.pem", {"ssl_cert_reqs": "none", "ssl_ca_certs": "/ca.pem"})] if tls else []))
    rest = f"{user}{host}{c.pick('', '/0')}{extra}"
    url = f"redis{'s' if tls else ''}+cluster://{rest}"
    made, published, closed = [], [], []

    class Node:
        def __init__(self, host, port): self.host, self.port = host, port

    class Cluster:
        @classmethod
        def from_url(cls, url, **k):
            made.append((url, k))
            return cls()

        async def initialize(self): return self
        def get_primaries(self): return [Node("node-1", c.pick(7003, "7003")), Node("node-2", 7004)]
        async def aclose(self): closed.append(self)

    class Plain(Redis):
        async def publish(self, channel, message, **k):
            published.append((self.connection_pool, channel, message))
            return 3
    shims.rebind(RedisCluster, Cluster)
    shims.rebind(Redis, Plain)
    out = {}

    async def main():
        conn = RedisConnection(url)
        out["kinds"] = (conn.is_cluster, conn.is_sentinel, conn.is_memory)
        out["prefix"] = conn.prefix("x")
        async with conn:
            async with conn.client() as r: out["client"] = r
            out["open"] = not closed
            async with conn.pubsub() as ps: out["pubsub"] = ps.connection_pool
            out["said"] = await conn.publish("channel", "message")
        out["after"] = conn.is_connected
    run(main())
    p("commands-through-the-cluster", isinstance(out["client"], Cluster) and out["open"] and out["kinds"] == (True, False, False), [url, out])
    p("the-cluster-named", len(made) == 1 and made[0][0].split("://") == [f"redis{'s' if tls else ''}", rest], [url, made])
    p("long-reads-are-left-alone", made[0][1].get("socket_timeout", "default") is None, made)
    p("one-slot", out["prefix"] == "{x}", out["prefix"], "C35 C31")
    pool = out["pubsub"]
    k = pool.connection_kwargs
    p("announcements-at-one-of-its-nodes", (k.get("host"), k.get("port")) in (("node-1", 7003), ("node-2", 7004)) and type(k["port"]) is int, [url, k])
    p("as-whom", has(k, "username", username) and has(k, "password", password), [url, k])
    p("tls", tls_of(pool) == tls and all(has(k, n, v) for n, v in more.items()), [url, pool])
    p("long-subscriptions-are-left-alone", k.get("socket_timeout", "default") is None and not k.get("decode_responses"), [url, k])
    p("announces-where-it-listens", published == [(pool, "channel", "message")] and out["said"] == 3, published)
    p("closes-what-it-opened", len(closed) == 1 and not out["after"], closed)


@contract("url.memory", "C35", ["docket._redis:" + f for f in ("RedisConnection._get_or_create_memory_client", "clear_memory_servers", "get_memory_server", "_drop_closed_memory_servers")],
          weight=1, kind="unrolled", note="two connections, in one loop or in two")
async def memory(c):
    """servers in memory: shared by URL within one event loop, never beyond"""
    as_it_is()
    p = Checks(c, "url.memory")
    from docket import _redis
    from docket._redis import RedisConnection
    kept = dict(_redis._memory_servers)
    _redis._memory_servers.clear()
    closed = []

    class Server:
        async def aclose(self): closed.append(self)
        async def publish(self, channel, message): return (self, channel, message)
        def pubsub(self):
            class P:
                server = self
                async def aclose(self): pass
            return P()
    import types, sys
    real = sys.modules.get("burner_redis")
    sys.modules["burner_redis"] = types.SimpleNamespace(BurnerRedis=Server)
    try:
        a, b = c.pick(("memory://", "memory://"), ("memory://", "memory://other"), ("memory://x", "memory://x/"), ("memory://x/1", "memory://x/1"), ("memory://x/1", "memory://x/2"))
        out = {}

        async def use(url, name, held=False):
            conn = RedisConnection(url)
            async with conn:
                async with conn.client() as r: out[name] = r
                async with conn.pubsub() as ps: out[name + "-pubsub"] = ps.server
                out[name + "-said"] = await conn.publish("ch", "m")
            out[name + "-known"] = _redis.get_memory_server(url)

        async def both():
            await use(a, "a")
            await use(b, "b")
        loops = c.pick("one", "two", "cleared", "by turns")
        if loops == "one": run(both())
        elif loops == "by turns":
            # two loops, neither of them closed meanwhile
            first, second = VirtualLoop(), VirtualLoop()
            run(use(a, "a"), first, close=False)
            run(use(a, "other"), second, close=False)
            run(use(b, "b"), first, close=False)
            p("each-loop-its-own", out["other"] is not out["a"] and not closed, [a, b, out, closed])
            first.close()
            second.close()
        elif loops == "two":
            run(use(a, "a"))
            run(use(b, "b"))
        else:
            async def cleared():
                await use(a, "a")
                await _redis.clear_memory_servers()
                out["forgotten"] = _redis.get_memory_server(a) is None
                await use(b, "b")
            run(cleared())
            p("forgets-when-told", out["forgotten"] and closed == [out["a"]], out)
        p("same-url-same-server", (out["a"] is out["b"]) == (a == b and loops in ("one", "by turns")), [a, b, loops, out])
        p("one-server-for-all", all(out[n + "-pubsub"] is out[n] and out[n + "-said"] == (out[n], "ch", "m") and out[n + "-known"] is out[n] for n in "ab"), out)
        if loops == "two": p("gone-with-its-loop", closed == [out["a"]], [closed, out])
    finally:
        if real is None: sys.modules.pop("burner_redis", None)
        else: sys.modules["burner_redis"] = real
        _redis._memory_servers.clear()
        _redis._memory_servers.update(kept)


class Log:
    """a server in memory that only keeps streams"""
    def __init__(self): self.streams = {}

    async def xadd(self, key, fields, *a, **k):
        s = self.streams.setdefault(key, [])
        s.append((f"{len(s) + 1}-0".encode(), {x.encode() if isinstance(x, str) else x: y.encode() if isinstance(y, str) else y for x, y in fields.items()}))
        return s[-1][0]

    async def xread(self, streams, count=None, block=None):
        (key, since), = streams.items()
        since = since.decode() if isinstance(since, bytes) else since
        for _ in range(2):
            new = [x for x in self.streams.get(key, []) if int(x[0].split(b"-")[0]) > int(since.split("-")[0])][:count]
            if new: return [[key.encode(), new]]
            if block is None: return []
            await asyncio.sleep(block / 1000)
        return []

    async def aclose(self): pass
    async def publish(self, channel, message): return 0


@contract("docket.opens", "C16 C17 C31 C35", ["docket.docket:Docket.__aenter__", "docket.docket:Docket.__aexit__", "docket.docket:Docket.wait_for_strikes_loaded",
                                              "docket.strikelist:StrikeList.__aenter__", "docket.strikelist:StrikeList.__aexit__", "docket.strikelist:StrikeList._monitor_strikes",
                                              "docket._result_store:ResultStorage.__aenter__", "docket._result_store:ResultStorage.__aexit__"],
          weight=1, kind="unrolled", note="one server in memory, a stand-in; two dockets with the same name or different ones; opened, left, and opened once more")
async def opens(c):
    """a docket is opened, or cannot be, and left"""
    as_it_is()
    p = Checks(c, "docket.opens")
    from docket import _redis, Docket, Execution
    import sys, types
    kept = dict(_redis._memory_servers)
    _redis._memory_servers.clear()
    real = sys.modules.get("burner_redis")
    sys.modules["burner_redis"] = types.SimpleNamespace(BurnerRedis=Log)
    set_up = []

    class Storage:
        fails = False
        async def setup(self):
            set_up.append(1)
            if self.fails: raise OSError("no storage")

    class Plain: pass

    def a_call(d, name):
        async def f(): pass
        f.__name__ = name
        return Execution(d, f, (), {}, "k", datetime.now(timezone.utc), 1)
    name, other = c.pick(("a", "a"), ("a", "b"))
    given = c.pick(None, Storage(), Plain())
    fails = isinstance(given, Storage) and bool(c.choose(2, "the storage fails at first"))
    out = {"left": []}

    def others(): return [x for x in asyncio.all_tasks() if x is not asyncio.current_task() and x is not out["main"]]

    async def reads(d, which):
        async with d:
            await asyncio.wait_for(d.wait_for_strikes_loaded(), 30)
            out[which] = [f for f in ("f", "g", "h") if d.strike_list.is_stricken(a_call(d, f))]
            out[which + "-storage"] = d.result_storage
        await asyncio.sleep(0)
        out["left"].append([x.get_name() for x in others()] + (["connection"] if d._redis.is_connected else []))

    async def main():
        out["main"] = asyncio.current_task()
        url = "memory://here"
        async with Docket(name=other, url=url) as writer:
            await writer.strike("f")
            await writer.strike("g")
        d = Docket(name=name, url=url, **({"result_storage": given} if given is not None else {}))
        if fails:
            given.fails = True
            try: await reads(d, "never")
            except OSError: pass
            else: out["opened"] = True
            await asyncio.sleep(0)
            out["after"] = [x.get_name() for x in others()] + (["connection"] if d._redis.is_connected else [])
            given.fails = False
            set_up.clear()
        await reads(d, "first")
        async with Docket(name=other, url=url) as writer:
            await writer.restore("f")
            await writer.strike("h")
        await reads(d, "again")
    err = None
    try: run(main())
    except Exception as e: err = e
    finally:
        if real is None: sys.modules.pop("burner_redis", None)
        else: sys.modules["burner_redis"] = real
        _redis._memory_servers.clear()
        _redis._memory_servers.update(kept)
    p("opens", err is None, err, "C16 C35")
    if err is not None: return
    mine = name == other
    p("strikes-of-its-own-docket", out["first"] == (["f", "g"] if mine else []) and out["again"] == (["g", "h"] if mine else []), out, "C16 C31")
    if given is not None: p("results-where-told", out["first-storage"] is given and out["again-storage"] is given, out, "C17")
    if isinstance(given, Storage): p("results/set-up-each-time", len(set_up) == 2, set_up, "C17")
    p("left/nothing-stays-behind", out["left"] == [[], []], out["left"])
    if fails: p("not-opened/nothing-stays-behind", "opened" not in out and out["after"] == [], out)
