"""Contracts of the worker's loop: how many deliveries it asks for, how it keeps their leases
(C20), and how it hears of cancellations (C04).

The loop is run against a server that answers any way a server may: up to as many deliveries as it
was asked for, a lost connection, a cancellation of the worker itself; tasks finish at any point."""
from __future__ import annotations

import inspect
import types
from datetime import timedelta

from .world import *
from .transfer import HI, a_worker
from engine import core, meters, shims
from engine.client import glob
from engine.env import Env
from .registry import contract

W_ = "docket.worker:Worker."


@types.coroutine
def pause(what): return (yield what)


class Job(shims.FakeTask):
    """a task the worker started: in progress until it is finished, and its outcome handled"""
    def __init__(self, coro, name, message_id, redelivered):
        super().__init__(coro, name)
        self.mid, self.redelivered, self.finished, self.handled = message_id, redelivered, False, 0

    def done(self): return self.finished
    def cancelled(self): return False
    def result(self): return None
    def exception(self): return None

    def __await__(self):
        if not self.finished: raise core.Unsupported("awaits a task in progress")
        self.handled += 1
        from docket.dependencies import AdmissionBlocked
        raise AdmissionBlocked(self.coro_execution, reason="", handled=True)
        yield


class Background:
    """a background loop of the worker, run one stretch at a time: up to its next wait"""
    def __init__(self, h, coro, name, group):
        self.h, self.coro, self.name, self.group, self.role = h, coro, name, group, role(coro)
        self.over, self.waits, self.cancelled_with, self.waiting = False, [], [], None
        h.c.cleanup.append(coro)

    def alive(self): return not self.over and not self.cancelled_with and (self.group is None or self.group.open)

    def advance(self):
        """until it waits again"""
        if not self.alive(): return
        self.h.driving = self
        try:
            self.waiting = self.coro.send(None)
            if not isinstance(self.waiting, tuple): raise core.Unsupported("a background loop that waits for something else")
        except StopIteration: self.over = True
        finally: self.h.driving = None

    def cancel(self, msg=None):
        self.cancelled_with.append(msg)
        return True

    def done(self): return self.over or bool(self.cancelled_with)
    def cancelled(self): return bool(self.cancelled_with)
    def get_name(self): return self.name
    def add_done_callback(self, f): pass

    def __await__(self):
        import asyncio
        if self.cancelled_with: raise asyncio.CancelledError(*[m for m in self.cancelled_with[-1:] if m is not None])
        raise core.Unsupported("awaits a background loop")
        yield


class Harness:
    def __init__(self, c, env, worker):
        self.c, self.env, self.worker = c, env, worker
        self.driving, self.jobs, self.background, self.group = None, [], [], None

    def in_progress(self): return [j for j in self.jobs if not j.handled]
    def unfinished(self): return [j for j in self.jobs if not j.finished]

    def install(self):
        c, h = self.c, self
        import asyncio

        async def wait_for(aw, timeout=None):
            event = aw.cr_frame.f_locals.get("self") if inspect.iscoroutine(aw) and aw.cr_code.co_name == "wait" else None
            if event is None or not hasattr(event, "is_set"): return await aw
            aw.close()
            if h.driving is not None:
                if not event.is_set(): await pause(("wait", timeout))
            else:
                s = h.worker._processing_session
                if s is not None: s.cancellation_ready.set()
            if not event.is_set(): raise asyncio.TimeoutError
            return True

        async def sleep(d):
            if h.driving is not None: await pause(("sleep", d))
            else: await h.idles(d)

        def start(coro, name, group):
            if role(coro) == "execute":
                ex = next((v for v in coro.cr_frame.f_locals.values() if hasattr(v, "message_id")), None)
                if ex is None: raise core.Unsupported("what is being executed")
                j = Job(coro, name, t(ex.message_id), ex.redelivered)
                j.coro_execution = ex
                h.jobs.append(j)
                return j
            b_ = Background(h, coro, name, group)
            h.background.append(b_)
            return b_

        class Group:
            open = True
            async def __aenter__(self): return self
            async def __aexit__(self, *a):
                self.open = False
            def create_task(self, coro, *, name=None, context=None): return start(coro, name, self)

        async def gather(*aws, return_exceptions=False):
            if [a for a in aws if isinstance(a, Job)]: return await h.drains(aws)
            return [None for a in aws]
        c.hooks.update(wait_for=wait_for, sleep=sleep, gather=gather, task_group=Group,
                       create_task=lambda coro, name: start(coro, name, None))

    def renewal(self):
        found = [x for x in self.background if x.role == "leases"]
        if len(found) > 1: raise core.Unsupported("more than one background loop renews leases")
        return found[0] if found else None


class Server:
    """what the worker's own connection answers"""
    def __init__(self, real, **over): self._real, self._over = real, over

    def __getattr__(self, n):
        if n not in self._over: return getattr(self._real, n)
        from redis.asyncio import Redis

        def called(*a, **k):        # as keywords, however it is called
            given = inspect.signature(getattr(Redis, n)).bind(None, *a, **k).arguments
            return self._over[n](**{x: y for x, y in list(given.items())[1:] if x in k or y is not None})
        return called


@contract("worker.slots", "C20", [W_ + "_worker_loop", W_ + "_renew_leases"], weight=30, kind="unrolled",
          note="three polls of at most two deliveries each, three in all; concurrency, timeouts, the moments at which tasks finish arbitrary")
async def slots(c):
    """the worker polls, tasks finish whenever they like, and then the worker ends one way or another"""
    from redis.exceptions import ConnectionError
    import asyncio
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "worker.slots")
    await w.group()
    concurrency, timeout = c.int("concurrency", 1, 10**6 if c.symbolic else 3), c.int("timeout", 10**4, 10**11)
    worker = await a_worker(env, concurrency=concurrency, redelivery_timeout=delta(timeout), minimum_check_interval=timedelta(milliseconds=7))
    end = c.pick("stopped", "cancelled", "disconnected", "finished")
    h = Harness(c, env, worker)
    h.install()
    polls, given, renewed, claims = [0], [], [], []
    forever = end != "finished"
    most = 3 if end == "stopped" else 2

    def finish_some():
        for j in h.unfinished():
            if polls[0] > 2 + (end == "stopped") or c.choose(2, "finished by now"): j.finished = True

    async def idles(d):
        # all slots taken
        for j in h.unfinished(): j.finished = True
    h.idles = idles

    def stop():
        if end == "cancelled": raise asyncio.CancelledError
        worker._worker_stopping.set()

    def answer(what, k):
        polls[0] += what == "new"
        count = k.get("count")
        w.p(f"{what}/asks-for-no-more-than-it-has-slots", count is not None and land(1 <= count, count + len(h.in_progress()) <= concurrency), "C20", [count, len(h.in_progress())])
        w.p(f"{what}/for-itself", land(k.get("groupname") == env.docket.worker_group_name, k.get("consumername") == worker.name), "C20 C07", k)
        if polls[0] >= 3 and end != "finished":
            if end == "disconnected": raise ConnectionError("gone")
            stop()
        n = 0
        if polls[0] < 3:
            n = c.choose(min(2, most - len(given)) + 1, "deliveries")
            c.assume(n <= count)
        out = []
        for _ in range(n):
            g = len(given) + 1
            mid, m = f"{g}-0", Task(f"k{g}", 10**15, function="job", kwargs={}).message(1)
            given.append((mid, what))
            out.append((mid.encode(), b({**m})))
        finish_some()
        return out

    async def xautoclaim(**k):
        w.p("takes-over/only-what-lapsed", land(k["min_idle_time"] * 1000 + 1000 > timeout), "C20", [k, timeout])
        w.p("takes-over/of-the-stream", land(k["name"] == env.docket.stream_key, t(k["start_id"]) == "0-0"), "C20 C07", k)
        return [b"0-0", answer("redelivered", k), []]

    async def xreadgroup(**k):
        w.p("reads/of-the-stream", k["streams"] == {env.docket.stream_key: ">"} and not k.get("noack"), "C20 C07", k)
        out = answer("new", k)
        return [[env.docket.stream_key.encode(), out]] if out else []

    async def xclaim(**k):
        claims.append(k)
        if broken: raise ConnectionError("gone")
        return []
    broken = []

    def kept(when):
        """the leases of what is in progress are renewed, whatever the worker is at"""
        live = [j.mid for j in h.unfinished()]
        r = h.renewal()
        w.p(f"{when}/leases-are-kept", not live or r is not None and r.alive(), "C20", [live, r and (r.over, r.cancelled_with)])
        if r is None or not r.alive(): return
        if r.waiting is None: r.advance()
        for fails in (0, 1, 0):
            # the wait before, and what follows it
            w.p(f"{when}/often-enough", 2 * r.waiting[1] * 10**6 < timeout if c.symbolic else 2 * r.waiting[1] * 1e6 < timeout, "C20", r.waiting)
            claims.clear()
            broken[:] = [1] * fails
            r.advance()
            broken.clear()
            ids = {t(i) for k in claims for i in k["message_ids"]}
            w.p(f"{when}/each-lease-renewed", set(live) <= ids, "C20", [live, claims])
            w.p(f"{when}/no-other-lease", ids <= {m for m, _ in given}, "C20 C07", claims)
            w.p(f"{when}/afresh", all(k.get("min_idle_time") == 0 and not k.get("idle") and k.get("time") is None and k["name"] == env.docket.stream_key
                                      and k["groupname"] == env.docket.worker_group_name and k["consumername"] == worker.name for k in claims), "C20", claims)
            w.p(f"{when}/goes-on", not live or r.alive(), "C20", [fails])
            if not r.alive(): return

    async def drains(aws):
        if h.unfinished(): kept("while-finishing")
        w.p("waits-for-all-of-them", set(h.in_progress()) == set(aws), "C20 C07", "")
        for j in h.unfinished(): j.finished = True
        return [None] * len(aws)
    h.drains = drains
    err = None
    async with env.docket.redis() as r:
        s = Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup, xclaim=xclaim)
        real_answer = answer

        def answer(what, k):
            if len(h.unfinished()) and polls[0] == 1 and what == "new" and most == 3: kept("meanwhile")
            return real_answer(what, k)
        try:
            await worker._worker_loop(s, forever=forever)
        except ConnectionError as e:
            err = e
    w.p("ends-as-it-should", (err is not None) == (end == "disconnected"), "C20 C30", [err, end])
    w.p("each-delivery-started-once", [(j.mid, "redelivered" if j.redelivered else "new") for j in h.jobs] == given, "C07 C20 C01", [h.jobs, given])
    w.p("each-outcome-handled-once", all(j.handled == 1 for j in h.jobs), "C07 C20", [j.handled for j in h.jobs])
    w.p("none-left-running", all(not x.alive() for x in h.background), "C20", [x.name for x in h.background if x.alive()])
    if end == "finished": w.p("finished/nothing-left", not await env.raw.xlen(w.stream), "C20", "")
    c.hooks.clear()
    await worker.__aexit__(None, None, None)


@contract("worker.leases", "C01 C07 C20", [W_ + "_renew_leases", W_ + "_worker_loop"], weight=3)
async def leases(c):
    """what the renewal of leases does: the lease of everything in progress is fresh, nothing else is touched"""
    import asyncio
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "worker.leases")
    await w.group()
    timeout = c.int("timeout", 10**4, 10**11)
    worker = await a_worker(env, concurrency=5, redelivery_timeout=delta(timeout), minimum_check_interval=timedelta(milliseconds=7))
    h = Harness(c, env, worker)
    h.install()
    theirs = await w.deliver(Task("o1", 10**15, function="job").message(1), "w-old")
    n = c.choose(4, "in progress")
    mids = [await w.deliver(Task(f"k{i}", 10**15, function="job", kwargs={}).message(1), "w-me") for i in range(n)]
    lost = c.choose(2, "one was taken over meanwhile") if n else 0
    acked = c.choose(2, "one is done with meanwhile") if n else 0
    polls = [0]

    async def xautoclaim(**k): return [b"0-0", [], []]

    async def xreadgroup(**k):
        polls[0] += 1
        if polls[0] == 1 and n:
            s = await env.raw.xrange(w.stream)
            return [[w.stream.encode(), [(i, f) for i, f in s if t(i) in mids]]]
        if acked:
            h.jobs[0].finished = True
            await env.raw.xack(w.stream, GROUP, mids[0])
            await env.raw.xdel(w.stream, mids[0])
        if lost: await env.raw.xclaim(name=w.stream, groupname=GROUP, consumername="w-other", min_idle_time=0, message_ids=[mids[-1]])
        if c.symbolic:
            for i, (k_, p) in enumerate(env.store.pending(w.stream, GROUP)): p["idle"] = c.int(f"idle{i}", 0, 10**12)
        pre = await env.snap()
        r = h.renewal()
        if r is None: raise core.Unsupported("what renews the leases")
        if r.waiting is None: r.advance()
        r.advance()
        post = await env.snap()
        w.p("goes-on", r.alive() and 2 * r.waiting[1] * 10**6 < timeout, "C20", r.waiting)
        # one that another worker took over after its lease lapsed may be claimed back or not
        kept = [m for m in mids[acked:] if not (lost and m == mids[-1])]
        for m in kept:
            p = post.stream(w.stream).pel.get(m)
            w.p("fresh", p is not None and p["consumer"] == "w-me" and (not c.symbolic or p["idle"] == 0), "C20 C07", p)
        p0, p1 = pre.stream(w.stream).pel, post.stream(w.stream).pel
        w.p("nothing-else", set(p1) == set(p0) and land(*[val_eq(p0[m], p1[m]) for m in p0 if m not in mids[acked:]]), "C20 C07", [p0, p1])
        w.p("nothing-but-leases", val_eq([list(e) for e in pre.stream(w.stream).entries], [list(e) for e in post.stream(w.stream).entries]) and
            land(*[snap_eq(pre.v.get(k), post.v.get(k)) for k in set(pre.v) | set(post.v) if k != w.stream]), "C20 C01", "")
        for j in h.unfinished(): j.finished = True
        worker._worker_stopping.set()
        return []

    async def drains(aws): return [None] * len(aws)
    h.drains = h.idles = drains
    async with env.docket.redis() as r:
        await worker._worker_loop(Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup), forever=True)
    w.p("others-left-alone", theirs in (await env.snap()).stream(w.stream).pel, "C20 C07", theirs)
    c.hooks.clear()
    await worker.__aexit__(None, None, None)


class Listening:
    """a subscription of the worker's: the messages come when the harness says so"""
    def __init__(self, h): self.h, self.patterns, self.open = h, [], True
    async def __aenter__(self): return self
    async def __aexit__(self, *a): self.open = False
    async def aclose(self): self.open = False

    async def psubscribe(self, *patterns):
        self.h.hears("psubscribe")
        self.patterns += [t(p) for p in patterns]

    async def punsubscribe(self, *a): pass

    async def get_message(self, ignore_subscribe_messages=False, timeout=0.0):
        got = await pause(("message", timeout))
        if isinstance(got, BaseException): raise got
        return got

    async def listen(self):
        while True:
            m = await self.get_message()
            if m is not None: yield m


def hears_cancellations(w, patterns, keys):
    """subscribed to the cancellations of this docket's tasks, and to nothing else"""
    def heard(ch): return any(glob(p, ch) for p in patterns)
    return all(heard(f"{w.d.prefix}:cancel:{k}") for k in keys) and not any(map(heard, (
        f"{w.d.prefix}:state:k", f"{w.d.prefix}:progress:k", "other:cancel:k", "{other}:cancel:k", "{a}:cancel:k", "{ab}:cancel:k", "{a[b]*x}:cancel:k", "{cx}:cancel:k")))


@contract("worker.hears", "C04 C03 C36", [W_ + "_cancellation_listener", W_ + "_handle_cancellation", W_ + "_worker_loop"], weight=5)
async def hears(c):
    """a cancellation is announced while the worker has tasks in progress"""
    from redis.exceptions import ConnectionError
    which = c.pick("one", "older first", "newer first", "older finished", "newer finished")
    mine = c.pick("k", 'k"q\\', "a:b", "é") if which == "one" else "k"
    env = await Env.make(c, name=c.pick("d", "a[b]*", "*", "c\\?") if which == "one" and mine == "k" else "d")
    env.docket.register(job)
    w = W(env, "worker.hears")
    await w.group()
    worker = await a_worker(env, concurrency=5, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7))
    h = Harness(c, env, worker)
    h.install()
    subs, refused, disrupted, since = [], [], [], len(meters.heard(c))

    def pubsub():
        subs.append(Listening(h))
        return subs[-1]

    def subscribes(what):
        if refused: raise refused.pop()
    h.hears = subscribes
    env.docket._redis.pubsub = pubsub
    g = c.int("g", 1, 10**9)
    later = c.int("later", 1, 10**6)
    gens = {"one": [g], "older first": [g, g + later], "newer first": [g + later, g], "older finished": [g, g + later], "newer finished": [g, g + later]}[which]
    deliveries = [(f"{i + 1}-0", Task(mine, 10**15, function="job", kwargs={}).message(x)) for i, x in enumerate(gens)]
    deliveries.append(("9-0", Task("o1", 10**15, function="job", kwargs={}).message(1)))
    about = c.pick("k", "unknown")
    latest = gens[-1] if which != "newer first" else gens[0]
    record = c.pick("cancelled", "gone", "running", "scheduled", "completed", "newer")
    polls = [0]

    def subscribed(): return hears_cancellations(w, subs[-1].patterns, ("k", mine, "o1"))

    def listener():
        found = [x for x in h.background if x.role == "listener"]
        if len(found) != 1: raise core.Unsupported("the one background loop that hears of cancellations")
        return found[0]

    def tell(x, what):
        """what it was waiting for happens"""
        h.driving = x
        try: x.waiting = x.coro.send(what)
        except StopIteration: x.over = True
        finally: h.driving = None

    async def xautoclaim(**k): return [b"0-0", [], []]

    async def xreadgroup(**k):
        polls[0] += 1
        if polls[0] == 1: return [[w.stream.encode(), [(i.encode(), b(m)) for i, m in deliveries]]]
        if polls[0] == 2 and which.endswith("finished"):
            h.jobs[0 if which == "older finished" else 1].finished = True
            return []
        await signal()
        for j in h.unfinished(): j.finished = True
        worker._worker_stopping.set()
        return []

    async def signal():
        rec = {"running": ["running", latest], "cancelled": ["cancelled", latest], "scheduled": ["scheduled", latest], "completed": ["completed", latest],
               "newer": ["scheduled", latest + 1]}.get(record)
        if rec: await env.raw.hset(w.runs(mine), mapping={"state": rec[0], "generation": str(rec[1])})
        x = listener()
        if x.waiting is None: x.advance()
        # it may lose its connection, or stumble, and then goes on
        for _ in range(c.choose(3 if which == "one" and mine == "k" else 1, "disruptions")):
            what = c.pick("gone", "odd", "gone and not back yet")
            disrupted.append({"gone": 1, "odd": 0}.get(what, 2))
            w.p("listens/subscribed", subscribed(), "C04", subs[-1].patterns)
            if what == "gone and not back yet": refused.append(ConnectionError("still gone"))
            tell(x, ValueError("odd") if what == "odd" else ConnectionError("gone"))
            w.p("listens/not-stopped-by-a-disruption", not x.over and isinstance(x.waiting, tuple) and x.waiting[0] != "message" and x.waiting[1] <= 5, "C04", x.waiting)
            tell(x, None)
            if what == "gone and not back yet":
                w.p("listens/not-stopped-by-a-disruption", not x.over and isinstance(x.waiting, tuple) and x.waiting[0] != "message", "C04", x.waiting)
                tell(x, None)
        if x.over or not isinstance(x.waiting, tuple) or x.waiting[0] != "message":
            w.p("listens/hears-again", False, "C04", x.waiting)
            return
        w.p("listens/hears-again", subscribed() and subs[-1].open, "C04", subs[-1].patterns)
        if c.choose(2, "nothing for a while"): tell(x, None)
        key = mine if about == "k" else "nobody"
        data = key if c.choose(2, "decoded") else key.encode()
        tell(x, {"type": "pmessage", "pattern": subs[-1].patterns[0].encode(), "channel": f"{w.d.prefix}:cancel:{key}".encode(), "data": data})
        got = [(j, len(j.cancelled_with)) for j in h.jobs]
        w.p("nothing-else-stopped", all(n == 0 for j, n in got if j.coro_execution.key != mine or about != "k"), "C04", got)
        w.p("stopped-once-at-most", all(n <= 1 for _, n in got), "C04", got)
        runs = [(j, n) for j, n in got if j.coro_execution.key == mine and not j.finished]
        if about == "k":
            if which != "newer finished" and record in ("cancelled", "gone"):
                w.p("asked-to-stop", land(*[n == 1 for j, n in runs if val_eq(j.coro_execution.generation, latest) is not False and bool(j.coro_execution.generation == latest)]),
                    "C04", got)
            if record == "running" and which != "newer finished":
                w.p("not-meant-for-this-one", all(n == 0 for _, n in runs), "C04 C03", got)
            if which == "newer finished" and record in ("cancelled", "gone"):
                w.p("asked-to-stop/finished-one-left-alone", all(n == 0 for j, n in got if j.finished and j.coro_execution.key == mine), "C04", got)
        w.p("still-listens", not x.over and x.waiting[0] == "message", "C04", x.waiting)

    async def drains(aws):
        for j in h.unfinished(): j.finished = True
        return [None] * len(aws)
    h.drains, h.idles = drains, drains
    async with env.docket.redis() as r:
        await worker._worker_loop(Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup), forever=True)
    n = meters.total(meters.heard(c)[since:], "docket_redis_disruptions")
    w.p("metrics/disruptions", n == sum(disrupted), "C36", [n, disrupted])
    c.hooks.clear()
    await worker.__aexit__(None, None, None)


@contract("worker.reseeds", "C09 C01", [W_ + f for f in ("_worker_loop", "_reseed_automatic_perpetual_tasks_loop", "_schedule_all_automatic_perpetual_tasks",
          "_automatic_perpetual_is_live")] + ["docket.docket:Docket.add"], weight=4)
async def reseeds(c):
    """a worker comes up, and later the chain of an automatic task is lost: any phase before, any after"""
    from docket import Perpetual
    env = await Env.make(c)

    async def k(p=Perpetual(every=timedelta(seconds=30), automatic=True)): pass

    async def k2(a=1, p=Perpetual(automatic=True)): pass       # which is live all the time
    for f in c.pick((k, k2), (k2, k)): env.docket.register(f)
    forever = c.choose(2, "for good")
    w = W(env, "worker.reseeds")
    before, after = c.pick("ABSENT", "SCHED", "RUNNING", "COMPLETED"), c.pick(*[p for p in PHASES if p != "WAITING"])
    healthy = {}

    async def put(phase, G):
        await env.raw.delete(w.runs("k"), w.k("k"))
        await env.raw.zrem(w.queue, "k")
        for i, f in await env.raw.xrange(w.stream):
            if t(f[b"key"]) == "k":
                await env.raw.xack(w.stream, GROUP, i)
                await env.raw.xdel(w.stream, i)
        await w.put("k", phase, Task("k", c.int(f"when{G}", 10**6, HI), 1, args=(), kwargs={}, function="k"), G)
    await w.group()
    await put(before, 3)
    await w.put("k2", "SCHED", Task("k2", c.int("k2_when", 10**6, HI), args=(), kwargs={}, function="k2"), 1)
    worker = await a_worker(env, concurrency=5, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7))
    worker.schedule_automatic_tasks = True
    h = Harness(c, env, worker)
    h.install()

    async def xautoclaim(**k_): return [b"0-0", [], []]

    async def boom(what): raise ConnectionError("gone")

    async def one_there(pre, post, phase, name):
        w.p(f"{name}/exactly-one", w.counted([x[0] for x in w.live(post, "k")], 1) if phase != "RUNNING" else True, "C09 C01", w.copies(post, "k"))
        if phase in UNFINISHED: w.unchanged(pre, post, f"{name}/live-one-left-alone", "C09", keys={w.runs("k"), w.k("k"), w.stream, w.queue})
        w.unchanged(pre, post, f"{name}/others-left-alone", "C09", keys={w.runs("k2"), w.k("k2")})

    async def xreadgroup(**k_):
        await one_there(first, await env.snap(), before, "at-the-start")
        found = [x for x in h.background if x.role == "reseed"]
        w.p("keeps-watching", len(found) == 1 and found[0].alive(), "C09", found)
        if len(found) != 1: return stop()
        x = found[0]
        x.advance()
        await put(after, 7)
        pre = await env.snap()
        fails = c.choose(2, "the server cannot be reached at first")
        for n in range(fails + 1):
            w.p("looks-again-soon", isinstance(x.waiting, tuple) and x.waiting[1] is not None and x.waiting[1] <= 60, "C09", x.waiting)
            if fails and not n: env.on_step.append(boom)
            x.advance()
            env.on_step.clear()
            w.p("keeps-watching", x.alive(), "C09", x.over)
            # what it holds of the lock it would lose before it looks again
            for name, lapses in list(env.locks.items()):
                if lapses is not True and isinstance(x.waiting, tuple) and lapses <= x.waiting[1]: del env.locks[name]
            if not x.alive(): return stop()
        await one_there(pre, await env.snap(), after, "found-again")
        return stop()

    def stop():
        worker._worker_stopping.set()
        return []

    async def drains(aws): return [None] * len(aws)
    h.drains = h.idles = drains
    first = await env.snap()
    async with env.docket.redis() as r:
        await worker._worker_loop(Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup), forever=bool(forever))
    w.p("none-left-running", all(not x.alive() for x in h.background), "C20", [x.name for x in h.background if x.alive()])
    c.hooks.clear()
    await worker.__aexit__(None, None, None)


class Crowd:
    """tasks in progress as an arbitrary number of them: one job stands for `size` many.  The worker
    may count them with len(), whatever it keeps them in, and see whether there are any; code that
    counts otherwise is out of reach."""
    def __init__(self, c):
        import docket.worker
        self.c, self.module, self.size, self.job, self.counted = c, docket.worker, None, None, False
        self.module.len = self.len
        c.cleanup.append(self)

    def close(self): self.module.__dict__.pop("len", None)

    def stands_for(self, x):
        j = self.job
        return x is j or x is j.coro_execution or isinstance(x, (str, bytes)) and t(x) in (j.mid, j.coro_execution.key)

    def len(self, x):
        n = len(x)
        if self.job is None or not isinstance(x, (dict, list, set, frozenset, tuple)) or not any(map(self.stands_for, x)): return n
        self.counted = True
        return n - 1 + self.size


@contract("worker.round", "C20 C32 C01 C07", [W_ + "_worker_loop"], weight=10)
async def round_(c):
    """any round of the polling loop: any number of tasks in progress, whatever the rounds before were like; answers of up to two deliveries"""
    from redis.exceptions import ConnectionError
    import asyncio
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "worker.round")
    await w.group()
    forever = bool(c.choose(2, "for good"))
    happens = c.pick("goes well", "lost", "told to stop", "cancelled")
    where = c.pick("redelivered", "new") if happens != "goes well" else None
    left = "nothing" if where or forever else c.pick("nothing", "scheduled", "at another worker")
    finished = [c.choose(2, "finished by now") for _ in range(c.choose(3, "in progress"))]
    crowded = finished and bool(c.choose(2, "and an arbitrary number more"))
    concurrency = c.int("concurrency", 1, 10**9) if c.symbolic else 2
    size = c.int("size", 1, 10**9) if crowded and c.symbolic else 1      # of what the last of them stands for
    before = len(finished) - 1 + size
    c.assume(before <= concurrency)
    worker = await a_worker(env, concurrency=concurrency, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7))
    h = Harness(c, env, worker)
    h.install()
    if left == "scheduled" or not finished: await env.raw.zadd(w.queue, {"k9": ts(c.int("due", 10**6, HI))})
    if left == "at another worker": await w.deliver(Task("o1", 10**15, function="job").message(1), "w-old")
    crowd = Crowd(c)
    polls, given, seen = [0], [], {}

    class Jobs(list):
        """what was delivered before this round; some of it finishes at once"""
        def append(self, j):
            super().append(j)
            n = len(self)
            if n > len(finished): return
            j.finished = bool(finished[n - 1])
            if crowded and n == len(finished): crowd.size, crowd.job = size, j
    h.jobs = Jobs()

    def in_progress(): return len(h.in_progress()) + (size - 1 if crowded and crowd.job in h.in_progress() else 0)

    def counted():
        if crowded and crowd.job in h.in_progress() and not crowd.counted: raise core.Unsupported("the tasks in progress are counted in some other way")

    async def gone(j):
        await env.raw.xack(w.stream, GROUP, j.mid)
        await env.raw.xdel(w.stream, j.mid)

    async def deliver(n, what, prefix):
        out = []
        for i in range(n):
            m = Task(f"{prefix}{i}", 10**15, function="job", kwargs={}).message(1)
            mid = await w.deliver(m, "w-me")
            given.append((mid, what))
            out.append((mid.encode(), b(m)))
        return out

    def another_round():
        """this round is over, and the loop goes on"""
        if "went on" in seen: return
        seen["went on"] = True
        w.p("goes-on/only-with-reason", forever or seen["held"] or not seen["empty"], "C32", seen)
        worker._worker_stopping.set()

    async def idles(d):
        if polls[0] > 1: return another_round()
        if "told" not in seen:
            counted()
            w.p("waits/only-with-every-slot-taken", in_progress() >= concurrency, "C20 C01", in_progress())
            w.p("waits/a-while", d > 0, "C20", d)
        seen["told"] = True
        worker._worker_stopping.set()
    h.idles = idles

    async def answer(what, count):
        counted()
        w.p(f"{what}/asks-for-no-more-than-it-has-slots", land(1 <= count, count + in_progress() <= concurrency), "C20", [count, in_progress()])
        if what == where:
            seen["lost" if happens == "lost" else "told"] = True
            if happens == "lost": raise ConnectionError("gone")
            if happens == "cancelled": raise asyncio.CancelledError
            worker._worker_stopping.set()
        n = c.choose(3, "deliveries")
        c.assume(n <= count)
        out = await deliver(n, what, what)
        s = await env.snap()
        seen.update(held=bool(h.in_progress() or out), empty=not s.zset(w.queue) and not s.stream(w.stream).entries)
        return out

    async def xautoclaim(**kw):
        polls[0] += 1
        if polls[0] > 2: another_round()
        if polls[0] != 2: return [b"0-0", [], []]
        for j in h.jobs:
            if j.finished: await gone(j)
        return [b"0-0", await answer("redelivered", kw["count"]), []]

    async def xreadgroup(**kw):
        if polls[0] > 2: return []
        out = await (deliver(len(finished), "new", "k") if polls[0] == 1 else answer("new", kw["count"]))
        return [[w.stream.encode(), out]] if out else []

    async def drains(aws):
        w.p("waits-for-all-of-them", set(h.in_progress()) == set(aws), "C20 C07", "")
        for j in h.unfinished(): j.finished = True
        return [None] * len(aws)
    h.drains = drains
    err = None
    async with env.docket.redis() as r:
        try: await worker._worker_loop(Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup), forever=forever)
        except ConnectionError as e: err = e
    for j in h.jobs: await gone(j)
    s = await env.snap()
    w.p("disconnection-is-passed-on", (err is not None) == ("lost" in seen), "C20 C32", err)
    if not seen.keys() & {"went on", "told", "lost"}:
        w.p("ends/only-when-nothing-is-left", not forever and not s.zset(w.queue) and not s.stream(w.stream).entries, "C32", [s.zset(w.queue), s.stream(w.stream).entries])
    w.p("each-delivery-started-once", [(j.mid, "redelivered" if j.redelivered else "new") for j in h.jobs] == given, "C07 C20 C01", [h.jobs, given])
    w.p("each-outcome-handled-once", all(j.handled == 1 for j in h.jobs), "C07 C20 C01", [j.handled for j in h.jobs])
    w.p("none-left-running", all(not x.alive() for x in h.background), "C20 C32", [x.name for x in h.background if x.alive()])
    c.hooks.clear()
    crowd.close()
    await worker.__aexit__(None, None, None)
