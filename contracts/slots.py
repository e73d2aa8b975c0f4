"""Contracts of concurrency limits (C11): getting a slot or waiting for one, handing slots on,
keeping them, and watching over those that wait.

A slot table is any number of live holders besides the ones spelled out; the limit, the redelivery
timeout and all times are arbitrary.  The holders' leases are measured with one timeout (all workers
of a docket are configured alike) and clocks that agree."""
from __future__ import annotations

import asyncio as real_asyncio
from typing import Annotated

from .world import *
from .admission import limited
from .lifecycle import Atomic, execution_from
from .transfer import HI, a_worker, iterations
from engine import core, shims
from engine.env import Env
from engine.store import Live
from .registry import contract

MODULE = "docket.dependencies._concurrency:"
GET = [MODULE + f for f in ("ConcurrencyLimit.__init__", "ConcurrencyLimit.bind_to_parameter", "ConcurrencyLimit.__aenter__",
                            "_acquire_or_park (Lua)", "_schedule_safeguard")] + ["docket.execution:Execution.as_message"]
FREE = [MODULE + f for f in ("ConcurrencyLimit._release_and_wake", "_release_and_wake (Lua)")]
WATCH = [MODULE + f for f in ("_safeguard_wake", "_scavenge_and_wake (Lua)", "_schedule_safeguard")]
ADD = ["docket.docket:Docket.replace", "docket.execution:Execution.schedule", "docket.execution:_schedule (Lua)"]
GROUPS = {"task": ("job", None), "argument": ("x:1", "x"), "scope": ("job", None)}


class Table:
    """the slots of one group"""

    def __init__(self, c, w, group, timeout, now):
        self.c, self.w, self.timeout, self.now = c, w, timeout, now
        self.name = f"{w.d.prefix}:{'s:' if group == 'scope' else ''}concurrency:{GROUPS[group][0]}"
        w.wstream = self.name + ":waiters"
        self.n = 0

    async def others(self, until, n=None):
        """any number of further holders, whose leases do not lapse before ``until``"""
        r = self.w.env.raw
        self.n = n = self.c.int("live_holders", 0, 10**6 if self.c.symbolic else 4) if n is None else n
        if not self.c.symbolic:
            for i in range(n): await r.zadd(self.name, {f"live{i}": ts(until)})
            return
        if n > 0:
            from engine.store import ZSet
            z = self.w.env.store.need(self.name, ZSet)
            z.rest = Live(n, ts(until - self.timeout))

    async def hold(self, key, at):
        await self.w.env.raw.zadd(self.name, {key: ts(at)})

    def named(self, s): return {k: x for k, x in s.zset(self.name).items() if not k.startswith("live")}

    def all_there(self, s):
        """the further holders hold their slots still"""
        if not self.c.symbolic: return sum(k.startswith("live") for k in s.zset(self.name)) == self.n
        v = self.w.env.store.data.get(self.name)
        return lor(self.n == 0, v is not None and type(v.rest) is Live and v.rest.n is self.n)

    def stale(self, at, now): return at <= now - self.timeout


async def attempt(worker, ex, inside):
    """the task's attempt, the way Worker._execute makes it, up to its call: what blocked it"""
    from docket.dependencies import AdmissionBlocked, FailedDependency, resolved_dependencies
    try:
        async with resolved_dependencies(worker, ex) as deps:
            for v in deps.values():
                if isinstance(v, FailedDependency): raise v.error
            await inside()
    except AdmissionBlocked as e:
        return e
    return None


async def nothing(): pass


def expect_waiting(w, s, key, task, G, clause="waiting"):
    rec, live = s.hash(w.runs(key)), w.live(s, key)
    w.p(f"{clause}/state", str_eq(rec.get("state"), "scheduled"), "C11 C28", rec)
    w.p(f"{clause}/one-live-copy", w.counted([x[0] for x in live], 1), "C01 C02 C03 C11", live)
    wt = [(cnd, i, m) for cnd, p, i, m in live if p == "waiter"]
    w.p(f"{clause}/in-line", w.counted([x[0] for x in wt], 1), "C11 C01", live)
    w.p(f"{clause}/found-again", lor(*[land(cnd, rec.get("waiter_stream") == i[0], str_eq(rec.get("waiter_entry_id"), i[1])) for cnd, i, _ in wt]), "C11 C04", rec)
    w.p(f"{clause}/message", lor(*[land(cnd, w.same_message(m, task, G, trace=False)) for cnd, _, m in wt]), "C19 C11 C02", wt)
    w.p(f"{clause}/known", "known" in rec, "C02 C11", rec)
    w.p(f"{clause}/no-stream-id", "stream_id" not in rec, "C04", rec)
    w.p(f"{clause}/nothing-expires", s.ttl.get(w.runs(key)) is None and s.ttl.get(w.wstream) is None, "C01 C11", "")
    w.call(rec, task)


def watchers(w, s, before=()):
    """[(key, due)] of the scheduled tasks that are no user's"""
    return [(k, x) for k, x in s.zset(w.queue).items() if s.hash(w.k(k)).get("function") not in ("job", "other_job") and k not in before]


async def docket_with_limit(c, op, group, calls, limit, timeout):
    from docket import ConcurrencyLimit
    env = await Env.make(c)
    arg = GROUPS[group][1]
    rule = ConcurrencyLimit(arg, max_concurrent=limit) if group == "argument" else ConcurrencyLimit(max_concurrent=limit, scope="s" if group == "scope" else None)
    fn = limited(calls, rule, "annotation" if group == "annotated" else "parameter")
    env.docket.register(fn)
    env.docket.register(other_job)
    w = W(env, op)
    await w.group()
    worker = await a_worker(env, redelivery_timeout=delta(timeout))
    async with worker_side(env, worker): pass
    return env, w, worker


def worker_side(env, worker):
    """what a worker sets up for its tasks' limits"""
    from contextlib import asynccontextmanager
    from docket import ConcurrencyLimit

    @asynccontextmanager
    async def cm():
        async with ConcurrencyLimit.worker_lifecycle(env.docket, worker): yield
    if not env.c.symbolic: return cm()

    @asynccontextmanager
    async def quiet():
        async def gather(*a, **k): return []
        async with ConcurrencyLimit.worker_lifecycle(env.docket, worker): yield
    return quiet()


@contract("slots.get", "C01 C02 C03 C04 C07 C11 C19 C28", GET + ADD, weight=12)
async def get(c):
    """a task, in any relation to the table, asks for a slot"""
    group = c.pick("task", "argument", "scope")
    rel = c.pick("first", "first redelivered", "holding", "holding redelivered", "superseded") if group == "task" else c.pick("first", "holding redelivered")
    limit, timeout = c.int("limit", 1, 10**6 if c.symbolic else 6), c.int("timeout", 1000, 10**11)
    env, w, worker = await docket_with_limit(c, "slots.get", group, [], limit, timeout)
    task, g = Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), kwargs={"y": 2}, trace=False), c.int("g", 1, 10**9)
    now = c.int("now_t", NOW_LO, NOW_HI)
    t_ = Table(c, w, group, timeout, now)
    G = g
    if rel == "superseded":
        mid = await w.deliver(task.message(g), "w-me")
        G = c.int("G", 2, 2 * 10**9)
        c.assume(G > g)
        await w.put("k", c.pick("SCHED", "QUEUED", "WAITING", "COMPLETED", "CANCELLED"), Task("k", c.int("newer_when", 10**6, HI), args=("newer",), kwargs={}), G)
    else:
        await w.put("k", "RUNNING", task, g, worker="w-me")
        mid = w.info["k"]["mid"]
    await t_.others(now)
    held = {}
    for i in range(c.choose(3, "holders whose lease may have lapsed")): held[f"h{i}"] = c.int(f"h{i}_at", NOW_LO - 10**13, NOW_HI)
    own = None
    if rel.startswith("holding") or rel == "superseded" and c.choose(2, "holding"): own = held["k"] = c.int("own_at", NOW_LO - 10**13, NOW_HI)
    for k, x in held.items():
        c.assume(x <= now)
        await t_.hold(k, x)
    # another group, full, with someone in line
    await env.raw.zadd(w.k("concurrency:z"), {"o1": ts(now), "o2": 1})
    await env.raw.xadd(w.k("concurrency:z:waiters"), b(Task("o3", 10**15).message(4)))
    await w.put("o1", "RUNNING", Task("o1", c.int("o1_when", 10**6, HI), args=(6,)), c.int("o1_G", 1, 10**9))
    others = len(held) + t_.n
    redelivered = rel.endswith("redelivered")
    ex = await execution_from(env, task, g, mid, redelivered=redelivered)
    c.frozen = now
    pre = await env.snap()
    await env.drain()
    got, tasks, steps = [], [], []
    ended = False

    async def inside():
        got.append(await env.snap())

    async def look(what):
        if what not in ("lock", "unlock") and not got: steps.append(await env.snap())
    env.on_step.append(look)

    def create_task(coro, name):
        tasks.append(coro)
        return shims.FakeTask(coro, name) if c.symbolic else real_asyncio.create_task(coro, name=name)
    c.hooks["create_task"] = create_task
    blocked = await attempt(worker, ex, inside)
    post = await env.snap()
    evs = await env.drain()
    env.on_step.clear()
    c.hooks.pop("create_task")
    lapsed = {k: bool(t_.stale(x, now)) for k, x in held.items()}
    taken = {k for k, x in lapsed.items() if x}
    w.p("runs-or-waits", bool(got) != (blocked is not None), "C11 C07", [got, blocked])
    if got:
        s = got[0]
        after = t_.named(s)
        gone = set(held) - set(after)
        w.p("got/holds-a-slot", "k" in after and val_eq(after["k"], ts(now)), "C11", after)
        w.p("got/live-holders-keep-theirs", land(t_.all_there(s), not (gone - taken), *[val_eq(after[k], ts(held[k])) for k in held if k in after and k != "k"]),
            "C11", [after, held])
        w.p("got/nobody-else-does", set(after) <= set(held) | {"k"}, "C11", after)
        # a place that was free, or in exchange for one that had lapsed
        w.p("got/within-the-limit", lor(own is not None, len(after) + t_.n <= limit, len(gone) >= 1), "C11", [after, limit])
        w.p("got/no-more-than-one-taken-over", len(gone) <= 1, "C11", gone)
        if own is not None: w.p("got/own-slot-taken-over-only-when-lapsed", redelivered and lapsed["k"], "C11", own)
        ttl = s.ttl.get(t_.name)
        w.p("got/outlives-the-lease", s.expires_since(t_.name, pre) and (ttl is None or ttl * 1000 >= timeout - (0 if c.symbolic else 10**6)), "C11", [ttl, timeout])
        w.p("got/kept-up", len(tasks) == 1, "C11", tasks)
        w.frame(pre, s, ["k"], "C11 C01", name="got/frame", skip=[t_.name])
        w.unchanged(pre, s, "got/record-unchanged", "C11 C03", keys={w.runs("k"), w.stream, w.queue, w.wstream})
        w.p("given-back", "k" not in post.zset(t_.name), "C11", post.zset(t_.name))
    else:
        w.p("waits/no-slot-was-to-be-had", land(others >= limit if own is None else True,
            not (taken and own is None), not (own is not None and redelivered and lapsed["k"])), "C11", [held, limit])
        w.p("waits/handled", blocked.handled is True, "C11 C07", "")
        w.p("waits/slots-untouched", land(t_.all_there(post), set(t_.named(post)) == set(held), *[val_eq(t_.named(post)[k], ts(held[k])) for k in held if k in t_.named(post)]),
            "C11", [held, post.zset(t_.name)])
        w.p("waits/delivery-done", not [i for i, _ in post.stream(w.stream).entries if i == mid] and mid not in post.stream(w.stream).pel, "C11 C02", mid)
        watch = watchers(w, post)
        if rel == "superseded":
            w.unchanged(pre, post, "superseded/newer-untouched", "C11 C03", keys={w.runs("k"), w.k("k"), w.wstream})
            w.p("superseded/announces-nothing", not w.events(evs, "k"), "C28 C11", evs)
        else:
            expect_waiting(w, post, "k", task, g + 1)
            w.expect_events([e for e in evs if not e[0].endswith("__safeguard__:k")], "k", ["scheduled"])
            w.p("waits/in-one-step", land(*[w.counted([x[0] for x in w.live(s, "k")], 1) for s in steps]), "C01 C02 C11", len(steps))
            w.p("waits/watched", len(watch) == 1 and land(*[x <= ts(now + timeout) for _, x in watch]) if c.symbolic else
                len(watch) == 1 and watch[0][1] <= ts(now + timeout) + 1e-5, "C11", watch)
        extra = [k for k, _ in watch]
        w.frame(pre, post, ["k", *extra, *[f"__safeguard__:{k}" for k in "k"]], "C11 C01", name="waits/frame", skip=[t_.name])
    c.frozen = None
    await worker.__aexit__(None, None, None)


async def line_up(c, w, most, watched):
    """waiters of every kind, oldest first: [(key, kind, task, generation)]"""
    r = w.env.raw
    out = []
    kinds = ("live", "cancelled", "again", "gone")
    n = c.choose(most + 1, "how many in line")
    for i in range(n):
        k = ['k"q\\', "k2", "k3"][i]
        kind = c.pick(*kinds) if n < 3 else c.pick("live", "cancelled") if i < 2 else "live"
        task, G = Task(k, c.int(f"w{i}_when", 10**6, HI), c.int(f"w{i}_attempt", 1, 10**6), args=(1, k), trace=i != 1), c.int(f"w{i}_G", 1, 10**9)
        if kind in ("live", "cancelled"):
            await w.put(k, "WAITING", task, G)
            if kind == "cancelled":
                await r.hset(w.runs(k), mapping={"state": "cancelled", "completed_at": iso(task.when)})
                await r.hdel(w.runs(k), "known")
                await r.expire(w.runs(k), 900)
        else:
            await r.xadd(w.wstream, b(task.message(G)))
            if kind == "again":
                newer = Task(k, c.int(f"w{i}_newer", 10**6, HI), args=("newer", k), kwargs={}, trace=False)
                d_ = c.int(f"w{i}_d", 1, 10**6)
                kind = c.pick("again SCHED", "again WAITING", "again COMPLETED") if n < 2 else "again SCHED"
                await w.put(k, kind.split()[1], newer, G + d_)
                if kind == "again WAITING": task, G, kind = newer, G + d_, "live"
        if watched and kind == "live":
            await w.put(f"__safeguard__:{k}", "SCHED", Task(f"__safeguard__:{k}", c.int(f"w{i}_watch", NOW_LO, NOW_HI), function="_safeguard_wake",
                                                           args=(), kwargs={"waiter_stream": w.wstream, "max_concurrent": 1}), 1)
        out.append((k, kind, task, G))
    return out


def handed_on(w, pre, post, evs, line, capacity, record, watching=None):
    """the oldest waiters, and no more than there is room for, are ready to run again"""
    c = w.c
    room, woken = capacity, 0
    for k, kind, task, G in line:
        if kind != "live":
            rec = post.hash(w.runs(k))
            w.unchanged(pre, post, "passed-over/unchanged", "C11 C03 C04", keys={w.runs(k), *([w.k(k)] if kind.startswith("again") else [])})
            w.p("passed-over/never-runs", not [1 for _, f in post.stream(w.stream).entries if f.get("key") == k], "C11 C04 C03", k)
            w.p("passed-over/announces-nothing", not w.events(evs, k), "C28", evs)
        elif room > 0:
            room, woken = room - 1, woken + 1
            w.expect_queued(post, k, task, G + 1, fresh=False)
            rec = post.hash(w.runs(k))
            w.p("handed-on/no-longer-in-line", "waiter_stream" not in rec and "waiter_entry_id" not in rec, "C11 C04", rec)
            w.p("handed-on/not-watched-any-more", f"__safeguard__:{k}" not in post.zset(w.queue) and w.k(f"__safeguard__:{k}") not in post, "C11", "")
            w.p("handed-on/announced", [e.get("state") for e in w.events(evs, k) if e.get("type") == "state"] == ["queued"], "C28 C11", evs)
        else:
            w.unchanged(pre, post, "waits-on/unchanged", "C11 C01", keys={w.runs(k), w.k(k), *([] if k == watching else [w.k(f"__safeguard__:{k}"), w.runs(f"__safeguard__:{k}")])})
            w.p("waits-on/in-line", w.counted([x[0] for x in w.live(post, k)], 1), "C11 C01", w.copies(post, k))
            w.p("waits-on/announces-nothing", not w.events(evs, k), "C28", evs)
    w.p("still-in-order", val_eq([e for e in post.stream(w.wstream).entries], [e for e in pre.stream(w.wstream).entries
        if e in post.stream(w.wstream).entries]) if not c.symbolic else True, "C11", "")
    # rounds for different waiters touch different tasks' keys: what holds for up to three waiters,
    # of any kinds in any order, holds for any number
    mine = [k for k, *_ in line]
    for x, cmds in iterations(record):
        own = next((k for k in mine if any(a and a[0] == w.runs(k) for _, a in cmds)), None)
        if own is None: continue
        keep = {w.runs(own), w.k(f"state:{own}"), w.stream, w.wstream, w.queue, w.k(f"__safeguard__:{own}"), w.runs(f"__safeguard__:{own}")}
        bad = [(n_, a) for n_, a in cmds if not (a[0] in keep and (n_ != "ZREM" or a[1:] == [f"__safeguard__:{own}"]))]
        w.p("each-round-touches-only-its-own-waiter", not bad, "C11 C01", [own, bad])
    return woken


@contract("slots.release", "C01 C02 C03 C04 C05 C07 C11 C19 C28", GET + FREE, weight=20)
async def release(c):
    """a holder ends, however it does: its slot goes, and what is free goes to the oldest in line"""
    group = c.pick("task", "argument")
    how = c.pick("returns", "fails", "stops") if group == "task" else "returns"
    full = how == "returns" and group == "task"
    limit, timeout = c.int("limit", 1, 10**6 if c.symbolic else 6), c.int("timeout", 1000, 10**11)
    env, w, worker = await docket_with_limit(c, "slots.release", group, [], limit, timeout)
    task, g = Task("k", c.int("when", 10**6, HI), 1, kwargs={"y": 2}), c.int("g", 1, 10**9)
    now = c.int("now_t", NOW_LO, NOW_HI)
    then = c.int("then_t", NOW_LO, NOW_HI)
    c.assume(now <= then)
    t_ = Table(c, w, group, timeout, now)
    await w.put("k", "RUNNING", task, g, worker="w-me")
    ex = await execution_from(env, task, g, w.info["k"]["mid"])
    c.frozen = now
    held, before, line, record = {}, [], [], []

    class Stop(BaseException): pass

    class Enough(BaseException): pass
    loops = []

    def create_task(coro, name):
        loops.append(shims.FakeTask(coro, name))
        return loops[-1]
    c.hooks["create_task"] = create_task
    late = c.choose(2, "its lease is renewed at the last moment") if full else 0

    async def renews(what):
        """what keeps the lease is not stopped before the slot is given back"""
        if len(loops) != 1 or loops[0].cancelled_with or what in ("lock", "unlock"): return
        env.on_step.remove(renews)
        slept = []

        async def sleep(d):
            slept.append(d)
            if len(slept) > 1: raise Enough
        c.hooks["sleep"] = sleep
        try: await loops[0].coro
        except Enough: pass
        finally: c.hooks.pop("sleep")

    async def inside():
        nonlocal held
        await t_.others(then)
        for i in range(c.choose(3 if full else 2, "holders whose lease may have lapsed")):
            held[f"h{i}"] = c.int(f"h{i}_at", NOW_LO - 10**13, NOW_HI)
            c.assume(held[f"h{i}"] <= then)
            await t_.hold(f"h{i}", held[f"h{i}"])
        lost = c.choose(2, "its slot was given to another meanwhile") if full and len(held) == 1 else False
        if lost: await env.raw.zrem(t_.name, "k")
        line.extend(await line_up(c, w, 0 if late else 3 if full and len(held) < 2 and not lost else 1, watched=True))
        await env.raw.zadd(w.k("concurrency:z"), {"o1": 1})
        await env.raw.xadd(w.k("concurrency:z:waiters"), b(Task("o3", 10**15).message(4)))
        c.frozen = then
        before.append(await env.snap())
        await env.drain()
        if late: env.on_step.append(renews)
        else: env.record = record
        if how == "fails": raise KeyError("x")
        if how == "stops": raise Stop
    err = None
    try:
        blocked = await attempt(worker, ex, inside)
    except (KeyError, Stop) as e:
        err = e
    env.record = None
    env.on_step.clear()
    c.hooks.pop("create_task")
    if not before: raise core.PathEnd("blocked")
    w.p("ends-as-it-did", (type(err).__name__ if err else "returns") == {"returns": "returns", "fails": "KeyError", "stops": "Stop"}[how], "C11 C07", err)
    pre, post = before[0], await env.snap()
    evs = await env.drain()
    after = t_.named(post)
    w.p("given-back", "k" not in after, "C11", after)
    gone = set(held) - set(after)
    w.p("live-holders-keep-theirs", land(t_.all_there(post), *[t_.stale(held[k], then) for k in gone], *[val_eq(after[k], ts(held[k])) for k in held if k in after]),
        "C11", [held, after])
    w.p("nobody-else-holds-one", set(after) <= set(held), "C11", after)
    capacity = limit - (len(after) + t_.n)
    handed_on(w, pre, post, evs, line, capacity, record)
    if [1 for _, kind, *_ in line if kind == "live"]:
        # a lapsed lease keeps nobody waiting
        w.p("nobody-waits-for-the-dead", land(*[lnot(t_.stale(held[k], then)) for k in after if k in held]), "C11", after)
    w.frame(pre, post, [k for k, *_ in line] + [f"__safeguard__:{k}" for k, *_ in line], "C11 C01", skip=[t_.name])
    c.frozen = None
    await worker.__aexit__(None, None, None)


@contract("slots.watch", "C01 C02 C03 C04 C05 C11 C19 C28", GET + WATCH + ADD, weight=20)
async def watch(c):
    """what watches over a waiting task goes off: whatever lapsed is handed on, and while the task
    still waits it stays watched"""
    limit, timeout = c.int("limit", 1, 10**6 if c.symbolic else 6), c.int("timeout", 1000, 10**11)
    env, w, worker = await docket_with_limit(c, "slots.watch", "task", [], limit, timeout)
    now = c.int("now_t", NOW_LO, NOW_HI)
    then = now + timeout + c.int("later", 0, 10**12)
    t_ = Table(c, w, "task", timeout, now)
    task, g = Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), kwargs={"y": 2}, trace=False), c.int("g", 1, 10**9)
    await w.put("k", "RUNNING", task, g, worker="w-me")
    await t_.others(then, limit - 1 + c.int("over", 0, 10**6 if c.symbolic else 2))
    await t_.hold("h0", now)
    ex = await execution_from(env, task, g, w.info["k"]["mid"])
    c.frozen = now
    blocked = await attempt(worker, ex, nothing)
    if blocked is None: raise core.Unsupported("not parked")
    s = await env.snap()
    found = watchers(w, s)
    if len(found) != 1: raise core.Unsupported("no one watcher")
    (key, due), = found
    msg = s.hash(w.k(key))
    # meanwhile
    if not (ts(then) >= due if c.symbolic else ts(then) >= due - 1e-5): raise core.Unsupported("watched for longer than the timeout")
    fate = c.pick("waits", "handed on", "cancelled", "again elsewhere")
    held = {"h0": now + c.int("h0_renewed", 0, 10**12)}
    c.assume(held["h0"] <= then)
    await t_.hold("h0", held["h0"])
    k2 = c.choose(2, "another one in line") if fate in ("waits", "handed on") else 0
    entry = s.hash(w.runs("k"))
    if fate in ("handed on", "cancelled"):
        await env.raw.xdel(w.wstream, entry["waiter_entry_id"])
        await env.raw.hdel(w.runs("k"), "waiter_stream", "waiter_entry_id")
        if fate == "handed on": await env.raw.hset(w.runs("k"), mapping={"state": "queued", "stream_id": t(await env.raw.xadd(w.stream, b(task.message(g + 2)))), "generation": str(g + 2)})
        else: await env.raw.hset(w.runs("k"), mapping={"state": "cancelled"})
    elif fate == "again elsewhere":
        await env.raw.hset(w.runs("k"), mapping={"waiter_stream": w.k("concurrency:z:waiters"), "waiter_entry_id": "1-0", "generation": str(g + 2)})
    line = [("k", "live", task, g + 1)] if fate == "waits" else [("k", "again", task, g + 2)] if fate == "again elsewhere" else []
    if k2:
        other = Task("k2", c.int("w2_when", 10**6, HI), args=(1, "k2"))
        g2 = c.int("w2_G", 1, 10**9)
        await w.put("k2", "WAITING", other, g2)
        line.append(("k2", "live", other, g2))
    # the scheduler hands it out, a worker claims and runs it
    await env.raw.zrem(w.queue, key)
    await env.raw.delete(w.k(key))
    mid = await w.deliver(msg, "w-me")
    await env.raw.hdel(w.runs(key), "known", "stream_id")
    await env.raw.hset(w.runs(key), mapping={"state": "running"})
    from docket.execution import Execution
    sg = await Execution.from_message(env.docket, b(msg), message_id=mid.encode())
    c.frozen = then
    pre = await env.snap()
    await env.drain()
    env.record = record = []

    async def run(): await sg.function(*sg.args, **sg.kwargs)
    await attempt(worker, sg, run)
    env.record = None
    post = await env.snap()
    evs = await env.drain()
    after = t_.named(post)
    w.p("live-holders-keep-theirs", land(t_.all_there(post), *[t_.stale(held[k], then) for k in set(held) - set(after)], *[val_eq(after[k], ts(held[k])) for k in held if k in after]),
        "C11", [held, after])
    w.p("nobody-else-holds-one", set(after) <= set(held), "C11", after)
    capacity = limit - (len(after) + t_.n)
    if line:
        handed_on(w, pre, post, evs, line, capacity, record, "k")
        w.p("nobody-waits-for-the-dead", land(*[lnot(t_.stale(held[k], then)) for k in after if k in held]) if [1 for x in line if x[1] == "live"] else True, "C11", after)
    waits = fate == "waits" and w.runs("k") in post and "waiter_stream" in post.hash(w.runs("k"))
    left = [x for x in watchers(w, post)]
    if waits:
        w.p("still-watched", len(left) == 1 and (land(*[x <= ts(then + timeout) for _, x in left]) if c.symbolic else left[0][1] <= ts(then + timeout) + 1e-5), "C11", left)
        if len(left) == 1:
            m = post.hash(w.k(left[0][0]))
            w.p("still-watched/the-same-way", m.get("function") == msg["function"] and m.get("args") == msg["args"] and m.get("kwargs") == msg["kwargs"], "C11", m)
    else:
        w.p("no-longer-watched", not left, "C11", left)
    w.frame(pre, post, [k for k, *_ in line] + [key, "k"] + [f"__safeguard__:{k}" for k, *_ in line], "C11 C01", skip=[t_.name])
    c.frozen = None
    await worker.__aexit__(None, None, None)


@contract("slots.renewal", "C11", GET + [MODULE + "ConcurrencyLimit._renew_lease_loop"])
async def renewal(c):
    """while the task runs its lease never lapses"""
    timeout = c.int("timeout", 1000, 10**11)
    group = c.pick("task", "argument")
    env, w, worker = await docket_with_limit(c, "slots.renewal", group, [], c.int("limit", 1, 10**6), timeout)
    now = c.int("now_t", NOW_LO, NOW_HI)
    t_ = Table(c, w, group, timeout, now)
    task = Task("k", c.int("when", 10**6, HI), 1, kwargs={"y": 2}, trace=False)
    await w.put("k", "RUNNING", task, 1, worker="w-me")
    ex = await execution_from(env, task, 1, w.info["k"]["mid"])
    c.frozen = now
    loops = []

    def create_task(coro, name):
        loops.append((coro, __import__("contextvars").copy_context()))
        return shims.FakeTask(coro, name)
    c.hooks["create_task"] = create_task
    fails = c.choose(2, "the server cannot be reached once")

    class Enough(BaseException): pass
    waits = []

    async def inside():
        if len(loops) != 1: raise core.Unsupported("no one task keeps the lease")
        at = [c.frozen, 0]
        got = await env.snap()

        async def sleep(d):
            waits.append(d)
            at[1] = at[1] + 1
            at[0] = c.frozen
            # at most so long since the lease was last known to be fresh: what was slept since
            c.frozen = c.frozen + us_of_seconds(c, d)
            if at[1] > 3: raise Enough
            env.on_step[:] = [boom] if fails and at[1] == 2 else []

        async def boom(what): raise ConnectionError("gone")
        c.hooks["sleep"] = sleep
        real = env.on_step[:]
        seen = []
        try:
            await loops[0][0]
        except Enough:
            pass
        finally:
            env.on_step[:] = real
            c.hooks.pop("sleep")
        s = await env.snap()
        x = s.zset(t_.name).get("k")
        w.p("renewed", x is not None and val_eq(x, ts(at[0])), "C11", [x, waits])
        # twice over, so that one failure does not matter
        w.p("often-enough", land(*[2 * d * 10**6 < timeout for d in waits]) if c.symbolic else all(2 * d * 1e6 < timeout for d in waits), "C11", waits)
        ttl = s.ttl.get(t_.name)
        w.p("outlives-the-lease", s.expires_since(t_.name, got) and (ttl is None or ttl * 1000 >= timeout - (0 if c.symbolic else 10**6)), "C11", [ttl, timeout])
        w.p("only-its-own", set(t_.named(s)) == {"k"}, "C11", s.zset(t_.name))
    await attempt(worker, ex, inside)
    c.hooks.clear()
    c.frozen = None
    await worker.__aexit__(None, None, None)


def us_of_seconds(c, d):
    if not c.symbolic: return int(d * 10**6)
    from engine.sym import micro, Sym
    import z3
    m = micro(z3.simplify(d.e)) if type(d) is Sym else None
    if m is not None: return Sym(m)
    v = c.int(f"slept{len(c.__dict__.setdefault('slept', []))}", 0, 10**13)
    c.slept.append(v)
    e = d.e if type(d) is Sym else z3.RealVal(str(d))
    # to the microsecond the clock has
    c.assume(land(Sym(e) * 10**6 - 1 < v, v <= Sym(e) * 10**6))
    return v


@contract("slots.cancelled", "C01 C03 C04 C11", [MODULE + f for f in ("ConcurrencyLimit._cleanup_cancelled_waiter", "_cancel_cleanup (Lua)")] +
          ["docket.docket:Docket.cancel", "docket.docket:_cancel_task (Lua)"])
async def cancelled(c):
    """a waiting task is cancelled: its place in line goes, and nobody else's"""
    from docket import ConcurrencyLimit
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "slots.cancelled")
    await w.group()
    task, g = Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6)), c.int("g", 1, 10**9)
    phase = c.pick(*PHASES)
    await w.put("k", phase, task, g)
    if phase == "WAITING":
        await w.put("__safeguard__:k", "SCHED", Task("__safeguard__:k", c.int("watch", 10**6, HI), function="_safeguard_wake", kwargs={}), 1)
    await w.put("k2", "WAITING", Task("k2", c.int("when2", 10**6, HI), args=(2,)), c.int("g2", 1, 10**9)) if c.choose(2, "another in line") else None
    late = c.choose(2, "heard of late: scheduled again, and in line again, by now") if phase == "WAITING" else 0
    told = c.choose(2, "cancelled") or late
    if told: await env.docket.cancel("k")
    newer = None
    if late:
        newer = Task("k", c.int("newer_when", 10**6, HI), args=("newer",), kwargs={})
        await w.put("k", "WAITING", newer, g + 5)
    pre = await env.snap()
    await ConcurrencyLimit._cleanup_cancelled_waiter(env.docket, "k")
    post = await env.snap()
    if phase == "WAITING" and told and not late:
        w.p("place-given-up", not w.copies(post, "k"), "C11 C04", w.copies(post, "k"))
        w.p("stays-cancelled", str_eq(post.hash(w.runs("k")).get("state"), "cancelled") if w.runs("k") in post else True, "C04 C11", "")
        w.p("progress-gone", w.k("progress:k") not in post, "C11", "")
        w.p("not-watched-any-more", "__safeguard__:k" not in post.zset(w.queue), "C11", "")
        w.frame(pre, post, ["k", "__safeguard__:k"], "C11 C03")
    else:
        w.p("not-its-business", same_but_stale(w, pre, post, g if late else None), "C11 C03 C04 C01", [phase, told, late])


@contract("slots.subscriber", "C03 C04 C11", [MODULE + f for f in ("ConcurrencyLimit.worker_lifecycle", "ConcurrencyLimit._cancel_subscriber",
          "ConcurrencyLimit._cleanup_cancelled_waiter", "_cancel_cleanup (Lua)")], weight=3)
async def subscriber(c):
    """while a worker runs it hears of cancelled tasks that wait for a slot, and of nothing else"""
    from docket import ConcurrencyLimit
    from .loop import Background, Harness, Listening, hears_cancellations
    name = c.pick("d", "a[b]*", "*", "c\\?")
    env = await Env.make(c, name=name)
    env.docket.register(job)
    w = W(env, "slots.subscriber")
    await w.group()
    worker = await a_worker(env)
    h = Harness(c, env, worker)
    h.install()
    h.hears = lambda what: None
    subs = []

    def pubsub(*a, **k):
        subs.append(Listening(h))
        return subs[-1]
    env.client.pubsub = env.docket._redis.pubsub = pubsub
    first = c.pick("k", 'k"q\\', "o2")
    await w.put(first, "WAITING", Task(first, c.int("when", 10**6, HI), c.int("attempt", 1, 10**6)), c.int("g", 1, 10**9))
    await w.put("k2", c.pick("WAITING", "SCHED", "COMPLETED") if first == "k" and name == "d" else "WAITING",
                Task("k2", c.int("when2", 10**6, HI), args=(2,)), c.int("g2", 1, 10**9))

    def tell(x, what):
        h.driving = x
        try: x.waiting = x.coro.send(what)
        except StopIteration: x.over = True
        finally: h.driving = None

    async with ConcurrencyLimit.worker_lifecycle(env.docket, worker):
        if len(h.background) != 1: raise core.Unsupported("the one background loop that hears of cancellations")
        x = h.background[0]
        w.p("watches-can-run", "_safeguard_wake" in env.docket.tasks, "C11", list(env.docket.tasks))
        x.advance()
        w.p("subscribed", not x.over and len(subs) == 1 and hears_cancellations(w, subs[-1].patterns, (first, "k2", "o1")), "C04 C11", [x.over, [s.patterns for s in subs]])
        if x.over: return
        for told in c.pick((first, "k2"), ("k2", first), ("nobody", first), (first, first)):
            channel = f"{w.d.prefix}:cancel:{told}"
            for odd in c.pick((), ({"type": "psubscribe", "pattern": None, "channel": subs[-1].patterns[0].encode(), "data": 1},)) if told == first else ():
                tell(x, odd)
                w.p("goes-on", not x.over, "C11 C04", odd)
            if told != "nobody": await env.docket.cancel(told)
            pre = await env.snap()
            tell(x, {"type": "pmessage", "pattern": subs[-1].patterns[0].encode(), "channel": channel.encode(), "data": told if c.choose(2, "decoded") else told.encode()})
            post = await env.snap()
            w.p("goes-on", not x.over and isinstance(x.waiting, tuple) and x.waiting[0] == "message", "C11 C04", told)
            if told != "nobody": w.p("place-given-up", not w.copies(post, told), "C11 C04", w.copies(post, told))
            w.frame(pre, post, [told, f"__safeguard__:{told}"], "C11 C03")
            if x.over: return
    w.p("ends-with-the-worker", x.over or bool(x.cancelled_with), "C11", "")
    if not x.over:
        try: x.coro.throw(real_asyncio.CancelledError())
        except (StopIteration, real_asyncio.CancelledError): x.over = True
    w.p("ends-when-told", x.over and not subs[-1].open, "C11", "")
    c.hooks.clear()
    await worker.__aexit__(None, None, None)


def same_but_stale(w, pre, post, stale):
    """nothing changed, except that the old entry may be gone"""
    conds = []
    for k in set(pre.v) | set(post.v):
        a, z = pre.v.get(k), post.v.get(k)
        if stale is not None and k == w.wstream:
            keep = lambda s: [e for e in s.stream(k).entries if not (e[1].get("key") == "k" and bool(str_eq(e[1].get("generation"), str(stale))))]
            conds.append(val_eq([list(e) for e in keep(pre)], [list(e) for e in keep(post)]))
        else:
            conds.append(snap_eq(a, z))
    return land(*conds)


@contract("slots.groups", "C11", GET + FREE)
async def groups(c):
    """who shares a limit with whom"""
    from docket import ConcurrencyLimit
    env = await Env.make(c)
    by = c.pick("value", "function", "scope", "kind")
    a = c.choose(len(GROUPED), "value")
    z = c.choose(len(GROUPED), "other value") if by == "value" else a
    styles = c.pick("Annotated", "default") if by == "value" else "default"
    same = c.choose(2, "the same otherwise") if by != "value" else str(GROUPED[a]) == str(GROUPED[z])

    def task(name, rule):
        if styles == "Annotated":
            async def fn(x, y=None): pass
            fn.__annotations__["x"] = Annotated[object, rule]
        else:
            async def fn(x, y=None, r=rule): pass
        fn.__name__ = "same" if name in ("one", "two") else name
        return fn
    scopes = (None, None)
    if by == "value":
        rules = [ConcurrencyLimit(1)] * 2 if styles == "Annotated" else [ConcurrencyLimit("x", 1)] * 2
        names = ("job", "job")
    elif by == "function":
        rules = [ConcurrencyLimit(max_concurrent=1), ConcurrencyLimit(max_concurrent=1)]
        names = ("job", "job") if same else c.pick(("job", "other_job"), ("one", "two"))
    elif by == "scope":
        scopes = c.pick(("s", "s"), ("s:t", "s:t")) if same else c.pick((None, "s"), ("s", "t"), ("s", None), ("s", "s:s"))
        rules, names = [ConcurrencyLimit("x", 1, scope=s) for s in scopes], ("job", "job")
    else:
        rules = [ConcurrencyLimit("x", 1), ConcurrencyLimit("x", 1) if same else ConcurrencyLimit(max_concurrent=1)]
        names = ("job", "other_job") if not same else ("job", "job")
    fns = [task(n, r) for n, r in zip(names, rules)]
    if names[0] == names[1] and by != "scope": fns[1] = fns[0]
    w = W(env, "slots.groups")
    await w.group()
    worker = await a_worker(env, redelivery_timeout=delta(60 * 10**6))
    async with worker_side(env, worker): pass
    now = c.int("now_t", NOW_LO, NOW_HI)
    c.frozen = now
    c.hooks["create_task"] = lambda coro, name: (coro.close(), shims.FakeTask(coro, name))[1]
    exs = []
    for k, f, v, name in (("o1", fns[0], GROUPED[a], names[0]), ("o2", fns[1], GROUPED[z], names[1])):
        env.docket.register(f, names=[name])
        tk = Task(k, 10**15, function=name, args=(v,), kwargs={}, trace=False)
        await w.put(k, "RUNNING", tk, 1, worker="w-me")
        ex = await execution_from(env, tk, 1, w.info[k]["mid"])
        exs.append(ex)
    tried = []

    async def first():
        tried.append(await attempt(worker, exs[1], nothing))
    b1 = await attempt(worker, exs[0], first)
    w.p("first-gets-its-slot", b1 is None and len(tried) == 1, "C11", b1)
    if tried: w.p("shares-the-limit" if same else "independent", (tried[0] is not None) == bool(same), "C11", [tried, by, GROUPED[a], GROUPED[z], scopes, names])
    s = await env.snap()
    w.p("handed-on-within-the-group", (len([1 for _, f in s.stream(w.stream).entries if f.get("key") == "o2"]) == 1) and str_eq(s.hash(w.runs("o2")).get("state"), "queued" if same else "running"),
        "C11", s.hash(w.runs("o2")))
    c.frozen = None
    await worker.__aexit__(None, None, None)


GROUPED = ["a", "b", "", "a:b", "A", " a", "é", 1, 10, -1, 1.5, None, True, ("a",), b"a", "x" * 300, "x" * 299 + "y"]
