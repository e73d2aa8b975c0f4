"""Bounded stand-ins for large numbers: the contracts proper spell out a few tasks, waiters, workers
or values and argue, from the footprint of each round of a loop, that what holds for them holds for
any number.  That argument leaves out a page, batch or limit hidden in a command's options; these
runs of the real code, with thousands of members and fixed values, look for one.  Never counted as
proved."""
from __future__ import annotations

from datetime import datetime, timedelta, timezone

from .world import *
from .clear import CLEAR
from .slots import FREE, GET, attempt, docket_with_limit, Table
from .transfer import HI, a_worker, one_round, session
from .lifecycle import execution_from
from .agenda import SCATTER
from .observe import LISTING
from .scripts import LUA, declare, holds
from engine.env import Env
from .registry import contract

T0 = 1_700_000_000 * 10**6
MANY = {"kind": "bounded", "sweep_factor": 1}


@contract("transfer.many", "C01 C05", ["docket.worker:Worker._scheduler_loop", "docket.worker:_stream_due_tasks (Lua)"], note="2300 tasks, 2100 of them due", **MANY)
async def transfer_many(c):
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "transfer.many")
    await w.group()
    tasks = {}
    for i in range(2300):
        k = f"t{i}"
        tasks[k] = Task(k, T0 + i * 10**6, 1, args=(i,), trace=False)
        await w.put(k, "SCHED", tasks[k])
    worker = await a_worker(env)
    s = session(worker)
    one_round(c, s)
    c.frozen = T0 + 2099 * 10**6
    async with env.docket.redis() as r: await worker._scheduler_loop(r)
    post = await env.snap()
    got = [f.get("key") for _, f in post.stream(w.stream).entries]
    w.p("each-due-task-once", sorted(got) == sorted(list(tasks)[:2100]), "C05 C01", len(got))
    w.p("the-others-stay", set(post.zset(w.queue)) == set(list(tasks)[2100:]), "C05 C01", len(post.zset(w.queue)))
    w.p("none-lost", all(w.copies_in(k, set(got), post) == 1 for k in tasks), "C01 C05", "")
    await worker.__aexit__(None, None, None)


@contract("clear.many", "C25", CLEAR, note="1300 tasks on the stream and 1300 scheduled", **MANY)
async def clear_many(c):
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "clear.many")
    await w.group()
    keys = [f"t{i}" for i in range(2600)]
    for i, k in enumerate(keys): await w.put(k, "SCHED" if i % 2 else "QUEUED", Task(k, T0 + i, 1, args=(i,), trace=False))
    total = await env.docket.clear()
    post = await env.snap()
    w.p("counted", total == 2600, "C25", total)
    w.p("none-left", not post.stream(w.stream).entries and not post.zset(w.queue), "C25", "")
    left = [k for k in keys if w.k(k) in post or {"known", "stream_id"} & set(post.hash(w.runs(k)))]
    w.p("nothing-left-behind", not left, "C25", left[:5])


@contract("slots.many", "C11", GET + FREE, note="400 waiters, three in four of them cancelled; 60 slots", **MANY)
async def slots_many(c):
    """the slots of the dead and one's own go to the oldest who still wait, however many in front do not"""
    limit, lapsed = 60, 59
    env, w, worker = await docket_with_limit(c, "slots.many", "task", [], limit, 10**7)
    now = T0
    t_ = Table(c, w, "task", 10**7, now)
    task = Task("k", T0, 1, trace=False)
    await w.put("k", "RUNNING", task, 1, worker="w-me")
    ex = await execution_from(env, task, 1, w.info["k"]["mid"])
    c.frozen = now
    live = []

    async def inside():
        for i in range(lapsed): await t_.hold(f"h{i}", now - 10**8)
        for i in range(400):
            k = f"w{i}"
            await w.put(k, "WAITING", Task(k, T0 + i, 1, args=(1, k), trace=False))
            if i % 4 != 3:
                await env.raw.hset(w.runs(k), mapping={"state": "cancelled"})
                await env.raw.hdel(w.runs(k), "known")
            else: live.append(k)
    got = await attempt(worker, ex, inside)
    post = await env.snap()
    woken = [f.get("key") for _, f in post.stream(w.stream).entries if f.get("key") != "k"]
    w.p("ran", got is None and len(live) == 100, "C11", got)
    w.p("the-oldest-who-wait", woken == live[:limit], "C11", [len(woken), woken[:70]])
    rest = [f.get("key") for _, f in post.stream(w.wstream).entries if f.get("key") in live]
    w.p("the-others-wait-on", rest == live[limit:], "C11", [len(rest)])
    await worker.__aexit__(None, None, None)


@contract("workers.many", "C27", LISTING, note="700 workers, 600 of them live", **MANY)
async def workers_many(c):
    env = await Env.make(c, heartbeat_interval=timedelta(seconds=1), missed_heartbeats=5)
    env.docket.register(job)
    w = W(env, "workers.many")
    d, r = env.docket, env.raw
    for i in range(700):
        at = ts(T0 - (10**8 if i >= 600 else i))
        await r.zadd(d.workers_set, {f"w{i}": at})
        await r.zadd(d.task_workers_set("job"), {f"w{i}": at})
        await r.sadd(d.worker_tasks_set(f"w{i}"), "job")
    c.frozen = T0
    want = sorted(f"w{i}" for i in range(600))
    w.p("listed", sorted(x.name for x in await d.workers()) == want, "C27", "")
    w.p("listed-for-the-task", sorted(x.name for x in await d.task_workers("job")) == want, "C27", "")


@contract("scatter.many", "C22", SCATTER, note="500 tasks", **MANY)
async def scatter_many(c):
    from docket.agenda import Agenda
    env = await Env.make(c)
    w = W(env, "scatter.many")
    env.docket.register(job)
    agenda = Agenda()
    for i in range(500): agenda.add(job, f"a{i}")(i)
    start, over = T0 + 10**12, c.pick(3_600_000_001, 7 * 86400 * 10**6 + 13, 1)
    c.frozen = T0
    got = await agenda.scatter(env.docket, delta(over), start=dt(start))
    post = await env.snap()
    w.p("each-exactly-once", [e.key for e in got] == [f"a{i}" for i in range(500)] and len(post.zset(w.queue)) == 500, "C22", len(got))
    off = [i for i, e in enumerate(got) if abs((us_of(e.when) - start) * 499 - over * i) > 499 * (i + 1)]
    w.p("evenly", not off, "C22", [(i, got[i].when) for i in off[:3]])


@contract("scripts.many", "C24", LUA, note="6000 values", **MANY)
async def scripts_many(c):
    env = await Env.make(c)
    w = W(env, "scripts.many")
    params = [("first", "key", str), ("more", "args", list[str])]
    fn = declare([("first", "key", str), ("more", "args", list)])
    values = {"first": w.k("probe"), "more": [f"v{i}" for i in range(6000)]}
    async with env.docket.redis() as r: await fn(r, **values)
    holds(w, params, values, (await env.snap()).hash(w.k("probe")))
