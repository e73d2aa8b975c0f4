"""Contracts of looking at a docket: snapshots (C29) and the worker list (C27)."""
from __future__ import annotations

import asyncio as real_asyncio
from datetime import timedelta

from .world import *
from .delivery import run_one
from .transfer import HI, a_worker, session
from engine import core, meters, shims
from engine.env import Env
from .registry import contract

SNAPSHOT = ["docket._docket_snapshot:DocketSnapshotMixin.snapshot", "docket._docket_snapshot:RunningExecution.__init__",
            "docket.execution:Execution.from_message"]
LISTING = ["docket._docket_snapshot:DocketSnapshotMixin.workers", "docket._docket_snapshot:DocketSnapshotMixin.task_workers"]
BEAT = ["docket.worker:Worker._heartbeat", "docket._docket_snapshot:DocketSnapshotMixin.workers_set",
        "docket._docket_snapshot:DocketSnapshotMixin.worker_tasks_set", "docket._docket_snapshot:DocketSnapshotMixin.task_workers_set"]


def about(x, task):
    """the execution is of this task"""
    return land(x.key == task.key, x.args == task.args, dict_eq(x.kwargs, task.kwargs), x.function_name == task.function,
                val_eq(us_of(x.when), task.when), val_eq(x.attempt, task.attempt))


@contract("snapshot", "C29", SNAPSHOT, weight=8)
async def snapshot(c):
    """any mix of immediate, scheduled and running tasks; nothing changes meanwhile"""
    env = await Env.make(c)
    env.docket.register(job)
    env.docket.register(other_job, names=["another name"])
    w = W(env, "snapshot")
    n = c.choose(5, "how many tasks")
    if n == 0 and c.choose(2, "no worker has been here"): pass
    else: await w.group()
    tasks = {}
    workers = {}
    # entries are handed out in order: what has been delivered lies before what has not
    left = ["RUNNING", "DELIVERED", "QUEUED", "SCHED"]
    for i, k in enumerate(['k"q\\', "k2", "k", "k3"][:n]):
        ph = c.pick(*left)
        if ph == "QUEUED": left = [p for p in left if p in ("QUEUED", "SCHED")]
        if n > 3 and ph == "DELIVERED": return
        tasks[k] = Task(k, c.int(f"{i}_when", 10**6, HI), c.int(f"{i}_attempt", 1, 10**6), args=(k, i) if i != 1 else (), trace=i != 1,
                        kwargs={} if i == 2 else None, function="another name" if i == 2 else "job")
        workers[k] = f"w-{i % 2}"
        await w.put(k, ph, tasks[k], c.int(f"{i}_G", 1, 10**9), worker=workers[k])
    if c.choose(2, "a finished one"):
        await w.put("o1", "COMPLETED", Task("o1", c.int("o1_when", 10**6, HI), args=(5,)), c.int("o1_G", 1, 10**9))
    await examined(env, w, tasks, workers)


async def examined(env, w, tasks, workers):
    pre = await env.snap()
    s = await env.docket.snapshot()
    post = await env.snap()
    n = len(tasks)
    w.p("total", s.total_tasks == n, "C29", [s.total_tasks, n])
    held = sorted(k for k in tasks if w.info[k]["phase"] in ("RUNNING", "DELIVERED"))
    free = sorted(k for k in tasks if k not in held)
    w.p("running-are-those-a-worker-holds", sorted(x.key for x in s.running) == held, "C29", [x.key for x in s.running])
    w.p("the-others-are-future", sorted(x.key for x in s.future) == free, "C29", [x.key for x in s.future])
    for x in list(s.running) + list(s.future):
        if x.key not in tasks: continue
        w.p("each-as-it-was-submitted", about(x, tasks[x.key]), "C29 C19", [x.key, x.args, x.kwargs, x.function_name])
        w.p("its-function", x.function is (job if tasks[x.key].function == "job" else other_job), "C29 C19", x.function)
    for x in s.running:
        w.p("with-the-worker-holding-it", x.worker == workers.get(x.key), "C29", [x.key, x.worker])
    # looking changes nothing (the first look at a docket may set up its stream)
    if w.stream in pre: w.unchanged(pre, post, "changes-nothing", "C29 C01")


@contract("snapshot.many", "C29", SNAPSHOT, weight=10, kind="bounded", note="one large docket, all values fixed", sweep_factor=0.1)
async def many(c):
    """a thousand immediate tasks and scheduled ones besides: no page of the answer is left out"""
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "snapshot.many")
    await w.group()
    running = c.pick(400, 1000, 0)
    tasks, workers = {}, {}
    r = env.raw
    for i in range(1300):
        k = f"t{i}"
        tasks[k] = Task(k, 1_700_000_000 * 10**6 + i, 1, args=(i,), trace=False)
        workers[k] = "w-0"
        w.info[k] = {"phase": "RUNNING" if i < running else "QUEUED" if i < 1000 else "SCHED"}
        if i == running and running: await r.xreadgroup(groupname=GROUP, consumername="w-0", streams={w.stream: ">"}, count=5000)
        if i < 1000: await r.xadd(w.stream, b(tasks[k].message(1)))
        else:
            await r.hset(w.k(k), mapping=b(tasks[k].message(1)))
            await r.zadd(w.queue, {k: ts(tasks[k].when)})
    await examined(env, w, tasks, workers)


def settings(c):
    """any heartbeat interval and number of missed heartbeats; with the age (in microseconds) they come to"""
    every, missed = c.int("every", 1000, 10**11), c.pick(1, 2, 5, 1000)
    return {"heartbeat_interval": delta(every), "missed_heartbeats": missed}, every, every * missed


@contract("workers.listing", "C27", LISTING)
async def listing(c):
    """any workers, heard from at any time"""
    kwargs, every, age = settings(c)
    env = await Env.make(c, **kwargs)
    env.docket.register(job)
    w = W(env, "workers.listing")
    d, r = env.docket, env.raw
    now = c.int("now_t", NOW_LO, NOW_HI)
    task = c.pick(None, "job", "unknown")
    seen, tasks = {}, {}
    known = set()
    for i in range(c.choose(4, "how many workers")):
        name = f"w-{i}"
        seen[name] = c.int(f"seen{i}", NOW_LO - 10**13, NOW_HI)
        c.assume(seen[name] <= now)
        tasks[name] = [{"job", "trace"}, {"job"}, {"trace", 'o"dd'}][i]
        await r.zadd(d.workers_set, {name: ts(seen[name])})
        for x in tasks[name]: await r.zadd(d.task_workers_set(x), {name: ts(seen[name])})
        await r.sadd(d.worker_tasks_set(name), *tasks[name])
    c.frozen = now
    pre = await env.snap()
    got = await (d.workers() if task is None else d.task_workers(task))
    post = await env.snap()
    want = [x for x in seen if (task is None or task in tasks[x]) and now - seen[x] < age]
    w.p("exactly-the-live-ones", sorted(x.name for x in got) == sorted(want), "C27", [[x.name for x in got], want])
    for x in got:
        if x.name not in tasks: continue
        w.p("with-its-tasks", set(x.tasks) == tasks[x.name], "C27", x)
        w.p("with-its-last-heartbeat", val_eq(us_of(x.last_seen), seen[x.name]), "C27", x)
    # it may forget the dead, nothing else
    for k in set(pre.v) | set(post.v):
        a, z = pre.zset(k), post.zset(k)
        if not a and not z:
            w.p("looking-changes-nothing-else", snap_eq(pre.v.get(k), post.v.get(k)), "C27", k)
            continue
        for m in set(a) | set(z):
            w.p("looking-keeps-the-live", m in a and (val_eq(a[m], z[m]) if m in z else now - seen.get(m, now) >= age), "C27", [k, m])


@contract("workers.heartbeat", "C27 C36", BEAT)
async def heartbeat(c):
    """one beat, with whatever earlier workers (of this name, too) have left"""
    import redis.exceptions as rx
    kwargs, every, age = settings(c)
    env = await Env.make(c, **kwargs)
    env.docket.register(job)
    env.docket.register(other_job, names=['o"dd'])
    w = W(env, "workers.heartbeat")
    d, r = env.docket, env.raw
    now = c.int("now_t", NOW_LO, NOW_HI)
    mine = set(d.tasks)
    seen = {}
    if c.choose(2, "an earlier worker of this name"):
        seen["w-me"] = c.int("seen_me", NOW_LO - 10**13, NOW_HI)
        for k in (d.workers_set, d.task_workers_set("gone"), d.task_workers_set("job")): await r.zadd(k, {"w-me": ts(seen["w-me"])})
        await r.sadd(d.worker_tasks_set("w-me"), "gone", "job")
        await r.expire(d.worker_tasks_set("w-me"), 1000)
    if c.choose(2, "another worker"):
        seen["w-2"] = c.int("seen2", NOW_LO - 10**13, NOW_HI)
        for k in (d.workers_set, d.task_workers_set("theirs"), d.task_workers_set("job")): await r.zadd(k, {"w-2": ts(seen["w-2"])})
        await r.sadd(d.worker_tasks_set("w-2"), "theirs", "job")
    for x in seen.values(): c.assume(x <= now)
    worker = await a_worker(env)
    depth = c.pick("nothing", "one later", "one of each") if not seen else "nothing"
    if depth != "nothing":
        due = c.int("due", NOW_LO - 10**13, NOW_HI + 10**13)
        await w.put("o1", "SCHED", Task("o1", due), 1)
    if depth == "one of each": await w.put("o2", "QUEUED", Task("o2", NOW_LO), 1)
    s = session(worker)
    waits = []
    # what is heard of the first beat: nothing if the server cannot be reached
    trouble = c.pick(None, rx.ConnectionError, rx.ResponseError)
    beats = 1 if trouble is None else 2

    async def wait_for(aw, timeout=None):
        aw.close()
        waits.append(timeout)
        env.on_step.clear()
        env.on_step.append(listed)
        if len(waits) >= beats:
            s.stopping.set()
            return True
        raise TimeoutError
    c.hooks["wait_for"] = wait_for
    torn = []

    async def listed(what):
        x = await env.snap()
        if any(set(x.members(d.worker_tasks_set(m))) == set() for m in x.zset(d.workers_set)): torn.append(what)

    async def fails(what):
        raise trouble("no answer")
    env.on_step.append(listed)
    if trouble: env.on_step.append(fails)
    c.frozen = now
    pre = await env.snap()
    since = len(meters.heard(c))
    await worker._heartbeat()
    env.on_step.clear()
    told = meters.heard(c)[since:]
    w.p("metrics/disruptions", meters.total(told, "docket_redis_disruptions") == (trouble is rx.ConnectionError), "C36", told)
    queue, later = ([n for x, n, a in told if x == f"docket_{y}_depth" and a.get("docket.name") == d.name] for y in ("queue", "schedule"))
    base = int(depth == "one of each")
    w.p("metrics/depth-once", len(queue) == len(later) == 1, "C36", told)
    if queue and later and depth == "nothing": w.p("metrics/depth", queue == [0] and later == [0], "C36", told)
    elif queue and later:
        at = lor(val_eq(due, now), *[] if c.symbolic else [abs(due - now) < 10])
        w.p("metrics/depth", lor(at, land(due < now, queue[-1] == base + 1, later[-1] == 0), land(due > now, queue[-1] == base, later[-1] == 1)), "C36", told)
    post = await env.snap()
    w.p("goes-on", len(waits) == beats, "C27", waits)
    # a beat well before the worker would be given up
    w.p("often-enough", land(*[x * 10**6 <= every for x in waits]) if c.symbolic else all(x <= every / 10**6 + 1e-6 for x in waits), "C27", waits)
    w.p("listed", val_eq(post.zset(d.workers_set).get("w-me"), ts(now)), "C27", post.zset(d.workers_set))
    for x in mine:
        w.p("listed-for-each-task", val_eq(post.zset(d.task_workers_set(x)).get("w-me"), ts(now)), "C27", x)
    w.p("with-its-tasks", set(post.members(d.worker_tasks_set("w-me"))) == mine, "C27", post.members(d.worker_tasks_set("w-me")))
    w.p("never-listed-without-tasks", not torn, "C27", torn)
    ttl = post.ttl.get(d.worker_tasks_set("w-me"))
    w.p("tasks-kept-while-listed", post.expires_since(d.worker_tasks_set("w-me"), pre) and (ttl is None or ttl * 1000 >= age - (0 if c.symbolic else 10**6)), "C27", [ttl, age])
    w.p("not-listed-for-others-tasks", "w-me" not in post.zset(d.task_workers_set("theirs")), "C27", "")
    for k in (d.task_workers_set("gone"),):
        if "w-me" in post.zset(k): w.p("not-renewed-for-tasks-it-lacks", val_eq(post.zset(k)["w-me"], ts(seen["w-me"])), "C27", k)
    for k in (d.workers_set, d.task_workers_set("job"), d.task_workers_set("theirs")):
        a, z = pre.zset(k), post.zset(k)
        if "w-2" in a: w.p("others-stay", val_eq(z["w-2"], a["w-2"]) if "w-2" in z else now - seen["w-2"] >= age, "C27", k)
    w.p("others-tasks-stay", post.members(d.worker_tasks_set("w-2")) == pre.members(d.worker_tasks_set("w-2")), "C27", "")
    w.p("nobody-else-listed", set(post.zset(d.workers_set)) <= {"w-me", "w-2"}, "C27", post.zset(d.workers_set))
    await worker.__aexit__(None, None, None)


@contract("workers.stopped", "C27", ["docket.worker:Worker._worker_loop", "docket.worker:Worker._remove_heartbeat"])
async def stopped(c):
    """a worker that stops is unlisted at once, whatever its heartbeat did last"""
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "workers.stopped")
    d, r = env.docket, env.raw
    await w.group()
    late = c.choose(2, "a task registered while it runs")
    other = c.choose(2, "another worker")
    if other:
        for k in (d.workers_set, d.task_workers_set("job")): await r.zadd(k, {"w-2": 1.7e9})
        await r.sadd(d.worker_tasks_set("w-2"), "job")
    worker = await a_worker(env, minimum_check_interval=timedelta(milliseconds=1))
    beating = []

    async def beat(what):
        """the heartbeat goes off now, if it still may"""
        if not beating or beating[0].cancelled_with: return
        if late and "late" not in d.tasks: d.register(other_job, names=["late"])
        for k in (d.workers_set, *map(d.task_workers_set, d.tasks)): await r.zadd(k, {"w-me": 1.7e9})
        await r.sadd(d.worker_tasks_set("w-me"), *d.tasks)
    env.on_step.append(beat)

    def create_task(coro, name):
        if role(coro) == "heartbeat":
            beating.append(shims.FakeTask(coro, name))
            return beating[-1]
        if role(coro) == "leases": return shims.FakeTask(coro, name)
        return shims.EagerTask(coro, name) if c.symbolic else real_asyncio.create_task(coro, name=name)

    async def wait_for(aw, timeout=None):
        import inspect
        if inspect.iscoroutine(aw) and aw.cr_code.co_name == "wait":
            aw.close()
            if worker._processing_session is not None: worker._processing_session.cancellation_ready.set()
            return True
        return await aw
    c.hooks["wait_for"], c.hooks["create_task"] = wait_for, create_task
    polls = [0]

    async def enough(what):
        if what == "xreadgroup":
            polls[0] += 1
            if polls[0] > 1: worker._worker_stopping.set()
    env.on_step.append(enough)
    worker._worker_stopping.clear()
    async with d.redis() as red: await worker._worker_loop(red, forever=True)
    env.on_step.clear()
    if not beating: raise core.Unsupported("the heartbeat is not a task made of Worker._heartbeat()")
    w.p("no-beat-after-stopping", bool(beating and beating[0].cancelled_with), "C27", "")
    post = await env.snap()
    w.p("unlisted", "w-me" not in post.zset(d.workers_set), "C27", post.zset(d.workers_set))
    for x in d.tasks: w.p("unlisted-for-each-task", "w-me" not in post.zset(d.task_workers_set(x)), "C27", x)
    w.p("tasks-forgotten", d.worker_tasks_set("w-me") not in post, "C27", "")
    if other:
        w.p("others-stay", "w-2" in post.zset(d.workers_set) and "w-2" in post.zset(d.task_workers_set("job")) and post.members(d.worker_tasks_set("w-2")) == {"job"},
            "C27", "")
    c.hooks.clear()
    await worker.__aexit__(None, None, None)
