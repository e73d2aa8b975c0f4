"""Contract of the due-task transfer (Worker._scheduler_loop and its script)."""
from __future__ import annotations

from .world import *
from .lifecycle import Atomic, same
from engine.env import Env
from .registry import contract

HI = 4 * 10**15


async def a_worker(env, **k):
    from docket.worker import Worker
    w = Worker(env.docket, name=k.pop("name", "w-me"), schedule_automatic_tasks=False, **k)
    await w.__aenter__()
    return w


def session(worker):
    """a processing attempt in progress"""
    from docket import worker as m
    s = m._ProcessingSession(stopping=m.asyncio.Event(), cancellation_ready=m.asyncio.Event())
    worker._processing_session = s
    return s


def one_round(c, s):
    """the loop's next wait is its last: returns the list of waits asked for"""
    waits = []

    async def wait_for(aw, timeout=None):
        aw.close()
        waits.append(timeout)
        s.stopping.set()
        return True
    c.hooks["wait_for"] = wait_for
    return waits


def iterations(record):
    """[(element, [(command, args)])] of the loops of the scripts run"""
    out, cur = [], None
    for x in record:
        if x[0] == "begin": cur = (x[1], [])
        elif x[0] == "end":
            if cur: out.append(cur)
            cur = None
        elif cur is not None: cur[1].append(x)
    return out


@contract("transfer", "C01 C02 C03 C04 C05 C06 C19 C28", ["docket.worker:Worker._scheduler_loop", "docket.worker:_stream_due_tasks (Lua)",
                                          "docket.docket:Docket.queue_key", "docket.docket:Docket.stream_key"])
async def transfer(c):
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "transfer")
    await w.group()
    n = c.choose(4, "how many scheduled")
    legacy = n == 1 and c.choose(2, "scheduled by an older client")
    keys = ['k"q\\', "k2", "k"][:n]
    tasks = {}
    for i, k in enumerate(keys):
        gen = c.int(f"{i}_G", 1, 10**9)
        tasks[k] = (Task(k, c.int(f"{i}_when", 10**6, HI), c.int(f"{i}_attempt", 1, 10**6), args=(k,), trace=i != 1), gen)
        await w.put(k, "SCHED", *tasks[k])
    if legacy:
        await env.raw.hdel(w.k(keys[0]), "generation")
    if n < 3 and c.choose(2, "a member whose message is gone"):
        await env.raw.zadd(w.queue, {"o3": ts(c.int("orphan_when", 10**6, HI))})
    await w.put("o2", "RUNNING", Task("o2", c.int("o2_when", 10**6, HI), args=(6,)), c.int("o2_G", 1, 10**9))
    worker = await a_worker(env)
    s = session(worker)
    waits = one_round(c, s)
    pre = await env.snap()
    await env.drain()
    now = c.int("now_t", NOW_LO, NOW_HI)
    c.frozen = now
    at = Atomic(w)
    env.record = []
    async with env.docket.redis() as r:
        await worker._scheduler_loop(r)
    record, env.record = env.record, None
    c.frozen = None
    post = await env.snap()
    evs = await env.drain()
    at.one_step(pre, post, "one-atomic-step", "C05 C28 C01")
    w.p("looks-again", land(len(waits) == 1, *[x > 0 for x in waits]), "C05", waits)
    for k in keys:
        task, gen = tasks[k]
        if k == keys[0] and legacy:
            # not tracked by a version: only that the message goes on to the stream whole, once
            due = task.when <= now
            ents = [f for _, f in post.stream(w.stream).entries if f.get("key") == k]
            want = {x: y for x, y in task.message(gen).items() if x != "generation"}
            if due:
                w.p("legacy/forwarded", land(len(ents) == 1, *[dict_eq({x: y for x, y in f.items() if x != "generation"}, want) for f in ents]),
                    "C05 C19", ents)
                w.p("legacy/not-scheduled-too", k not in post.zset(w.queue) and w.k(k) not in post, "C05", "")
            else:
                w.p("legacy/left-alone", not ents and k in post.zset(w.queue) and w.k(k) in post, "C05 C01", "")
            continue
        if task.when <= now:
            w.expect_queued(post, k, task, gen)
            w.expect_events(evs, k, ["queued"], name="announced-due") if n == 1 else \
                w.p("announced-due", [e.get("state") for e in w.events(evs, k)] == ["queued"], "C28", evs)
        else:
            w.p("not-due/stays", land(k in post.zset(w.queue), val_eq(post.zset(w.queue).get(k), ts(task.when)),
                                      dict_eq(post.hash(w.k(k)), pre.hash(w.k(k)))), "C05 C01", "")
            w.p("not-due/record-unchanged", dict_eq(post.hash(w.runs(k)), pre.hash(w.runs(k))), "C05 C03", "")
            w.p("not-due/not-handed-out", not [1 for _, f in post.stream(w.stream).entries if f.get("key") == k], "C05", "")
            w.p("not-due/announces-nothing", not w.events(evs, k), "C28", evs)
    w.frame(pre, post, [*keys, "o3"])
    # each round of the script's loop touches nothing but its own task's keys, and only appends to
    # the stream: rounds for distinct keys are independent, so the clauses above, shown for up to
    # three tasks in any order, hold for any number
    for k, cmds in iterations(record):
        own = {w.k(k), w.runs(k)}
        bad = [x for x in cmds if not (x[1][0] in own or (x[0] == "XADD" and x[1][0] == w.stream)
                                       or (x[0] == "PUBLISH" and x[1][0] == w.k(f"state:{k}"))
                                       or (x[0] in ("ZREM", "ZSCORE") and x[1][0] == w.queue and x[1][1:] == [k]))]
        w.p("each-round-touches-only-its-own-task", not bad, "C05 C01", bad)
    await worker.__aexit__(None, None, None)
