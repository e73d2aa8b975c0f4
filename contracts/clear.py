"""Contract of clearing a docket (C25)."""
from __future__ import annotations

from .world import *
from .lifecycle import ttl_docket
from .transfer import HI, a_worker, iterations, one_round, session
from engine.env import Env
from .registry import contract

CLEAR = ["docket.docket:Docket.clear", "docket.docket:_clear_tasks (Lua)", "docket.docket:Docket.known_task_key",
         "docket.docket:Docket.parked_task_key", "docket.docket:Docket.stream_id_key", "docket.docket:Docket.runs_key"]
AFTER = CLEAR + ["docket.docket:Docket.add", "docket.execution:Execution.schedule", "docket.execution:_schedule (Lua)"]


@contract("clear", "C25 C01 C02", AFTER, weight=4)
async def clear(c):
    """an idle docket, any mix of pending tasks; meanwhile the worker's scheduler may run, and clients may add"""
    env = await Env.make(c, **ttl_docket(c)[0])
    env.docket.register(job)
    env.docket.register(other_job)
    w = W(env, "clear")
    has_stream = c.choose(2, "a worker has been here")
    if has_stream: await w.group()
    places = {}
    n = c.choose(4, "how many pending")
    for i, k in enumerate(['k"q\\', "k2", "k"][:n]):
        places[k] = c.pick("SCHED", "QUEUED", "DELIVERED") if n < 3 else c.pick("SCHED", "QUEUED")
    tasks = {}
    for i, (k, ph) in enumerate(places.items()):
        tasks[k] = (Task(k, c.int(f"{i}_when", 10**6, HI), c.int(f"{i}_attempt", 1, 10**6), args=(k,), trace=i != 1), c.int(f"{i}_G", 1, 10**9))
        await w.put(k, ph, *tasks[k])
        if n < 3 and c.choose(2, "tried before"):
            await env.raw.hset(w.k(f"progress:{k}"), mapping=b({"current": "7", "total": "10", "generation": str(tasks[k][1])}))
        if n == 1 and c.choose(2, "scheduled by an older client"):
            await env.raw.set(w.k(f"known:{k}"), "1")
            await env.raw.set(w.k(f"stream-id:{k}"), w.info[k]["mid"] or "1-0")
    await w.put("o1", "COMPLETED", Task("o1", c.int("o1_when", 10**6, HI), args=(5,)), c.int("o1_G", 1, 10**9)) if n or has_stream else None
    meddler = c.pick(None, "scheduler", "add now", "add later") if n < 2 else c.pick(None, "scheduler")
    worker = await a_worker(env) if meddler == "scheduler" else None
    c.frozen = c.int("now_t", NOW_LO, NOW_HI)
    s = None
    added = []
    snaps = []

    async def step(what):
        if added: return
        added.append(1)
        if meddler == "scheduler":
            nonlocal s
            s = session(worker)
            one_round(c, s)
            async with env.docket.redis() as r: await worker._scheduler_loop(r)
            c.hooks.pop("wait_for", None)
        else:
            await env.docket.add(job, **({"when": dt(c.frozen + 10**7)} if meddler == "add later" else {}), key="k3")(1)
    if meddler: env.on_step.append(step)
    pre = await env.snap()
    env.record = []
    total = await env.docket.clear()
    record, env.record = env.record, None
    if meddler: env.on_step.remove(step)
    post = await env.snap()
    w.p("counted", total == n if meddler in (None, "scheduler") else total in (n, n + 1), "C25", [total, n])
    for k in places:
        rec = post.hash(w.runs(k))
        w.p("none-left", not w.copies(post, k), "C25", [k, w.copies(post, k)])
        w.p("message-gone", w.k(k) not in post, "C25", k)
        w.p("marker-gone", "known" not in rec and "stream_id" not in rec and w.k(f"known:{k}") not in post and w.k(f"stream-id:{k}") not in post, "C25 C02", rec)
        w.p("nothing-kept-forever", w.runs(k) not in post or post.ttl.get(w.runs(k)) is not None, "C25", [k, post.ttl])
        w.p("progress-gone", w.k(f"progress:{k}") not in post, "C25", k)
        if not env.docket.execution_ttl: w.p("record-gone-at-zero-retention", w.runs(k) not in post, "C25 C06", rec)
    # rounds for different tasks touch different keys, so what holds for up to three, in any order, holds for any number
    for x, cmds in iterations(record):
        own = x if isinstance(x, str) else None
        if own is None and cmds: own = next((k for k in places if any(a and a[0] == w.runs(k) for _, a in cmds)), None)
        bad = [(n_, a) for n_, a in cmds if not all(k in (w.stream, w.queue) or k.startswith(w.k("")) and k.endswith(f":{own}") for k in (a if n_ == "DEL" else a[:1]))]
        w.p("each-round-touches-only-its-own-task", not bad, "C25", [own, bad])
    mine = [*places, "k3"]
    w.frame(pre, post, mine, "C25 C01")
    if has_stream: w.p("group-kept", post.stream(w.stream).groups == pre.stream(w.stream).groups != set(), "C25", "")
    if "add" in (meddler or ""):
        # what a client adds meanwhile is either cleared too, or there
        g = post.hash(w.runs("k3")).get("generation")
        there = len(w.copies(post, "k3"))
        w.p("added-meanwhile/kept-or-cleared", there == 1 and "known" in post.hash(w.runs("k3")) if there else "known" not in post.hash(w.runs("k3")), "C25 C01", post.hash(w.runs("k3")))
        return
    # every key is free, and what is added now is delivered
    c.frozen = c.frozen + 10**6 if c.frozen is not None else None
    at = c.int("again_when", 10**6, HI)
    for k in list(places) or ["k"]:
        ex = await env.docket.add(job, when=dt(at), key=k)("again", y=3)
        from docket.execution import Disposition
        w.p("free-again", ex.disposition is Disposition.SCHEDULED, "C25 C02", k)
    again = await env.snap()
    for k in list(places) or ["k"]:
        g = again.hash(w.runs(k)).get("generation")
        task = Task(k, at, args=("again",), kwargs={"y": 3}, trace=False)
        cps = w.copies(again, k)
        w.p("added-again/once", len(cps) == 1, "C25 C02", cps)
        if not cps: continue
        if at <= c.frozen: w.p("added-again/ready", cps[0][0] == "stream", "C25 C05", cps)
        else: w.p("added-again/parked", cps[0][0] == "queue", "C25 C05", cps)
    if at <= c.frozen and has_stream:
        got = await env.raw.xreadgroup(groupname=GROUP, consumername="w-x", streams={w.stream: ">"}, count=100)
        keys = [t(f[b"key"]) for _, es in got for _, f in es]
        w.p("delivered", sorted(keys) == sorted(places or ["k"]), "C25", keys)
    if worker: await worker.__aexit__(None, None, None)


@contract("clear.running", "C25 C01 C04", CLEAR)
async def running(c):
    """tasks in a worker's hands and tasks waiting for a slot keep what they have"""
    env = await Env.make(c, **ttl_docket(c)[0])
    env.docket.register(job)
    w = W(env, "clear.running")
    await w.put("k", "RUNNING", Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6)), c.int("g", 1, 10**9))
    other = c.pick("SCHED", "QUEUED", None)
    if other: await w.put("k2", other, Task("k2", c.int("when2", 10**6, HI), args=(2,)), c.int("g2", 1, 10**9))
    if c.choose(2): await w.put("k3", "WAITING", Task("k3", c.int("when3", 10**6, HI), args=(3,)), c.int("g3", 1, 10**9))
    pre = await env.snap()
    total = await env.docket.clear()
    post = await env.snap()
    w.p("counted", total == bool(other), "C25", total)
    w.p("pending-cleared", not w.copies(post, "k2"), "C25", "")
    w.frame(pre, post, ["k2"], "C25 C01", name="running-and-waiting-untouched")
    w.p("message-kept", val_eq([e for e in post.stream(w.stream).entries if e[1].get("key") == "k"],
                               [e for e in pre.stream(w.stream).entries if e[1].get("key") == "k"]), "C25 C01", "")
