"""Contracts of the stream's consumer group: whoever comes first makes it, at the start of the
stream, so that nothing enqueued before is missed; nobody ever disturbs one that exists."""
from __future__ import annotations

from datetime import timedelta

from .world import *
from .loop import Harness, Server
from .transfer import a_worker
from engine.env import Env
from .registry import contract


async def a_stream(w, shape, n):
    """n messages on the stream: [(id, key)]; with the group, if any, having handed out some"""
    out = []
    for i in range(n):
        k = f"k{i}"
        out.append((t(await w.env.raw.xadd(w.stream, b(Task(k, 10**15, function="job", kwargs={}).message(1)))), k))
    if shape == "handed out":
        await w.group()
        await w.env.raw.xreadgroup(groupname=GROUP, consumername="w-old", streams={w.stream: ">"}, count=1)
    return out


@contract("group", "C01 C07 C20 C29", ["docket.docket:Docket._ensure_stream_and_group", "docket.docket:Docket.worker_group_name",
                                       "docket.docket:Docket.stream_key"])
async def group(c):
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "group")
    n = c.choose(4, "messages already there")
    shape = c.pick("no group", "handed out", "not a stream") if n else c.pick("no group", "not a stream")
    if shape == "not a stream" and not n: await env.raw.set(w.stream, "odd")
    sent = await a_stream(w, shape, n) if shape != "not a stream" else []
    pre = await env.snap()
    err = None
    try:
        await env.docket._ensure_stream_and_group()
    except Exception as e:
        err = e
    if shape == "not a stream":
        if not n: w.p("failure-is-reported", err is not None, "C01", "")
        return
    w.p("succeeds", err is None, "C01 C20 C29", err)
    mid = await env.snap()
    w.p("messages-stay", [[i, k] for i, k in sent] == [[i, f["key"]] for i, f in mid.stream(w.stream).entries], "C01", "")
    if shape == "handed out": w.p("existing-one-undisturbed", val_eq(pre.stream(w.stream).pel, mid.stream(w.stream).pel), "C07 C20", "")
    for x in set(pre.v) | set(mid.v):
        if x != w.stream: w.p("nothing-else", val_eq(pre.v.get(x), mid.v.get(x)), "C01", x)
    # again, by somebody else
    await env.docket._ensure_stream_and_group()
    got = await env.raw.xreadgroup(groupname=GROUP, consumername="w-me", streams={w.stream: ">"}, count=100)
    ids = [t(i) for _, es in (got or []) for i, _ in es]
    want = [i for i, _ in sent][1 if shape == "handed out" else 0:]
    w.p("everything-before-it-is-delivered", ids == want, "C01 C20", [ids, want])


@contract("worker.joins", "C01 C20 C07", ["docket.worker:Worker._worker_loop", "docket.docket:Docket._ensure_stream_and_group"], weight=2)
async def joins(c):
    """a worker's first polls, whatever the state of the stream and its group"""
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "worker.joins")
    n = c.choose(3, "messages already there")
    shape = c.pick("no group", "gone after the first poll", "gone between the reads", *(["handed out"] if n else []))
    if shape.startswith("gone"): await w.group()
    sent = await a_stream(w, shape, n)
    worker = await a_worker(env, concurrency=5, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7))
    h = Harness(c, env, worker)
    h.install()
    polls = [0]
    async with env.docket.redis() as r:
        async def xautoclaim(**k):
            polls[0] += 1
            if polls[0] > 9: raise RuntimeError("never gets beyond asking for redeliveries")
            if polls[0] == 2 and shape == "gone after the first poll": await env.raw.delete(w.stream)
            return await r.xautoclaim(**k)

        async def xreadgroup(**k):
            if polls[0] == 2 and shape == "gone between the reads":
                # the server was emptied, and a client has added a task since
                await env.raw.delete(w.stream)
                sent.append((t(await env.raw.xadd(w.stream, b(Task("new", 10**15, function="job").message(1)))), None))
                polls[0] = 2.5
            out = await r.xreadgroup(**{x: y for x, y in k.items() if x != "block"})
            if polls[0] >= 2:
                for j in h.unfinished(): j.finished = True
                worker._worker_stopping.set()
            return out

        async def drains(aws): return [None] * len(aws)
        h.drains = h.idles = drains
        err = None
        try: await worker._worker_loop(Server(r, xautoclaim=xautoclaim, xreadgroup=xreadgroup), forever=True)
        except Exception as e: err = e
        w.p("works", err is None, "C01 C20", err)
    want = [i for i, _ in sent][1 if shape == "handed out" else 0:]
    w.p("takes-everything-not-handed-out", [j.mid for j in h.jobs] == want, "C01 C20 C07", [[j.mid for j in h.jobs], want])
    w.p("none-called-redelivered", not any(j.redelivered for j in h.jobs), "C20 C07", "")
    await worker.__aexit__(None, None, None)
    c.hooks.clear()
