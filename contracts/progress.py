"""Contracts of progress reporting (C18)."""
from __future__ import annotations

from .world import *
from .admission import P, signed
from .lifecycle import execution_from
from .transfer import HI, a_worker
from engine import core, shims
from engine.env import Env
from .registry import contract

REPORT = ["docket._execution_progress:ExecutionProgress." + f for f in ("set_total", "increment", "set_message", "sync", "create", "_publish")] + \
         ["docket._execution_progress:_progress_write (Lua)"]


def reported(evs, w, key): return [loads(p) for ch, p in evs if ch == w.k(f"progress:{key}")]


async def begin(c, w, key, current, total, message=None, generation=1):
    """what is stored of a started execution's progress"""
    h = {"current": str(current), "total": str(total), "generation": str(generation)}
    if message is not None: h.update(message=message, updated_at=iso(10**15))
    await w.env.raw.hset(w.k(f"progress:{key}"), mapping=b(h))
    return h


@contract("progress.report", "C03 C18 C28", REPORT, weight=3)
async def report(c):
    """one report, from any stored progress, with others reporting at the same time"""
    from docket.execution import ExecutionProgress
    env = await Env.make(c)
    w = W(env, "progress.report")
    c0, t0 = c.int("c0", 0, 10**12), c.int("t0", 1, 10**12)
    m0 = c.pick(None, "before", "@ü")
    h0 = await begin(c, w, "k", c0, t0, m0, c.int("g", 1, 10**9))
    await begin(c, w, "k2", c.int("c2", 0, 10**12), c.int("t2", 1, 10**12), "other")
    p = await ExecutionProgress.create(env.docket, "k")
    w.p("read/as-stored", land(p.current == c0, p.total == t0, p.message == m0), "C18", [p.current, p.total, p.message])
    what = c.pick("total", "increment", "message", "no message")
    n = c.int("n", -10**12, 10**12)
    meddler = c.pick(None, "increment", "message") if what in ("increment", "total") else None
    other = ExecutionProgress(env.docket, "k")
    amount = c.int("amount", 1, 10**6)

    async def step(name):
        env.on_step.remove(step)
        await (other.increment(amount) if meddler == "increment" else other.set_message("meanwhile"))
    if meddler: env.on_step.append(step)
    pre = await env.snap()
    await env.drain()
    t_before = c.now_us()
    refused = False
    try:
        if what == "total": await p.set_total(n)
        elif what == "increment": await p.increment(n)
        elif what == "message": await p.set_message('after "é"')
        else: await p.set_message(None)
    except ValueError: refused = True
    if step in env.on_step: env.on_step.remove(step)
    t_after = c.last_now
    post = await env.snap()
    evs = await env.drain()
    got = post.hash(w.k("progress:k"))
    if what in ("total", "increment"):
        w.p("refused-iff-below-one", (n < 1) if refused else (n >= 1), "C18", refused)
        if refused:
            w.unchanged(pre, post, "refused/changes-nothing", "C18")
            w.p("refused/announces-nothing", not evs, "C18", evs)
            w.p("refused/keeps-its-own", land(p.current == c0, p.total == t0, p.message == m0), "C18", "")
            return
    else:
        w.p("accepted", not refused, "C18", "")
        if refused: return
    want = {"current": c0, "total": t0, "message": m0}
    if what == "increment": want["current"] = c0 + n
    if what == "total": want["total"] = n
    if what == "message": want["message"] = 'after "é"'
    if what == "no message": want["message"] = None
    if meddler == "increment": want["current"] = want["current"] + amount
    if meddler == "message": want["message"] = "meanwhile"
    w.p("stored", land(str_eq(got.get("current"), str(want["current"])), str_eq(got.get("total"), str(want["total"])),
                       got.get("message") == (want["message"].encode().decode("utf-8") if want["message"] is not None else None)), "C18", [got, what, meddler])
    w.p("owner-kept", str_eq(got.get("generation"), h0["generation"]), "C18 C03", got)
    w.p("nothing-else-stored", set(got) <= {"current", "total", "message", "updated_at", "generation"}, "C18", got)
    w.frame(pre, post, ["k"], "C18")
    w.p("no-expiry", post.ttl.get(w.k("progress:k")) is None, "C18", "")
    # what a reader sees, here and elsewhere
    reader = await ExecutionProgress.create(env.docket, "k")
    w.p("read/as-reported", land(reader.current == want["current"], reader.total == want["total"], reader.message == want["message"]), "C18", "")
    if meddler is None:
        w.p("kept-here", land(p.current == want["current"], p.total == want["total"], p.message == want["message"]), "C18", "")
        at = got.get("updated_at")
        w.p("stamped", at is not None and land(stamp(c, at) >= t_before, stamp(c, at) <= t_after), "C18", at)
        w.p("stamp-read-back", reader.updated_at is not None and reader.updated_at == p.updated_at, "C18", "")
    ev = reported(evs, w, "k")
    w.p("announced-once", len(ev) == 1 + bool(meddler) and len(evs) == len(ev), "C18", evs)
    ok = []
    for e in ev:
        base = land(e.get("type") == "progress", e.get("key") == "k")
        if meddler is None:
            ok.append(land(base, val_eq(e.get("current"), want["current"]), val_eq(e.get("total"), want["total"]), e.get("message") == want["message"],
                           e.get("updated_at") == got.get("updated_at")))
        elif what == "increment": ok.append(land(base, lor(val_eq(e.get("current"), c0 + n), val_eq(e.get("current"), want["current"]))))
        else: ok.append(land(base, val_eq(e.get("total"), n)))
    w.p("announced-as-reported", lor(*ok), "C18", [ev, want])


def stamp(c, text):
    from engine.sym import TOKEN, Sym
    m = TOKEN.fullmatch(text)
    if m: return Sym(c.tokens[text])
    from datetime import datetime, timezone
    return round((datetime.fromisoformat(text) - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() * 10**6)


@contract("progress.absent", "C18", REPORT)
async def absent(c):
    """an execution that has not started, or has ended, has no progress"""
    from docket.execution import ExecutionProgress
    env = await Env.make(c)
    w = W(env, "progress.absent")
    await begin(c, w, "k2", c.int("c2", 0, 10**6), c.int("t2", 1, 10**6), "other")
    p = ExecutionProgress(env.docket, "k")
    p.current, p.total, p.message = c.int("c0", 0, 10**6), c.int("t0", 1, 10**6), "old"
    await p.sync()
    w.p("nothing-known", land(p.current is None, p.message is None, p.updated_at is None), "C18", [p.current, p.message])


@contract("progress.dependency", "C18 C21", ["docket.dependencies._progress:Progress." + f for f in
          ("__aenter__", "set_total", "increment", "set_message", "current", "total", "message")] + REPORT, weight=3)
async def dependency(c):
    """two executions of one function at the same time: each reports on its own"""
    from docket.dependencies import FailedDependency, Progress, resolved_dependencies
    env = await Env.make(c)
    w = W(env, "progress.dependency")

    async def job(x, progress=Progress()): pass
    fn = signed(job, [P("x", P.POSITIONAL_OR_KEYWORD), P("progress", P.POSITIONAL_OR_KEYWORD, default=Progress())])
    env.docket.register(fn)
    worker = await a_worker(env)
    execs, amounts, totals = {}, {}, {}
    for key in ("k", "k2"):
        await begin(c, w, key, 0, 100)
        execs[key] = await execution_from(env, Task(key, 10**15, 1, args=(1,), kwargs={}, function=fn.__name__, trace=False), 1, "999-0")
        amounts[key], totals[key] = c.int(f"{key}_a", 1, 10**6), c.int(f"{key}_t", 1, 10**6)
    first = c.pick("k", "k2")
    second = {"k": "k2", "k2": "k"}[first]
    nested = c.choose(2, "second ends first")
    seen = {}

    async def tell(key, progress):
        await progress.increment(amounts[key])
        await progress.set_message(f"from {key}")
        await progress.set_total(totals[key])
        seen[key] = (progress.current, progress.total, progress.message)
    async with resolved_dependencies(worker, execs[first]) as d1:
        async with resolved_dependencies(worker, execs[second]) as d2:
            bad = [v for d in (d1, d2) for v in d.values() if isinstance(v, FailedDependency)]
            w.p("resolved", not bad and set(d1) == set(d2) == {"progress"}, "C18 C21", [d1, d2])
            if bad: return
            if not nested: await tell(first, d1["progress"])
            await tell(second, d2["progress"])
        if nested: await tell(first, d1["progress"])
    s = await env.snap()
    for key in ("k", "k2"):
        h = s.hash(w.k(f"progress:{key}"))
        w.p("own-execution-only", land(str_eq(h.get("current"), str(amounts[key])), str_eq(h.get("total"), str(totals[key])),
                                       h.get("message") == f"from {key}"), "C18", [key, h])
        cur, tot, msg = seen[key]
        w.p("seen-by-the-task", land(val_eq(cur, amounts[key]), val_eq(tot, totals[key]), msg == f"from {key}"), "C18", [key, seen])
    evs = await env.drain()
    for key in ("k", "k2"):
        ev = reported(evs, w, key)
        w.p("announced-for-its-own", len(ev) == 3 and all(e.get("key") == key for e in ev), "C18", ev)
    await worker.__aexit__(None, None, None)


@contract("progress.events", "C18 C28", ["docket._execution_progress:ExecutionProgress.subscribe", "docket.execution:Execution.subscribe"])
async def events(c):
    """a subscriber gets every report made since its subscription took effect, and nothing of other tasks"""
    import asyncio
    from docket.execution import ExecutionProgress
    env = await Env.make(c)
    w = W(env, "progress.events")
    n = c.int("n", 1, 10**6)
    for key in ("k", "k2"): await begin(c, w, key, 0, 100)
    mine, other = ExecutionProgress(env.docket, "k"), ExecutionProgress(env.docket, "k2")
    await mine.sync()
    through = c.pick("progress", "execution")
    ready = asyncio.Event()
    if through == "progress":
        gen, head = ExecutionProgress(env.docket, "k").subscribe(ready=ready), 0
    else:
        env.docket.register(job)
        ex = await execution_from(env, Task("k", 10**15, 1, trace=False), 1, "999-0")
        gen, head = ex.subscribe(ready=ready), 2
    reported_ = []

    async def talk():
        await other.increment(5)
        await mine.increment(n)
        await mine.set_message("half way")
        await other.set_message("no business of yours")
        await mine.set_total(7)
        reported_.append(1)

    async def step(what):
        if not reported_ and ready.is_set():
            env.on_step.remove(step)
            await talk()
    if head: env.on_step.append(step)           # as soon as it is subscribed, even before it has read the present state

    async def idle(what):
        if not reported_ and ready.is_set(): await talk()
        elif reported_: raise StopAsyncIteration
    if not head: env.on_step.append(step)
    env.on_idle = idle
    got, talking = [], None
    if not c.symbolic:                          # the real pub/sub: nobody steps between its calls, so speak from a task of its own
        env.on_step.clear()
        env.on_idle = None

        async def meanwhile():
            await asyncio.wait_for(ready.wait(), 5)
            await talk()
        talking = asyncio.ensure_future(meanwhile())
    for _ in range(head + 3): got.append(await asyncio.wait_for(gen.__anext__(), 5) if talking else await gen.__anext__())
    if talking: await talking
    w.p("subscribed-before-ready", ready.is_set(), "C18", "")
    ev = got[head:]
    w.p("every-report", land(len(ev) == 3, *[e.get("key") == "k" and e.get("type") == "progress" for e in ev],
        val_eq(ev[0]["current"], n), ev[1]["message"] == "half way", val_eq(ev[2]["total"], 7)) if len(ev) == 3 else False, "C18 C28", ev)
    if head:
        w.p("present-state-first", got[0].get("type") == "state" and got[0].get("key") == "k" and got[1].get("type") == "progress", "C28 C18", got[:2])
    await gen.aclose()
