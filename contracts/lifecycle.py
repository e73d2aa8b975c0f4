"""Contracts of claiming, finishing and cancelling (Execution.claim, mark_as_*, Docket.cancel,
the _claim, _terminal and _cancel_task scripts)."""
from __future__ import annotations

from .world import *
from .scheduling import bystanders
from engine import meters
from engine.env import Env
from .registry import contract

CLAIM = ["docket.execution:Execution.claim", "docket.execution:_claim (Lua)", "docket.execution:Execution.from_message",
         "docket.execution:Execution.sync", "docket._execution_progress:ExecutionProgress.sync"]
TERMINAL = ["docket.execution:Execution.mark_as_completed", "docket.execution:Execution.mark_as_failed",
            "docket.execution:Execution.mark_as_cancelled", "docket.execution:Execution._mark_as_terminal",
            "docket.execution:_terminal (Lua)"]
CANCEL = ["docket.docket:Docket.cancel", "docket.docket:Docket._cancel", "docket.docket:_cancel_task (Lua)"]
NEWER = ("SCHED", "QUEUED", "DELIVERED", "RUNNING", "WAITING", "COMPLETED", "FAILED", "CANCELLED")


async def execution_from(env, task, gen, mid, **k):
    from docket.execution import Execution
    return await Execution.from_message(env.docket, b(task.message(gen)), message_id=mid.encode(), **k)


def held(c, key="k"):
    """an arbitrary task in a worker's hands: (task, generation)"""
    return (Task(key, c.int("when", 10**6, 4 * 10**15), c.int("attempt", 1, 10**6)), c.int("g", 1, 10**9))


def newer_of(c, key="k"):
    return Task(key, c.int("newer_when", 10**6, 4 * 10**15), args=("newer",), kwargs={})


def newer_gen(c, g):
    G = c.int("G", 2, 2 * 10**9)
    c.assume(G > g)
    return G


def minus_entry(w, snap, mid):
    """the same snapshot without one stream entry and its pending record"""
    st = snap.stream(w.stream)
    st.entries[:] = [e for e in st.entries if e[0] != mid]
    st.pel.pop(mid, None)
    return snap


class Atomic:
    """collects a snapshot after every atomic step of the call"""

    def __init__(self, w):
        self.w, self.snaps = w, []
        w.env.on_step.append(self.take)

    async def take(self, what):
        if what in ("lock", "unlock"): return
        self.snaps.append(await self.w.env.snap())

    def one_step(self, pre, post, name, props, keys=None):
        """every intermediate state is the initial or the final one"""
        self.w.env.on_step.remove(self.take)
        conds = []
        for s in self.snaps:
            conds.append(lor(same(self.w, pre, s, keys), same(self.w, s, post, keys)))
        self.w.p(name, land(*conds), props, f"{len(self.snaps)} steps")


def same(w, a, z, keys=None):
    conds = []
    for k in set(a.v) | set(z.v):
        if keys is not None and k not in keys: continue
        conds.append(snap_eq(a.v.get(k), z.v.get(k)))
        if k in a.v and k in z.v:
            x, y = a.ttl.get(k), z.ttl.get(k)
            conds.append(val_eq(x, y) if w.c.symbolic else (x is None) == (y is None))
    return land(*conds)


@contract("claim", "C01 C02 C03 C04 C06 C07 C18 C19 C28 C29", CLAIM)
async def claim(c):
    rel = c.pick("queued", "redelivered", "stale", "cancelled", "record-gone")
    env = await Env.make(c)
    env.docket.register(job)
    env.docket.register(other_job)
    w = W(env, "claim")
    await bystanders(c, w)
    task, g = held(c)
    if rel == "queued":
        await w.put("k", "DELIVERED", task, g)
        mid = w.info["k"]["mid"]
        if c.choose(2):     # progress left behind by an earlier version
            await env.raw.hset(w.k("progress:k"), mapping=b({"current": "7", "total": "9", "message": "old",
                                                             "updated_at": iso(c.int("upd", 10**6, 4 * 10**15)), "generation": "1"}))
    elif rel == "redelivered":
        await w.put("k", "RUNNING", task, g)
        mid = w.info["k"]["mid"]
    elif rel == "cancelled":
        await w.put("k", "CANCELLED_RUNNING", task, g)
        mid = w.info["k"]["mid"]
    else:
        await w.group()
        mid = await w.deliver(task.message(g), "w-me")
        if rel == "stale":
            await w.put("k", c.pick(*NEWER), newer_of(c), newer_gen(c, g))
    redelivered = bool(c.choose(2))
    ex = await execution_from(env, task, g, mid, redelivered=redelivered)
    w.p("decoded/task", land(ex.key == "k", ex.args == task.args, ex.kwargs == task.kwargs, ex.function is job,
                             val_eq(ex.attempt, task.attempt), ex.when == dt(task.when), ex.function_name == "job"),
        "C19 C07", [ex.key, ex.args, ex.kwargs, ex.attempt])
    w.p("decoded/version", val_eq(ex.generation, g), "C03", "")
    w.p("decoded/message-id", ex.message_id == mid.encode(), "C06 C07", "")
    w.p("decoded/redelivered", ex.redelivered is redelivered, "C11", "")
    pre = await env.snap()
    await env.drain()
    at = Atomic(w)
    me = c.pick("w-me", 'host#1"')
    ok = await ex.claim(me)
    post = await env.snap()
    evs = await env.drain()
    at.one_step(pre, post, "one-atomic-step", "C28 C03 C04")
    st = post.stream(w.stream)
    rec = post.hash(w.runs("k"))
    if rel in ("queued", "redelivered"):
        w.p("granted", ok is True, "C01 C07")
        w.p("state", str_eq(rec.get("state"), "running"), "C28 C07 C29", rec)
        w.p("worker", str_eq(rec.get("worker"), me), "C29 C07", rec)
        started = rec.get("started_at")
        w.p("started-at", ex.started_at is not None and str_eq(started, ex.started_at.isoformat()), "C29 C07", rec)
        w.p("version-kept", str_eq(rec.get("generation"), str(g)), "C03 C01", rec)
        w.p("markers-dropped", "known" not in rec and "stream_id" not in rec, "C02 C04", rec)
        w.p("delivery-kept", any(i == mid for i, _ in st.entries) and mid in st.pel, "C01", "")
        w.p("alive", w.alive(post, "k"), "C01")
        w.p("not-acknowledged-locally", ex._acked is False, "C07 C01")
        pr = post.hash(w.k("progress:k"))
        w.p("progress/fresh", land(pr.get("current") == "0", pr.get("total") == "100", "message" not in pr,
                                   "updated_at" not in pr), "C18", pr)
        w.p("progress/owner", str_eq(pr.get("generation"), str(g)), "C18", pr)
        w.p("progress/local", land(ex.progress.current == 0, ex.progress.total == 100), "C18", "")
        w.p("record/expiry-unchanged", val_eq(post.ttl.get(w.runs("k")), pre.ttl.get(w.runs("k"))), "C01", "")
        w.expect_events(evs, "k", ["running"])
        e = [e for e in w.events(evs, "k") if e.get("type") == "state"]
        w.p("announced/worker", bool(e) and str_eq(e[0].get("worker"), me) is not False, "C28", evs)
        ex2 = await env.docket.get_execution("k")
        from docket.execution import ExecutionState
        w.p("observed", ex2 is not None and ex2.state is ExecutionState.RUNNING and ex2.worker == me, "C07 C29", "")
        w.call(rec, task)
        w.frame(pre, post, ["k"])
    else:
        w.p("refused", ok is False, "C03 C04 C07 C01")
        w.p("refused/delivery-removed", all(i != mid for i, _ in st.entries) and mid not in st.pel, "C03 C07 C04", "")
        w.p("refused/acknowledged-locally", ex._acked is True, "C07 C03")
        w.p("refused/changes-nothing-else", same(w, minus_entry(w, pre, mid), post), "C03 C01 C04 C18", "")
        w.p("refused/announces-nothing", not evs, "C28", evs)


def ttl_docket(c):
    """execution_ttl: any, of which whole seconds count; None when that is none at all"""
    from datetime import timedelta
    if c.choose(2): return {"execution_ttl": timedelta(0)}, None
    s, us = c.int("ttl_s", 0, 10**7), c.int("ttl_us", 0, 999_999)
    c.assume(lor(s > 0, us > 0))
    return {"execution_ttl": delta(s * 10**6 + us)}, s if s > 0 else None


def ttl_is(w, post, key, s):
    got = post.ttl.get(key)
    if got is None: return False
    if w.c.symbolic: return val_eq(got, s * 1000)
    return abs(got - s * 1000) <= 2000


@contract("finish", "C01 C02 C03 C04 C06 C07 C17 C18 C19 C28", TERMINAL)
async def finish(c):
    rel = c.pick("running", "unclaimed", "cancelled", "stale", "record-gone")
    ttl, ttl_s = ttl_docket(c)
    env = await Env.make(c, **ttl)
    env.docket.register(job)
    env.docket.register(other_job)
    w = W(env, "finish")
    await bystanders(c, w)
    task, g = held(c)
    phase = None
    if rel in ("running", "unclaimed", "cancelled"):
        await w.put("k", {"running": "RUNNING", "unclaimed": "DELIVERED", "cancelled": "CANCELLED_RUNNING"}[rel], task, g)
        mid = w.info["k"]["mid"]
    else:
        await w.group()
        mid = await w.deliver(task.message(g), "w-me")
        if rel == "stale":
            phase = c.pick(*NEWER)
            await w.put("k", phase, newer_of(c), newer_gen(c, g))
        elif c.choose(2):
            await env.raw.hset(w.k("progress:k"), mapping=b({"current": "7", "total": "9", "generation": str(g)}))
    ex = await execution_from(env, task, g, mid)
    how = c.pick("completed", "completed-result", "failed", "failed-error", "failed-stored", "cancelled")
    error = 'ValueError: "x"\\\n' if how in ("failed-error", "failed-stored") else None
    result_key = "k" if how in ("completed-result", "failed-stored") else None
    state = how.split("-")[0]
    pre = await env.snap()
    await env.drain()
    at = Atomic(w)
    if state == "completed": await ex.mark_as_completed(result_key=result_key) if result_key else await ex.mark_as_completed()
    elif state == "failed": await ex.mark_as_failed(error, result_key=result_key)
    else: await ex.mark_as_cancelled()
    post = await env.snap()
    evs = await env.drain()
    at.one_step(pre, post, "one-atomic-step", "C06 C01 C07")
    st, rec = post.stream(w.stream), post.hash(w.runs("k"))
    w.p("acknowledged", all(i != mid for i, _ in st.entries) and mid not in st.pel, "C06 C07 C03", st.entries)
    w.p("acknowledged-locally", ex._acked is True, "C07")
    ev = [e for e in w.events(evs, "k") if e.get("type") == "state"]
    w.p("announced", land(len(ev) == 1, *[land(e.get("state") == state, e.get("key") == "k") for e in ev]), "C06 C17 C28", evs)
    w.p("announced/error", all(e.get("error") == error for e in ev), "C28 C06", evs)
    if rel in ("stale", "record-gone"):
        w.p("stale/record-untouched", dict_eq(rec, pre.hash(w.runs("k"))), "C03 C01 C02", rec)
        w.p("stale/expiry-untouched", val_eq(post.ttl.get(w.runs("k")), pre.ttl.get(w.runs("k"))) if c.symbolic else True, "C03 C01", "")
        if rel == "stale" and w.k("progress:k") in pre:
            w.p("stale/progress-untouched", dict_eq(post.hash(w.k("progress:k")), pre.hash(w.k("progress:k"))), "C18 C03", "")
        else:
            w.p("stale/own-progress-dropped", w.k("progress:k") not in post, "C18 C06", "")
            pre.v.pop(w.k("progress:k"), None)
        w.p("stale/nothing-else", same(w, minus_entry(w, pre, mid), post), "C03 C01 C18", "")
        if phase in PENDING: w.p("stale/newer-still-there", w.alive(post, "k"), "C01 C03", "")
        return
    w.p("progress-dropped", w.k("progress:k") not in post, "C06 C18", "")
    w.frame(pre, post, ["k"])
    w.p("no-copy-left", not w.copies(post, "k"), "C06 C03", "")
    from docket.execution import ExecutionState
    w.p("local-state", ex.state is ExecutionState(state), "C06 C17", ex.state)
    if ttl_s is None:
        w.p("record-removed-at-once", w.runs("k") not in post, "C06", rec)
        return
    w.p("record/state", str_eq(rec.get("state"), state), "C06 C28 C17 C07", rec)
    done = rec.get("completed_at")
    w.p("record/completed-at", done is not None and bool(ev) and str_eq(ev[0].get("completed_at"), done), "C06", rec)
    now = c.int("now0")
    w.p("record/completed-now", done is not None and str_eq(done, iso(now)), "C06", rec)
    w.p("record/error", rec.get("error") == error, "C06 C17", rec)
    w.p("record/result", rec.get("result_key") == result_key, "C06 C17", rec)
    w.p("record/version-kept", str_eq(rec.get("generation"), str(g)), "C03", rec)
    w.p("record/addable-again", "known" not in rec and "stream_id" not in rec, "C02", rec)
    w.p("record/retention", ttl_is(w, post, w.runs("k"), ttl_s), "C06", post.ttl)
    w.call(rec, task)
    ex2 = await env.docket.get_execution("k")
    w.p("observed", ex2 is not None and ex2.state is ExecutionState(state) and ex2.error == error
        and ex2.result_key == result_key and ex2.completed_at == dt(now), "C06 C17", "")


@contract("cancel", "C01 C02 C03 C04 C06 C17 C18 C28 C36", CANCEL)
async def cancel(c):
    phase = c.pick(*PHASES)
    ttl, ttl_s = ttl_docket(c)
    env = await Env.make(c, **ttl)
    env.docket.register(job)
    env.docket.register(other_job)
    w = W(env, "cancel")
    await bystanders(c, w)
    task, g = held(c)
    await w.put("k", phase, task, g)
    stale = None
    if phase in ("SCHED", "WAITING", "COMPLETED") and c.choose(2):
        sg = c.int("g_stale", 1, 10**9)
        c.assume(sg < g)
        stale = await w.deliver(Task("k", task.when, args=("stale",)).message(sg), "w-stale")
    pre = await env.snap()
    await env.drain()
    at = Atomic(w)
    since = len(meters.heard(c))
    await env.docket.cancel("k")
    told = [(n, a.get("docket.name")) for x, n, a in meters.heard(c)[since:] if x == "docket_tasks_cancelled"]
    w.p("metrics", told == [(1, env.docket.name)], "C36", told)
    post = await env.snap()
    evs = await env.drain()
    at.one_step(pre, post, "one-atomic-step", "C04 C01 C06")
    rec, old = post.hash(w.runs("k")), pre.hash(w.runs("k"))
    finished = phase in ("COMPLETED", "FAILED", "CANCELLED", "CANCELLED_RUNNING")
    signal = [p for ch, p in evs if ch == w.k("cancel:k")]
    w.p("signal", signal == ["k"], "C04", evs)
    ev = [e for e in w.events(evs, "k") if e.get("type") == "state"]
    if finished:
        keep = ("state", "error", "result_key", "completed_at", "started_at", "worker", "generation", "when", "function", "args", "kwargs")
        if ttl_s is not None:
            w.p("finished/outcome-kept", dict_eq({f: rec.get(f) for f in keep if f in rec}, {f: old[f] for f in keep if f in old}),
                "C04 C06 C17", rec)
        w.p("finished/announces-nothing", not ev, "C28 C04", evs)
    else:
        w.p("announced", len(ev) == 1 and ev[0].get("state") == "cancelled" and ev[0].get("key") == "k", "C28 C04 C17", evs)
        if ttl_s is not None:
            w.p("record/state", str_eq(rec.get("state"), "cancelled"), "C04 C28", rec)
            w.p("record/completed-at", "completed_at" in rec and bool(ev) and str_eq(rec["completed_at"], ev[0].get("completed_at")), "C04", rec)
            if phase != "ABSENT":
                w.p("record/version-kept", str_eq(rec.get("generation"), str(g)), "C03 C04", rec)
    if ttl_s is not None:
        w.p("record/retention", ttl_is(w, post, w.runs("k"), ttl_s), "C04 C06", post.ttl)
        w.p("record/addable-again", "known" not in rec and "stream_id" not in rec, "C02 C04", rec)
    else:
        w.p("record/removed", w.runs("k") not in post, "C04 C06", rec)
    places = [(p, wh) for cnd, p, wh, m in w.live(post, "k")]
    if phase in ("SCHED", "QUEUED", "DELIVERED"):
        w.p("nothing-left-to-run", not [1 for p, wh, m in w.copies(post, "k") if wh != stale], "C04", places)
        w.p("future-queue-clean", "k" not in post.zset(w.queue) and w.k("k") not in post, "C04 C05", "")
    if phase in ("RUNNING", "CANCELLED_RUNNING"):
        mid = w.info["k"]["mid"]
        w.p("running/delivery-left-to-its-worker", any(i == mid for i, _ in post.stream(w.stream).entries)
            and mid in post.stream(w.stream).pel, "C04 C01", "")
    w.p("progress-dropped", w.k("progress:k") not in post, "C18", "")
    w.frame(pre, post, ["k"], "C04 C01 C03")


@contract("cancel.then", "C04 C03 C01 C02", CANCEL + CLAIM + ["docket.docket:Docket.add"])
async def cancel_then(c):
    """deliveries and new schedules that come after a cancellation"""
    phase = c.pick("QUEUED", "DELIVERED", "SCHED", "RUNNING")
    ttl, ttl_s = ttl_docket(c)
    env = await Env.make(c, **ttl)
    env.docket.register(job)
    w = W(env, "cancel-then")
    task, g = held(c)
    await w.put("k", phase, task, g)
    mid = w.info["k"]["mid"] or "1-1"
    ex = await execution_from(env, task, g, mid)       # already in a worker's hands
    await env.docket.cancel("k")
    again = c.choose(2)
    if again:
        when = c.int("again_when", 10**6, 4 * 10**15)
        ex2 = await env.docket.add(job, when=dt(when), key="k")("again")
        from docket.execution import Disposition
        w.p("added-again", ex2.disposition is Disposition.SCHEDULED, "C02 C04")
    ok = True
    if not (again and ttl_s is None):   # counter restarts when the record is gone: see DESIGN, assumptions
        ok = await ex.claim("w-me")
        w.p("never-starts", ok is False, "C04 C03")
    post = await env.snap()
    if again:
        w.p("new-task-unaffected", w.alive(post, "k"), "C04 C01", post.v)
        w.p("new-task-record-persists", post.ttl.get(w.runs("k")) is None, "C01 C04", "")
