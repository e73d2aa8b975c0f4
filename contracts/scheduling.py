"""Contracts of add, replace, retry/reschedule re-routing (Docket.add/replace, Execution.schedule,
the _schedule script)."""
from __future__ import annotations

from .world import *
from engine import meters
from engine.env import Env
from .registry import contract

FUNCS = ["docket.docket:Docket.add", "docket.docket:Docket.replace", "docket.docket:Docket.schedule", "docket.execution:Execution.schedule",
         "docket.execution:Execution.as_message", "docket.execution:_schedule (Lua)",
         "docket._lua:redis_script.wrapper"]


def metrics(c, w, since, want):
    """what the docket reports of a request: how often it was added, replaced, scheduled, turned away"""
    names = ("added", "replaced", "scheduled", "stricken")
    got = {x: meters.total(meters.heard(c)[since:], f"docket_tasks_{x}") for x in names}
    w.p("metrics", got == {**dict.fromkeys(names, 0), **want}, "C36", got)
    labels = [a for x, _, a in meters.heard(c)[since:] if x in {f"docket_tasks_{n}" for n in names}]
    w.p("metrics/by-name", all(a.get("docket.name") == w.env.docket.name and a.get("docket.task") == "job" for a in labels), "C36", labels)


async def base(c, op, phase, key="k", **kw):
    env = await Env.make(c, **kw)
    env.docket.register(job)
    env.docket.register(other_job)
    w = W(env, op)
    G = c.int("G", 1, 10**9)
    old = Task(key, c.int("old_when", 10**6, 4 * 10**15), c.int("old_attempt", 1, 10**6), args=("old",), kwargs={})
    await w.put(key, phase, old, G)
    return env, w, G, old


async def bystanders(c, w):
    """one arbitrary scheduled and one arbitrary delivered task of other keys"""
    await w.put("o1", "SCHED", Task("o1", c.int("o1_when", 10**6, 4 * 10**15), args=(5,)), c.int("o1_G", 1, 10**9))
    await w.put("o2", "RUNNING", Task("o2", c.int("o2_when", 10**6, 4 * 10**15), args=(6,)), c.int("o2_G", 1, 10**9))


async def stale_copies(c, w, env, key, G, phase):
    """an older version's delivery may still be in some worker's hands"""
    if phase == "ABSENT" or not c.choose(2, "stale delivery"): return None
    g = c.int("g_stale", 1, 10**9)
    c.assume(g < G)
    task = Task(key, c.int("stale_when", 10**6, 4 * 10**15), 1, args=("stale",), kwargs={})
    mid = await w.deliver(task.message(g), "w-stale")
    return mid


@contract("add", "C01 C02 C03 C05 C06 C19 C28 C04 C36", FUNCS)
async def add(c):
    phase = c.pick(*PHASES)
    env, w, G, old = await base(c, "add", phase)
    stale = await stale_copies(c, w, env, "k", G, phase)
    await bystanders(c, w)
    when = c.int("when", 10**6, 4 * 10**15)
    new = Task("k", when, args=(7, "new"), kwargs={"y": 9}, trace=False)
    pre = await env.snap()
    await env.drain()
    from docket.execution import Execution
    how = c.pick("function", "name", "an execution of its own")
    since = len(meters.heard(c))
    if how == "an execution of its own":
        ex = Execution(env.docket, job, (7, "new"), {"y": 9}, "k", dt(when), 1)
        await env.docket.schedule(ex)
    else:
        ex = await env.docket.add(job if how == "function" else "job", when=dt(when), key="k")(7, "new", y=9)
    post = await env.snap()
    evs = await env.drain()
    from docket.execution import Disposition
    own = how == "an execution of its own"
    metrics(c, w, since, {"added": 0 if own else 1, "scheduled": int(phase not in UNFINISHED)})
    if phase in UNFINISHED:
        w.unchanged(pre, post, "duplicate/changes-nothing", "C02 C01 C03")
        w.p("duplicate/reported", ex.disposition is Disposition.ALREADY_SCHEDULED, "C02")
        w.p("duplicate/announces-nothing", not evs, "C28", evs)
        return
    now = c.int("now0")
    G1 = G + 1 if phase != "ABSENT" else 1
    w.p("fresh/reported", ex.disposition is Disposition.SCHEDULED, "C02")
    if when <= now:
        w.expect_queued(post, "k", new, G1, trace=False)
        w.expect_events(evs, "k", ["queued"])
    else:
        w.expect_sched(post, "k", new, G1, trace=False)
        w.expect_events(evs, "k", ["scheduled"])
    w.frame(pre, post, ["k"])


@contract("replace", "C01 C02 C03 C05 C06 C19 C28 C04 C36", FUNCS)
async def replace(c):
    phase = c.pick(*PHASES)
    env, w, G, old = await base(c, "replace", phase)
    stale = await stale_copies(c, w, env, "k", G, phase)
    await bystanders(c, w)
    when = c.int("when", 10**6, 4 * 10**15)
    new = Task("k", when, args=(7, "new"), kwargs={"y": 9}, trace=False)
    pre = await env.snap()
    await env.drain()
    since = len(meters.heard(c))
    ex = await env.docket.replace(c.pick(job, "job"), dt(when), "k")(7, "new", y=9)
    metrics(c, w, since, {"replaced": 1, "scheduled": 1})
    post = await env.snap()
    evs = await env.drain()
    from docket.execution import Disposition
    now = c.int("now0")
    G1 = G + 1 if phase != "ABSENT" else 1
    w.p("reported", ex.disposition is Disposition.SCHEDULED, "C02 C03")
    if when <= now:
        w.expect_queued(post, "k", new, G1, trace=False)
        w.expect_events(evs, "k", ["queued"])
    else:
        w.expect_sched(post, "k", new, G1, trace=False)
        w.expect_events(evs, "k", ["scheduled"])
    if phase in ("QUEUED", "DELIVERED"):
        mid = w.info["k"]["mid"]
        w.p("old-copy-removed", all(i != mid for i, _ in post.stream(w.stream).entries), "C03", "")
    w.frame(pre, post, ["k"])


@contract("add.struck", "C02 C15 C28 C01 C36", ["docket.docket:Docket.add", "docket.docket:Docket.replace",
                                    "docket.docket:Docket.schedule", "docket.strikelist:StrikeList.is_stricken"])
async def add_struck(c):
    phase = c.pick(*PHASES)
    env, w, G, old = await base(c, "struck", phase)
    await bystanders(c, w)
    when = c.int("when", 10**6, 4 * 10**15)
    from docket.strikelist import Strike
    env.docket.strike_list.update(c.pick(_strike("job"), Strike("job", "x", "==", 7), Strike(None, "z", "!=", "y"), Strike(None, "y", "<=", 0)))
    how = c.pick("add", "replace", "schedule")
    since = len(meters.heard(c))
    pre = await env.snap()
    await env.drain()
    from docket.execution import Disposition, Execution
    if how == "add":
        ex = await env.docket.add(job, when=dt(when), key="k")(7)
    elif how == "replace":
        ex = await env.docket.replace(job, dt(when), "k")(7)
    else:
        ex = Execution(env.docket, job, (7,), {}, "k", dt(when), 1)
        await env.docket.schedule(ex)
    post = await env.snap()
    w.unchanged(pre, post, "touches-nothing", "C02 C15 C01")
    metrics(c, w, since, {"stricken": 1})
    w.p("reported", ex.disposition is Disposition.STRUCK, "C02 C15")
    w.p("announces-nothing", not await env.drain(), "C28 C02")


def _strike(f):
    from docket.strikelist import Strike
    return Strike(f, None, "==", None)


@contract("reschedule", "C01 C02 C03 C04 C05 C06 C07 C08 C19 C28", FUNCS[2:])
async def reschedule(c):
    """a worker re-routes the delivery it holds (retry, admission reschedule)"""
    relation = c.pick("current", "stale", "cancelled", "record-gone", "cancelled-restarted")
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "reschedule")
    await bystanders(c, w)
    g = c.int("g", 1, 10**9)
    when = c.int("when", 10**6, 4 * 10**15)
    attempt = c.int("attempt", 1, 10**6)
    task = Task("k", when, attempt, trace=False)
    newer = Task("k", c.int("newer_when", 10**6, 4 * 10**15), args=("newer",), kwargs={})
    if relation == "current":
        await w.put("k", "RUNNING", task, g)
        mid = w.info["k"]["mid"]
        G = g
    elif relation == "cancelled":
        await w.put("k", "CANCELLED_RUNNING", task, g)
        mid = w.info["k"]["mid"]
        G = g
    else:
        await w.group()
        mid = await w.deliver(task.message(g), "w-me")
        if relation != "record-gone":
            G = c.int("G", 1, 10**9)
            c.assume(G > g)
            phase = c.pick("SCHED", "QUEUED", "DELIVERED", "RUNNING", "WAITING", "COMPLETED", "CANCELLED")
            await w.put("k", phase, newer, G)
    from docket.execution import Execution, Disposition
    ex = Execution(env.docket, job, task.args, task.kwargs, "k", dt(when), attempt, generation=g,
                   message_id=mid.encode())
    pre = await env.snap()
    await env.drain()
    await ex.schedule(reschedule_message=mid.encode())
    post = await env.snap()
    evs = await env.drain()
    st = post.stream(w.stream)
    w.p("delivery-removed", all(i != mid for i, _ in st.entries) and mid not in st.pel, "C03 C07 C01", st.entries)
    w.p("delivery-acknowledged-locally", ex._acked is True, "C07")
    if relation == "current":
        now = c.int("now0")
        if when <= now:
            w.expect_queued(post, "k", task, g + 1, trace=False)
            w.expect_events(evs, "k", ["queued"])
        else:
            w.expect_sched(post, "k", task, g + 1, trace=False)
            w.expect_events(evs, "k", ["scheduled"])
        w.p("not-running-any-more", "worker" not in post.hash(w.runs("k")), "C06 C29")
        w.frame(pre, post, ["k"])
    elif relation == "cancelled":
        # a retry the worker decided on while the cancellation arrived: either outcome keeps
        # the docket consistent; what matters is that nothing is half-done
        n = [x for x in w.copies(post, "k")]
        w.p("cancelled/consistent", len(n) <= 1, "C04 C01", n)
    else:
        drop = [x for x in pre.v]
        pre.stream(w.stream).entries[:] = [e for e in pre.stream(w.stream).entries if e[0] != mid]
        pre.stream(w.stream).pel.pop(mid, None)
        w.unchanged(pre, post, "stale/newer-version-untouched", "C03 C01 C04")
        w.p("stale/announces-nothing", not evs, "C28 C03", evs)
