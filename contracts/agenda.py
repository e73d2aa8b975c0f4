"""Contract of scattering an agenda (C22)."""
from __future__ import annotations

from .world import *
from .transfer import HI
from engine import shims
from engine.env import Env
from .registry import contract

SCATTER = ["docket.agenda:Agenda." + f for f in ("add", "scatter", "__len__", "__iter__")]


async def unregistered(q=0): return q


def plan(c, agenda, n, named):
    """n tasks of different functions, arguments and keys: [(function name, args, kwargs, key)]"""
    out = []
    for i in range(n):
        f = [job, other_job, unregistered][i % 3]
        key = f"a{i}" if (i + named) % 3 != 1 else None
        args, kwargs = [((i,), {"y": i}), ((), {"a": i}), ((), {})][i % 3]
        agenda.add("job" if f is job and named else f, *([key] if key else []))(*args, **kwargs)
        out.append((f.__name__, args, kwargs, key))
    return out


@contract("scatter", "C22", SCATTER, weight=6)
async def scatter(c):
    """every task once, in order, as itself, evenly from start to end"""
    from docket.agenda import Agenda
    env = await Env.make(c)
    w = W(env, "scatter")
    env.docket.register(job)
    env.docket.register(other_job)
    n = [0, 1, 2, 3, 4, 7][c.choose(6)]
    agenda = Agenda()
    tasks = plan(c, agenda, n, c.choose(2, "by name"))
    over = c.int("over", 1, 10**15)
    begins = c.pick("in the future", "in the past", "now") if n < 4 else c.pick("in the future", "now")
    jitter = c.pick(None, "any") if n < 4 else None
    j = c.int("jitter", 0, 10**14) if jitter else None
    kw = {}
    start = None
    if begins != "now":
        start = c.int("start", 10**6, 2 * HI)
        kw["start"] = dt(start)
        c.frozen = c.int("now", shims.NOW_LO, shims.NOW_HI)
        c.assume(start > c.frozen + (10**15 if False else 0) if begins == "in the future" else start <= c.frozen)
        if begins == "in the past" and n > 2: c.assume(start + over + (j or 0) + 9 <= c.frozen)     # all at once: no need to tell which is first
    if jitter: kw["jitter"] = delta(j)
    n0 = c.now_n
    again = begins == "in the future" and not jitter and n in (2, 3) and c.choose(2, "scattered twice")
    got = await agenda.scatter(env.docket, delta(over), **kw)
    if again: await agenda.scatter(env.docket, delta(over), start=dt(start + 1))
    if start is None and n: start = c.first_after(n0)
    w.p("all-returned", len(got) == n, "C22", got)
    w.p("agenda-kept", len(agenda) == n and [x[3] for x in agenda] == [x[3] for x in tasks], "C22", list(agenda))
    post = await env.snap()
    held = {m["key"]: m for k in list(post.v) for m in [post.hash(k)] if "key" in m and "attempt" in m}
    held.update({f["key"]: f for _, f in post.stream(w.stream).entries})
    w.p("each-exactly-once", len(post.stream(w.stream).entries) + len(post.zset(w.queue)) == n + (again and sum(x[3] is None for x in tasks)), "C22", [held, n])
    w.p("different-keys", len({e.key for e in got}) == n, "C22", [e.key for e in got])
    for i, (e, (name, args, kwargs, key)) in enumerate(zip(got, tasks)):
        m = held.get(e.key, {})
        w.p("in-order", e.function_name == name and tuple(e.args) == args and e.kwargs == kwargs and (key is None or e.key == key), "C22", [i, e, key])
        w.p("as-itself", land(m.get("function") == name, cloudpickle.loads(m["args"].encode("utf-8", "surrogateescape")) == args,
                              cloudpickle.loads(m["kwargs"].encode("utf-8", "surrogateescape")) == kwargs) if m else False, "C22", [i, m])
        at = us_of(e.when)
        # (n-1) times the exact place; the clock's microseconds round each step
        parts = n - 1 if n > 1 else 2
        k = i if n > 1 else 1
        exact, slack = start * parts + over * k, parts * (k + 1)
        if jitter:
            w.p("jitter/not-before-start", at >= start, "C22", [i, at, start])
            w.p("jitter/within", land((at - j) * parts <= exact + slack, (at + j) * parts >= exact - slack), "C22", [i, at, j])
        else: w.p("evenly", land(at * parts <= exact + slack, at * parts >= exact - slack), "C22", [i, at, start, over])
        w.p("due-as-returned", val_eq(message_us(m), at) if m else False, "C22", [i, m])


def message_us(m):
    from .handlers import message_when
    return message_when(m)


@contract("scatter.refused", "C22", SCATTER)
async def refused(c):
    """an unknown name or an empty window: nothing is scheduled at all"""
    from docket.agenda import Agenda
    env = await Env.make(c)
    w = W(env, "scatter.refused")
    env.docket.register(job)
    n = c.choose(4)
    what = c.pick("name", "window")
    agenda = Agenda()
    bad = c.choose(n) if what == "name" and n else None
    if what == "name" and not n: return
    for i in range(n): agenda.add("no such task" if i == bad else "job" if i % 2 else job, f"a{i}")(i)
    over = c.int("over", -10**15, 0) if what == "window" else c.int("over", 1, 10**15)
    pre = await env.snap()
    kw = {"start": dt(c.int("start", 10**6, HI))} if c.choose(2) else {}
    if c.choose(2): kw["jitter"] = delta(c.int("jitter", 1, 10**12))
    try:
        await agenda.scatter(env.docket, delta(over), **kw)
        said = None
    except Exception as e: said = e
    w.p("refused", isinstance(said, KeyError if what == "name" else ValueError), "C22", repr(said))
    w.unchanged(pre, await env.snap(), "nothing-scheduled", "C22")
