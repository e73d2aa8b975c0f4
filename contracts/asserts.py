"""Contracts of the assertions about a docket that tests are written with (C33)."""
from __future__ import annotations

from .world import *
from .transfer import HI
from engine import core
from engine.env import Env
from .registry import contract

T_ = "docket.testing:"
ASSERT = [T_ + f for f in ("assert_task_scheduled", "assert_task_not_scheduled", "assert_task_count", "assert_no_tasks", "_matches_criteria", "_format_criteria")]
CALLS = [((1, "a"), {"y": 2, "z": None}), ((), {}), ((1, "a"), {})]


async def holds(w, clause, coro):
    """whether an assertion holds; it either does or raises an AssertionError"""
    try: got = await coro
    except AssertionError as e:
        w.p(f"{clause}/says-what-is-wrong", bool(str(e)), "C33", repr(e))
        return False
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        w.p(f"{clause}/only-assertion-errors", False, "C33", repr(e))
        return None
    return True


@contract("asserted", "C33 C29", ASSERT + ["docket._docket_snapshot:DocketSnapshotMixin.snapshot"], weight=25, kind="unrolled",
          note="two tasks, three ways of calling, criteria from short lists; times and versions arbitrary")
async def asserted(c):
    """a task as far as it may have come, another one beside it; any question about them"""
    from docket import testing
    env = await Env.make(c)
    d = env.docket
    d.register(job)
    d.register(other_job, names=["another name"])
    w = W(env, "asserted")
    await w.group()
    phase = c.pick("ABSENT", "SCHED", "QUEUED", "DELIVERED", "RUNNING", "COMPLETED", "FAILED", "CANCELLED")
    # what has been delivered lies before what has not
    beside = c.pick(None, "QUEUED" if phase == "QUEUED" else "SCHED")
    pending = phase in ("SCHED", "QUEUED")
    args, kwargs = CALLS[c.choose(len(CALLS), "how it was called")] if phase == "QUEUED" else CALLS[0]
    name = c.pick("job", "another name") if pending else "job"
    there = []
    if phase != "ABSENT":
        await w.put("k", phase, Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), args=args, kwargs=kwargs, function=name), c.int("g", 1, 10**9))
        if pending: there.append((name, "k", args, kwargs))
    if beside:
        await w.put("k2", beside, Task("k2", 10**15, args=(7,), kwargs={"y": 3}), 1)
        there.append(("job", "k2", (7,), {"y": 3}))
    what = c.pick("scheduled", "not scheduled", "count", "none")
    pre = await env.snap()
    by = c.pick(job, "job", *(["another name", other_job, "nobody"] if pending or not c.symbolic else [])) if what != "none" else None
    called = by if isinstance(by, str) or by is None else by.__name__
    if what == "none":
        w.p("none", await holds(w, "none", testing.assert_no_tasks(d)) == (not there), "C33", [phase, beside])
    elif what == "count":
        n = c.choose(4, "how many")
        if c.choose(2, "of all"):
            w.p("count-of-all", await holds(w, "count", testing.assert_task_count(d, count=n)) == (n == len(there)), "C33", [phase, beside, n])
        else:
            w.p("count", await holds(w, "count", testing.assert_task_count(d, by, count=n)) == (n == sum(x[0] == called for x in there)), "C33", [phase, beside, called, n])
    else:
        # each criterion by itself, and two of them at once
        k = {}
        asked = c.pick((), ("key",), ("args",), ("kwargs",), *([("key", "args"), ("key", "kwargs"), ("args", "kwargs")] if called == name and pending else []))
        few = len(asked) == 2
        if "key" in asked: k["key"] = c.pick("k", "k2", *([] if few else ["k3"]))
        if "args" in asked: k["args"] = c.pick((1, "a"), (7,), *([] if few else [(), (1,)]))
        if "kwargs" in asked: k["kwargs"] = c.pick({"y": 2}, {"y": 3}, *([] if few else [{}, {"z": None}, {"other": None}]))
        found = [x for x in there if x[0] == called and k.get("key", x[1]) == x[1] and k.get("args", x[2]) == x[2]
                 and all(n in x[3] and x[3][n] == v for n, v in k.get("kwargs", {}).items())]
        f = testing.assert_task_scheduled if what == "scheduled" else testing.assert_task_not_scheduled
        w.p(what.replace(" ", "-"), await holds(w, what.replace(" ", "-"), f(d, by, **k)) == (bool(found) == (what == "scheduled")), "C33", [phase, beside, name, called, k])
    w.unchanged(pre, await env.snap(), "changes-nothing", "C33 C29")
