"""Contracts of waiting for a result (C17)."""
from __future__ import annotations

import asyncio

from .world import *
from .delivery import LOOP, Broken, Delivery, recorder, run_one
from .lifecycle import execution_from, ttl_is
from .transfer import HI, a_worker
from engine import core, shims
from engine.env import Env
from .registry import contract

RESULT = ["docket.execution:Execution." + f for f in ("get_result", "subscribe", "sync")] + ["docket.docket:Docket.get_execution"]


class Limit:
    """stands in for asyncio's timers: what was asked for, and whether it passes first"""

    def __init__(self, c):
        self.c, self.asked, self.expires = c, [], False
        c.hooks["wait_for"] = self.wait_for

    async def wait_for(self, aw, timeout=None):
        self.asked.append((timeout, self.c.last_now))
        if self.c.symbolic:
            try:
                return await aw
            except asyncio.CancelledError:
                if not self.expires: raise
                raise asyncio.TimeoutError() from None
        if timeout is not None and self.expires: return await asyncio.wait_for(aw, 0.03)
        return await asyncio.wait_for(aw, 8)


async def meanwhile(c, env, limit, moment, happen, give_up=None):
    """let `happen` take place at the given step of what follows; the last moment is when nothing else is left to do"""
    state = {"steps": 0, "done": False}

    async def go():
        state.update(done=True, clock=c.last_now)
        if step in env.on_step: env.on_step.remove(step)
        hooks = dict(c.hooks)
        await happen()
        c.hooks.update(hooks)

    async def step(what):
        state["steps"] += 1
        if not state["done"] and state["steps"] == moment: await go()

    async def idle(what):
        if limit is not None and limit.expires: raise asyncio.CancelledError()
        if state["done"]: raise Missed()
        await go()
    if c.symbolic:
        env.on_step.append(step)
        env.on_idle = idle
    return state, go


class Missed(Exception):
    """nothing is left that could end the wait"""


@contract("result.wait", "C17 C28", RESULT + LOOP, weight=10)
async def wait(c):
    """the task ends at any moment relative to the call: exactly what it produced comes back"""
    from docket.execution import ExecutionCancelled
    how = c.pick("value", "nothing", "raises", "cancelled", "raises-unpicklable")
    d = Delivery(c, "result.wait", ("queued", "redelivered"), ttl=({}, 900))
    calls = []

    async def action():
        if how == "value": return {"answer": [1, "x"]}
        if how == "raises": raise Broken('no "luck"')
        if how == "raises-unpicklable":
            e = Broken("x")
            e.lock = __import__("threading").Lock()
            raise e
        if how == "cancelled": raise asyncio.CancelledError()
    await d.setup(recorder(calls, action), bystander=False)
    env, w = d.env, d.w
    client = await env.docket.get_execution("k")
    w.p("found", client is not None, "C17", "")
    limit, bound = Limit(c), c.pick("none", "timeout", "deadline")
    span = c.int("span", 10**6, 10**12)
    how_long = {"none": {}, "timeout": {"timeout": delta(span)}, "deadline": {}}[bound]
    if bound == "deadline":
        end = c.int("end", 10**6, HI + 10**15)
        how_long = {"deadline": dt(end)}
    moment = c.choose(7)        # 0: before the call; 6: only when there is nothing to do but wait
    limit.expires = bound != "none" and moment == 6 and bool(c.choose(2, "the limit passes first"))

    async def happen(): await run_one(c, env, d.worker)
    state, go = await meanwhile(c, env, limit, moment, happen)
    if moment == 0: await go()
    other = None
    if not c.symbolic and moment and not limit.expires:
        async def soon():
            await asyncio.sleep(0.002 * moment)
            await go()
        other = asyncio.ensure_future(soon())
    n0 = c.now_n
    first = None
    error = got = None
    try:
        got = await client.get_result(**how_long)
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        error = e
    if other: await other
    w.p("not-missed", not isinstance(error, Missed), "C17", [how, moment, state])
    expired = isinstance(error, TimeoutError)
    if limit.expires or (expired and not limit.asked):
        w.p("gives-up", expired, "C17", repr(error))
        if not limit.asked:     # the deadline had already passed
            at = end if bound == "deadline" else c.first_after(n0) + span
            w.p("gives-up/only-after-the-deadline", land(c.last_now >= at, not state["done"] or state["clock"] is not None and state["clock"] >= at), "C17", [c.last_now, at])
    else:
        w.p("no-time-out-otherwise", not expired, "C17", [repr(error), moment, bound])
        if how == "value": w.p("the-value", error is None and got == {"answer": [1, "x"]}, "C17", [repr(got), repr(error)])
        elif how == "nothing": w.p("none", error is None and got is None, "C17", [repr(got), repr(error)])
        elif how == "raises": w.p("the-exception", error == Broken('no "luck"'), "C17", repr(error))
        elif how == "raises-unpicklable": w.p("the-failure", isinstance(error, Exception) and "Broken: x" in str(error), "C17", repr(error))
        else: w.p("cancelled", isinstance(error, ExecutionCancelled), "C17", repr(error))
    for asked, now in limit.asked:
        if bound == "none": w.p("waits-forever", asked is None, "C17", asked)
        else:
            # the wait asked for ends at the deadline, to the microsecond
            at = end if bound == "deadline" else c.first_after(n0) + span
            w.p("waits-until-the-deadline", asked is not None and land(asked * 10**6 + now <= at + 1, asked * 10**6 + now >= at - 1), "C17", [asked, now, at])
    await d.worker.__aexit__(None, None, None)


@contract("result.finished", "C17", RESULT)
async def finished(c):
    """whatever is on record of a finished task"""
    import base64
    from docket.execution import ExecutionCancelled
    env = await Env.make(c)
    w = W(env, "result.finished")
    env.docket.register(job)
    phase = c.pick("COMPLETED", "FAILED", "CANCELLED", "CANCELLED_RUNNING")
    task = Task("k", c.int("when", 10**6, HI))
    await w.put("k", phase, task, c.int("g", 1, 10**9))
    await w.put("k2", "COMPLETED", Task("k2", c.int("when2", 10**6, HI)), 1)
    kept = c.choose(2, "its data is still kept")
    value = c.pick(0, "", [], {"a": None}, ValueError("as a value")) if phase == "COMPLETED" else KeyError("of old")
    keep = lambda v: {"data": base64.b64encode(cloudpickle.dumps(v)).decode("ascii")}
    await env.docket.result_storage.put("k2", keep("of another"))
    if kept: await env.docket.result_storage.put("k", keep(value))
    client = await env.docket.get_execution("k")
    limit = Limit(c)
    state, go = await meanwhile(c, env, limit, 10**6, lambda: asyncio.sleep(0))
    error = got = None
    bound = c.pick({}, {"timeout": delta(c.int("t", -10**9, 10**9))})
    try: got = await client.get_result(**bound)
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        error = e
    if phase == "COMPLETED":
        same_ = got == value or (isinstance(value, Exception) and isinstance(got, ValueError) and got.args == value.args)
        w.p("the-value", error is None and (same_ if kept else got is None), "C17", [repr(got), repr(error)])
    elif phase == "FAILED":
        if kept: w.p("the-exception", type(error) is KeyError and error.args == ("of old",), "C17", repr(error))
        else: w.p("the-recorded-failure", isinstance(error, Exception) and "ValueError: old" in str(error) and not isinstance(error, (TimeoutError, ExecutionCancelled)), "C17", repr(error))
    else: w.p("cancelled", isinstance(error, ExecutionCancelled), "C17", repr(error))


@contract("result.limits", "C17", RESULT)
async def limits(c):
    """two limits at once are refused; a limit already passed does not hide an outcome already there"""
    env = await Env.make(c)
    w = W(env, "result.limits")
    env.docket.register(job)
    phase = c.pick("SCHED", "QUEUED", "RUNNING", "WAITING")
    await w.put("k", phase, Task("k", c.int("when", 10**6, HI)), c.int("g", 1, 10**9))
    client = await env.docket.get_execution("k")
    what = c.pick("both", "passed", "passed, but finished before")
    limit = Limit(c)
    await meanwhile(c, env, limit, 10**6, lambda: asyncio.sleep(0))
    end = c.int("end", 10**6, HI)
    error = got = None
    if what == "passed, but finished before":
        rec = {"state": "failed", "error": "ValueError: old", "completed_at": iso(end - 1)}
        await env.raw.hset(w.runs("k"), mapping=b(rec))
    kw = {"both": {"timeout": delta(c.int("t", 0, 10**9)), "deadline": dt(end)}}.get(what)
    if kw is None:
        c.frozen = c.int("now", shims.NOW_LO, shims.NOW_HI)
        c.assume(c.frozen >= end)
        kw = {"deadline": dt(end)}
    pre = await env.snap()
    try: got = await client.get_result(**kw)
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        error = e
    if what == "both": w.p("both-refused", isinstance(error, ValueError), "C17", repr(error))
    elif what == "passed": w.p("gives-up-at-once", isinstance(error, TimeoutError), "C17", repr(error))
    else: w.p("outcome-before-the-deadline", isinstance(error, Exception) and "ValueError: old" in str(error), "C17", repr(error))
    w.unchanged(pre, await env.snap(), "changes-nothing", "C17")


@contract("result.at-once", "C17", RESULT + LOOP, weight=3)
async def at_once(c):
    """from the very step on that the outcome is on record, anyone asking gets exactly that outcome"""
    from docket.execution import ExecutionCancelled
    how = c.pick("value", "nothing", "raises", "cancelled", "raises-unpicklable", "unpicklable")
    d = Delivery(c, "result.at-once", ("queued", "redelivered"), ttl=({}, 900))
    calls, asked = [], []

    async def action():
        if how == "value": return {"answer": [1, "x"]}
        if how == "raises": raise Broken('no "luck"')
        if how == "unpicklable": return __import__("threading").Lock()
        if how == "raises-unpicklable":
            e = Broken("x")
            e.lock = __import__("threading").Lock()
            raise e
        if how == "cancelled": raise asyncio.CancelledError()
    await d.setup(recorder(calls, action), bystander=False)
    env, w = d.env, d.w

    async def ask(what):
        if what in ("lock", "unlock"): return
        rec = (await env.snap()).hash(w.runs("k"))
        if rec.get("state") not in ("completed", "failed", "cancelled"): return
        hooks = dict(c.hooks)
        c.hooks.pop("wait_for", None)
        client = await env.docket.get_execution("k")
        error = got = None
        try: got = await client.get_result()
        except Exception as e:
            if isinstance(e, core.Unsupported): raise
            error = e
        c.hooks.update(hooks)
        asked.append(what)
        ok = {"value": lambda: error is None and got == {"answer": [1, "x"]}, "nothing": lambda: error is None and got is None,
              "raises": lambda: error == Broken('no "luck"'), "cancelled": lambda: isinstance(error, ExecutionCancelled),
              "raises-unpicklable": lambda: isinstance(error, Exception) and "Broken: x" in str(error),
              "unpicklable": lambda: isinstance(error, Exception) and "pickle" in str(error)}[how]()
        w.p("the-outcome", ok, "C17", [how, what, repr(got), repr(error)])
    env.on_step.append(ask)
    _, err = await run_one(c, env, d.worker)
    env.on_step.remove(ask)
    w.p("asked", bool(asked) and err is None, "C17", repr(err))
    await d.worker.__aexit__(None, None, None)


def refuse(self, *a): raise AssertionError("a task's value was looked into")


class Inscrutable:
    """a value that lets nobody look into it: code that returns it unchanged treats every value alike"""
    def __init__(self, tag): self.tag = tag
    def __reduce__(self): return (Inscrutable, (self.tag,))
    __bool__ = __len__ = __eq__ = __iter__ = __hash__ = __lt__ = __int__ = __float__ = __getitem__ = __contains__ = __str__ = __add__ = refuse
    __repr__ = lambda self: "Inscrutable"


class EmptyError(Exception):
    """an exception that looks like nothing"""
    __bool__ = lambda self: False
    __len__ = lambda self: 0
    __eq__ = lambda self, o: type(o) is EmptyError and self.args == o.args
    __hash__ = Exception.__hash__


VALUES = [0, 0.0, -1, False, True, "", "None", "0", b"", b"\xff\x00", [], (), {}, set(), frozenset(), [None], {"data": None}, {"data": "x"}, 1j, 10**400, float("inf"),
          "é\n\"\\\x00", ValueError("as a value"), ValueError, Inscrutable(7), range(0), ..., {"state": "failed", "error": "x"}]
EXCEPTIONS = [ValueError(), ValueError("x", 1, None), KeyError("x"), TimeoutError("own"), EmptyError(), EmptyError("x"), OSError(2, "no such"), StopIteration("x"),
              ExceptionGroup("g", [ValueError("a"), KeyError("b")]), LookupError("x" * 5000), AssertionError(), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "x"), Exception(None)]


def alike(a, z):
    if type(a) is not type(z): return False
    if isinstance(a, Inscrutable): return a.tag == z.tag
    if isinstance(a, BaseExceptionGroup): return a.message == z.message and all(alike(x, y) for x, y in zip(a.exceptions, z.exceptions))
    if isinstance(a, BaseException): return a.args == z.args
    return a == z


@contract("result.values", "C17 C07", RESULT + LOOP, weight=3, sweep_factor=2)
async def values(c):
    """whatever the task returns or raises is what comes back"""
    from docket.execution import ExecutionCancelled
    d = Delivery(c, "result.values", ("queued",), ttl=({}, 900))
    raises = c.choose(2, "raises")
    what = (EXCEPTIONS if raises else VALUES)[c.choose(len(EXCEPTIONS if raises else VALUES))]
    calls = []

    async def action():
        if raises: raise what
        return what
    await d.setup(recorder(calls, action), bystander=False)
    env, w = d.env, d.w
    _, err = await run_one(c, env, d.worker)
    rec = (await env.snap()).hash(w.runs("k"))
    if isinstance(what, StopIteration):         # a coroutine turns it into a RuntimeError itself
        w.p("recorded", err is None and rec.get("state") == "failed", "C17 C07", [repr(err), rec])
        return
    w.p("recorded", err is None and rec.get("state") == ("failed" if raises else "completed"), "C17 C07", [repr(err), rec])
    c.hooks.pop("wait_for", None)
    client = await env.docket.get_execution("k")
    error = got = None
    try: got = await client.get_result()
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        error = e
    if raises: w.p("the-exception", error is not None and alike(what, error), "C17", [repr(what), repr(error)])
    else: w.p("the-value", error is None and alike(what, got), "C17", [repr(what), repr(got), repr(error)])
    await d.worker.__aexit__(None, None, None)


STATE = {"SCHED": "scheduled", "QUEUED": "queued", "DELIVERED": "queued", "RUNNING": "running", "WAITING": "scheduled",
         "COMPLETED": "completed", "FAILED": "failed", "CANCELLED": "cancelled", "CANCELLED_RUNNING": "cancelled"}


@contract("lookup", "C17 C19 C29 C07", RESULT)
async def lookup(c):
    """anyone holding the key finds the task as it was submitted, and as far as it has come"""
    env = await Env.make(c)
    w = W(env, "lookup")
    phase = c.pick(*PHASES)
    named = c.pick("under its own name", "under another", "not here")
    if phase in ("ABSENT", "CLEARED") and named != "under its own name": return
    name = "another name" if named == "under another" else "job"
    if named == "under its own name": env.docket.register(job)
    if named == "under another":
        env.docket.register(job)
        env.docket.register(other_job, names=[name])
    when, began = c.int("when", 10**6, HI), c.int("began", 10**6, HI)
    task = Task("k", when, c.int("attempt", 1, 10**6), function=name, args=() if c.choose(2, "no arguments") else (1, "a"), kwargs=c.pick({}, {"y": None}))
    other = Task("k2", c.int("when2", 10**6, HI), args=("of another",))
    await w.put("k2", "RUNNING", other, 1, worker="w-other")
    await w.put("k", phase, task, c.int("g", 1, 10**9), started=began)
    pre = await env.snap()
    if phase == "ABSENT" and c.choose(2, "results are still kept"):
        await env.docket.result_storage.put("k", {"data": "x"})
        pre = await env.snap()
    error = x = None
    try: x = await env.docket.get_execution("k")
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        error = e
    w.p("answers", error is None, "C17 C29", repr(error))
    w.unchanged(pre, await env.snap(), "changes-nothing", "C29 C01")
    if phase == "ABSENT":
        w.p("unknown-is-none", x is None, "C17", repr(x))
        return
    if phase == "CLEARED": return           # nothing says what its record still tells
    w.p("found", x is not None, "C17", "")
    if x is None: return
    w.p("as-submitted", land(x.key == "k", x.args == task.args, dict_eq(x.kwargs, task.kwargs), x.function_name == name), "C17 C19 C29",
        [x.key, x.args, x.kwargs, x.function_name])
    if named != "not here": w.p("its-function", x.function is (job if named == "under its own name" else other_job), "C17 C19", x.function)
    w.p("due", us_of(x.when) == when, "C29 C19", x.when)
    w.p("state", x.state.value == STATE[phase], "C07 C29", [x.state, phase])
    claimed = phase not in ("SCHED", "QUEUED", "DELIVERED", "WAITING")
    if claimed:
        w.p("worker", x.worker == "w-old", "C29 C07", x.worker)
        w.p("started", x.started_at is not None and us_of(x.started_at) == began, "C07 C29", x.started_at)
    elif phase != "WAITING": w.p("not-claimed-yet", x.worker is None and x.started_at is None, "C29 C07", [x.worker, x.started_at])
    ended = phase in ("COMPLETED", "FAILED", "CANCELLED", "CANCELLED_RUNNING")
    w.p("ended", (x.completed_at is not None) is ended, "C07 C29", x.completed_at)
    w.p("error", x.error == ("ValueError: old" if phase == "FAILED" else None), "C07 C17", x.error)
    w.p("result", x.result_key == ("k" if phase in ("COMPLETED", "FAILED") else None), "C07 C17", x.result_key)
    if phase == "RUNNING": w.p("progress", land(val_eq(x.progress.current, 3), val_eq(x.progress.total, 10)), "C18 C29", [x.progress.current, x.progress.total])
    # and the same again for someone who already has it in hand, whatever it said before
    x.state, x.worker, x.started_at, x.completed_at, x.error, x.result_key = type(x.state)("failed" if phase == "COMPLETED" else "completed"), "w-x", dt(1), dt(1), "E", "r"
    await x.sync()
    w.p("synced", x.state.value == STATE[phase] and (x.completed_at is not None) is ended and x.error == ("ValueError: old" if phase == "FAILED" else None)
        and x.result_key == ("k" if phase in ("COMPLETED", "FAILED") else None) and (x.worker == "w-old" if claimed else phase == "WAITING" or x.worker is None), "C07 C29 C17",
        [x.state, x.worker, x.completed_at, x.error, x.result_key])
    await env.raw.delete(w.runs("k"))
    await x.sync()
    w.p("synced-with-nothing", x.worker is None and x.started_at is None and x.completed_at is None and x.error is None and x.result_key is None, "C07 C29", [x.worker, x.error])


STORE = ["docket._result_store:ClusterKeyValueStore." + f for f in ("_make_key", "get", "put", "delete", "put_many", "delete_many")] + \
    ["docket._result_store:ResultStorage." + f for f in ("__aenter__", "get", "put", "delete", "put_many", "delete_many")]
DATA = [{}, {"data": "x"}, {"data": 'é"\n\\', "n": [1, None, {"y": 2.5}]}, {"data": None}]


@contract("results.store", "C17", STORE)
async def store(c):
    """one step of the results' storage, from any contents"""
    env = await Env.make(c)
    w = W(env, "results.store")
    st = env.docket.result_storage
    keys = ["k", 'k"2\\', "a:b"]
    have = {}
    for k in keys:
        v = c.pick(None, DATA[1])
        if v is not None:
            have[k] = v
            await st.put(k, v, ttl=900)
    k, v = c.pick("k", "a:b", "new"), DATA[c.choose(len(DATA))]
    what = c.pick("put", "put for good", "put many", "get", "delete", "delete many", "get many", "elsewhere")
    if what != "put" and v is not DATA[2]: return
    ttl = c.int("ttl", 1, 10**8)
    if what == "put":
        await st.put(k, v, ttl=ttl)
        have[k] = v
    elif what == "put for good":
        await st.put(k, v)
        have[k] = v
    elif what == "put many":
        await st.put_many([k, "a:b"], [v, DATA[3]], ttl=ttl)
        have.update({k: v, "a:b": DATA[3]})
    elif what == "delete":
        w.p("says-whether-it-was-there", (await st.delete(k)) == (k in have), "C17", k)
        have.pop(k, None)
    elif what == "delete many":
        n = await st.delete_many([k, "k"])
        w.p("says-how-many", n == len({k, "k"} & set(have)), "C17", n)
        for x in (k, "k"): have.pop(x, None)
    elif what == "get many":
        asked = ["a:b", k, "k", "new"]
        w.p("all-of-them-in-order", list(await st.get_many(asked)) == [have.get(x) for x in asked], "C17", [asked, have])
        found = list(await st.ttl_many(asked))
        w.p("all-of-them-in-order", [x[0] for x in found] == [have.get(x) for x in asked], "C17", [found, have])
        for x, (v_, left) in zip(asked, found):
            w.p("how-long-they-are-kept", left is None if x not in have else land(left is not None, left <= 900, left > 890), "C17", [x, left])
        w.p("nothing-asked-nothing-done", list(await st.get_many([])) == list(await st.ttl_many([])) == [] and (await st.delete_many([])) == 0, "C17")
        await st.put_many([], [], ttl=5)
    elif what == "elsewhere":
        await st.put(k, DATA[3], collection=f"{env.prefix}:elsewhere", ttl=ttl)
        w.p("collections-apart", await st.get(k, collection=f"{env.prefix}:elsewhere") == DATA[3] and await st.get("k", collection=f"{env.prefix}:nowhere") is None, "C17")
        await st.delete(k, collection=f"{env.prefix}:elsewhere")
    post = await env.snap()
    for x in (*keys, "new"):
        w.p("contents", await st.get(x) == have.get(x), "C17", [x, have])
    if what in ("put", "put many", "put for good"):
        for x in (k,) if what == "put" or what == "put for good" else (k, "a:b"):
            mine = [n for n in post.v if n.endswith(x) and "results" in n]
            w.p("kept-as-long-as-asked", len(mine) == 1 and (post.ttl.get(mine[0]) is None if what == "put for good" else ttl_is(w, post, mine[0], ttl)), "C17 C06", [mine, post.ttl])
