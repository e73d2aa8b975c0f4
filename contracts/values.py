"""Contract of a call's arguments: whatever they are, the function gets them (C19, C02, C07)."""
from __future__ import annotations

from .world import *
from .admission import P, signed
from .delivery import LOOP, Broken, run_one
from .results import VALUES, Inscrutable, alike
from .transfer import HI, a_worker, one_round, session
from engine.env import Env
from .registry import contract


@contract("values.call", "C19 C07 C02", LOOP + ["docket.docket:Docket.add", "docket.docket:Docket.replace", "docket.execution:Execution.schedule", "docket.execution:_schedule (Lua)",
          "docket.execution:Execution.as_message", "docket.worker:_stream_due_tasks (Lua)"], weight=4, sweep_factor=2)
async def call(c):
    """any values, passed in any way, over every route: at once, after its time, and again after a retry"""
    import asyncio
    from docket import Retry
    from datetime import timedelta
    env = await Env.make(c)
    w = W(env, "values.call")
    await w.group()
    x, z = VALUES[c.choose(len(VALUES))], VALUES[c.choose(2) - 2]
    route = c.pick("at once", "later", "replaced", "retried")
    seen = []

    async def task(*args, **kwargs):
        seen.append((args, kwargs))
        if route == "retried" and len(seen) == 1: raise Broken("again")
    params = [P("a", P.POSITIONAL_OR_KEYWORD), P("rest", P.VAR_POSITIONAL), P("k", P.KEYWORD_ONLY, default=5), P("extra", P.VAR_KEYWORD)]
    if route == "retried": params.insert(3, P("retry", P.KEYWORD_ONLY, default=Retry(attempts=2, delay=timedelta(0))))
    signed(task, params)
    args, kwargs = [((x,), {}), ((x, z, x), {"k": z}), ((), {"a": x, "k": x, "other": z}), ((x,), {"self": z, "key": x, "when": x, "function": z})][c.choose(4)]
    c.frozen = c.int("now_t", NOW_LO, NOW_HI)
    env.docket.register(task)
    worker = await a_worker(env, concurrency=1, minimum_check_interval=timedelta(milliseconds=1))
    if route == "replaced": await env.docket.replace(task, dt(c.frozen - 1), "k")(*args, **kwargs)
    elif route == "later":
        at = c.frozen + 10**6
        await env.docket.add(task, dt(at), "k")(*args, **kwargs)
        c.frozen = at
        s = session(worker)
        one_round(c, s)
        async with env.docket.redis() as r: await worker._scheduler_loop(r)
        c.hooks.pop("wait_for", None)
    else: await env.docket.add(task, dt(c.frozen), "k")(*args, **kwargs)
    for _ in range(1 + (route == "retried")):
        _, err = await run_one(c, env, worker)
        w.p("runs", err is None, "C07", repr(err))
    want = 1 + (route == "retried")
    w.p("called", len(seen) == want, "C07 C02", [len(seen), want])
    for a, k in seen:
        k = {n: v for n, v in k.items() if n != "retry"}
        w.p("as-given", len(a) == len(args) and all(alike(p, q) for p, q in zip(args, a)) and k.keys() == kwargs.keys() and all(alike(kwargs[n], k[n]) for n in k),
            "C19 C07 C02", [args, kwargs, a, k])
    await worker.__aexit__(None, None, None)
