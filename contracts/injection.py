"""Contracts of dependency resolution around one delivery (C21)."""
from __future__ import annotations

import inspect
from contextlib import asynccontextmanager, contextmanager

from .world import *
from .lifecycle import ttl_docket
from .transfer import HI
from .delivery import LOOP, Broken, Delivery
from .registry import contract

P = inspect.Parameter
RESOLUTION = ["docket.dependencies._resolution:" + f for f in
              ("resolved_dependencies", "_passed_by_position", "_argument_value", "detect_single_conflicts", "_single_bases",
               "validate_worker_dependencies", "get_single_dependency_of_type")] + [
    "docket.dependencies._functional:_Depends._resolve_parameters", "docket.dependencies._contextual:_TaskArgument.__aenter__",
    "docket.worker:Worker.validate_task_dependencies", "docket.execution:Execution.get_argument"]


def signed(fn, params):
    fn.__signature__ = inspect.Signature(params)
    fn.__annotations__ = {p.name: p.annotation for p in params if p.annotation is not P.empty}
    return fn


@contract("dependencies", "C01 C03 C06 C07 C17 C18 C19 C21 C28", LOOP + RESOLUTION, weight=20)
async def dependencies(c):
    """every declared dependency, in every place, is entered before the function and exited in
    reverse afterwards, or the function does not run and the failure names what failed"""
    from typing import Annotated, Any
    from docket import CurrentDocket, CurrentExecution, CurrentWorker, Depends, TaskArgument, TaskKey
    from docket.dependencies import Dependency
    d = Delivery(c, "dependencies", rels=("queued",), ttl=({}, 900))
    fails = c.pick("nothing", "wd", "p", "q", "shared", "r", "note", "plain", "body", "exit-q", "exit-p", "cancelled")
    override = c.pick("nothing", "by keyword", "by position") if fails in ("nothing", "q", "body") else "nothing"
    explicit = c.pick("explicit", None, 0, [], {}) if override == "by keyword" else None
    log, calls, seen = [], [], {}

    def enter(name):
        log.append(("enter", name))
        if fails == name: raise Broken(name)

    def leave(name):
        log.append(("exit", name))
        if fails == f"exit-{name}": raise Broken(f"exit {name}")

    class Thing(Dependency):
        def __init__(self, name): self.name = name

        async def __aenter__(self):
            enter(self.name)
            return f"<{self.name}>"

        async def __aexit__(self, *a): leave(self.name)

        def bind_to_parameter(self, parameter, value):
            seen[self.name] = (parameter, value)
            return self

    @asynccontextmanager
    async def shared():
        enter("shared")
        try: yield object()
        finally: leave("shared")

    @asynccontextmanager
    async def q(s=Depends(shared), x=TaskArgument(), other=TaskArgument("z"), none=TaskArgument("nowhere", optional=True)):
        seen["q"] = (s, x, other, none)
        enter("q")
        try: yield "<q>"
        finally: leave("q")

    @contextmanager
    def r(s=Depends(shared)):
        seen["r"] = s
        enter("r")
        try: yield "<r>"
        finally: leave("r")

    async def plain():
        enter("plain")
        return "<plain>"

    def own(): return "<_>"

    async def job(x, z="z", *, y=0, **more):
        calls.append(((x, z), y, more))
        log.append(("body", ""))
        if fails == "body": raise Broken("body")
        if fails == "cancelled":
            import asyncio
            raise asyncio.CancelledError()
        return 5
    K = P.KEYWORD_ONLY
    signed(job, [P("x", P.POSITIONAL_OR_KEYWORD, annotation=Annotated[int, Thing("note")]),
                 P("z", P.POSITIONAL_OR_KEYWORD, default=Thing("pos") if override == "by position" else "z"),
                 P("y", K, default=0), P("p", K, default=Thing("p")), P("q", K, default=Depends(q)), P("r", K, default=Depends(r)),
                 P("plain", K, default=Depends(plain)), P("__own", K, default=Thing("__own")), P("_", K, default=Depends(own)), P("doc", K, default=CurrentDocket()), P("wrk", K, default=CurrentWorker()),
                 P("exe", K, default=CurrentExecution()), P("key", K, default=TaskKey()), P("arg", K, default=TaskArgument("y"))])
    kwargs = {"y": 2, "p": explicit, "plain": explicit, "_": explicit} if override == "by keyword" else {"y": 2}
    w = await d.setup(job, {"dependencies": {"wd": Thing("wd")}}, bystander=False,
                      task=Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), kwargs=kwargs))
    await d.go()
    entered = [n for k, n in log if k == "enter"]
    exited = [n for k, n in log if k == "exit"]
    bodies = [i for i, x in enumerate(log) if x[0] == "body"]
    stays = [n for n in entered if n != "plain" and n != fails]      # what entered successfully and has an exit
    w.p("exited-in-reverse", exited == stays[::-1], "C21", log)
    broken = fails in ("wd", "p", "q", "shared", "r", "note", "plain")
    d.acknowledged("C07 C21")
    d.no_error()
    if broken:
        w.p("failed-dependency/not-called", not calls, "C21 C07", calls)
        names = {"shared": ["q", "r"], "note": ["x"]}.get(fails, [fails])
        kept, _ = await d.env.result("k")
        data = {} if kept is None else {"k": kept}
        import base64, cloudpickle
        got = cloudpickle.loads(base64.b64decode(data["k"]["data"])) if "k" in data else None
        err = d.post.hash(w.runs("k")).get("error", "")
        w.p("failed-dependency/recorded-as-failed", str_eq(d.post.hash(w.runs("k")).get("state"), "failed"), "C21 C07", "")
        import re
        w.p("failed-dependency/named", all(re.search(rf"\b{n}\b", err.split(":", 1)[-1]) for n in names), "C21", err)
        w.p("failed-dependency/only-those-named", not [n for n in ("wd", "p", "q", "r", "x", "plain", "doc") if n not in names and
                                                       re.search(rf"\b{n}\b", err.split(":", 2)[-1].split("(")[0])], "C21", err)
        w.p("failed-dependency/error-kept", isinstance(got, ExceptionGroup) and all(e == Broken(fails) for e in got.exceptions), "C21 C17", got)
    else:
        w.p("called-once", len(calls) == 1 and len(bodies) == 1, "C21 C07", log)
        want = ["wd", "shared", "q", "r", "__own", "note"] + ["p", "plain"] * (override != "by keyword")
        w.p("all-entered-once-before", sorted(n for k, n in log[:bodies[0] if bodies else 0] if k == "enter") == sorted(want) and len(entered) == len(want),
            "C21", log)
        w.p("none-exited-before", not [1 for k, n in log[:bodies[0] if bodies else 0] if k == "exit"], "C21", log)
        (args, y, more), = calls[:1] or [((), None, {})]
        w.p("arguments", args == (1, "a") and y == 2, "C21 C07 C19", calls)
        w.p("values", more.get("p", 1) == (explicit if override == "by keyword" else "<p>") and more.get("q") == "<q>" and more.get("r") == "<r>"
            and more.get("plain", 1) == (explicit if override == "by keyword" else "<plain>") and more.get("__own") == "<__own>"
            and more.get("_", 1) == (explicit if override == "by keyword" else "<_>") and more.get("arg") == 2, "C21", more)
        w.p("context", more.get("doc") is d.env.docket and more.get("wrk") is d.worker and more.get("key") == "k" and
            getattr(more.get("exe"), "key", None) == "k", "C21", more)
        w.p("nothing-else-passed", set(more) == {"p", "q", "r", "plain", "__own", "_", "doc", "wrk", "exe", "key", "arg"}, "C21 C07", more)
        if "q" in seen:
            w.p("nested-values", seen["q"][1:] == (1, "a", None), "C21", seen)
            w.p("shared-once", seen["q"][0] is seen.get("r"), "C21", seen)
        w.p("bound-to-the-argument", seen.get("note") == ("x", 1), "C21 C14", seen)
        if fails == "cancelled": await d.finished("cancelled")
        elif fails in ("nothing", "exit-q", "exit-p"): await d.finished("completed", stored=lambda v: v == 5)
        elif fails == "body": await d.finished("failed", error="Broken: body", stored=lambda v: v == Broken("body"))
    await d.worker.__aexit__(None, None, None)


@contract("singles", "C01 C06 C07 C21", LOOP + RESOLUTION, weight=10)
async def singles(c):
    """two dependencies of a kind that may appear once are rejected wherever they are declared"""
    from datetime import timedelta
    from typing import Annotated
    from docket import ExponentialRetry, Retry, Timeout
    from docket.dependencies import FailureHandler, Runtime
    d = Delivery(c, "singles", rels=("queued",), ttl=({}, 900))

    class Other(FailureHandler):
        async def handle_failure(self, execution, outcome): return False
        async def __aenter__(self): return self

    class Clock(Runtime):
        async def __aenter__(self): return self
        async def run(self, execution, function, args, kwargs): return await function(*args, **kwargs)
    a, z = c.pick((Retry(attempts=3), Retry(attempts=2)), (Retry(attempts=3), ExponentialRetry(attempts=2)),
                  (Other(), ExponentialRetry(attempts=3)), (Timeout(timedelta(days=1000)), Clock()),
                  (Timeout(timedelta(days=1000)), Timeout(timedelta(days=1001))), (Retry(attempts=2), Timeout(timedelta(days=1000))))
    allowed = isinstance(a, Retry) and isinstance(z, Timeout)
    if c.choose(2, "swapped"): a, z = z, a
    places = c.pick(("parameter", "parameter"), ("parameter", "worker"), ("worker", "worker"), ("annotation", "worker"),
                    ("annotation", "parameter"), ("annotation", "annotation"))
    calls = []

    async def job(x, z="z", *, y=0, **more):
        calls.append(1)
    notes, params, deps = [], [], {}
    for i, (dep, place) in enumerate(zip((a, z), places)):
        if place == "parameter": params.append(P(f"p{i}", P.KEYWORD_ONLY, default=dep))
        elif place == "worker": deps[f"w{i}"] = dep
        else: notes.append(dep)
    ann = Annotated[tuple([int, *notes])] if notes else int
    signed(job, [P("x", P.POSITIONAL_OR_KEYWORD, annotation=ann), P("z", P.POSITIONAL_OR_KEYWORD, default="z"),
                 P("y", P.KEYWORD_ONLY, default=0), *params])
    try:
        w = await d.setup(job, {"dependencies": deps} if deps else None, bystander=False)
    except ValueError:
        # refused when declared
        c.prove("singles/refused-only-if-conflicting", not allowed, "C21", places)
        return
    await d.go()
    if allowed:
        w.p("allowed/called", len(calls) == 1, "C21 C07", calls)
    else:
        w.p("conflict/not-called", not calls, "C21", [places, a, z])
        # a retry policy among them may still decide to try again later
        w.p("conflict/failed-or-retried", d.post.hash(w.runs("k")).get("state") in ("failed", "queued", "scheduled"), "C21 C07", d.post.hash(w.runs("k")))
        d.acknowledged("C07 C21")
    d.no_error()
    await d.worker.__aexit__(None, None, None)
