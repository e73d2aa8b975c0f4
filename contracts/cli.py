"""Contracts of the command line (C34)."""
from __future__ import annotations

import asyncio
import io
import logging
import os
import re
from datetime import datetime, timedelta, timezone

from .world import *
from .transfer import HI
from engine import core, shims
from engine.core import Unsupported
from engine.env import Env
from .registry import contract

import docket.cli
import docket.cli._support

C_, S_ = "docket.cli:", "docket.cli._support:"


class Stuck(Exception):
    """everything waits for something that will not happen"""


class VirtualLoop(asyncio.SelectorEventLoop):
    """an event loop whose clock jumps to the next thing to happen"""

    def __init__(self):
        super().__init__()
        self.t = 0.0
        select = self._selector.select

        def jump(timeout):
            if timeout is None: raise Stuck("waits for ever")
            self.t += max(timeout, 0)
            if self.t > 3600: raise Stuck("goes on for an hour")
            return select(0)
        self._selector.select = jump

    def time(self): return self.t


def run(coro, loop=None, close=True):
    """asyncio.run, also from within another loop"""
    running = asyncio._get_running_loop()
    asyncio._set_running_loop(None)
    loop = loop or VirtualLoop()
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            if not close: raise Stuck
            for t in asyncio.all_tasks(loop): t.cancel()
            loop.run_until_complete(asyncio.sleep(0))
            loop.run_until_complete(loop.shutdown_asyncgens())
        except Stuck: pass
        if close: loop.close()
        asyncio._set_running_loop(running)


class AsyncioWith:
    """asyncio, running main programs on a virtual clock"""
    def __init__(self, loop=None): self.loop = loop
    def run(self, coro, **k): return run(coro, self.loop)
    def __getattr__(self, n): return getattr(asyncio, n)


def as_it_is(loop=None):
    """asyncio and the clocks as they are, but main programs on a loop of our own"""
    shims.suspend()
    shims.rebind(asyncio, AsyncioWith(loop))
    shims.rebind(asyncio.run, AsyncioWith(loop).run)


REAL = dict(Docket=docket.cli.Docket, Worker=docket.cli.Worker)


class Recorder:
    """stands in for the library: what was asked of which docket"""

    def __init__(self): self.made, self.asked, self.closed = [], [], 0

    def replies(self, name, a, k): return None

    def docket(rec):
        class Docket:
            def __init__(self, name="docket", url="redis://localhost:6379/0", **k):
                self.name, self.url = name, url
                rec.made.append((name, url))

            async def __aenter__(self): return self
            async def __aexit__(self, *a): rec.closed += 1

            def register_collection(self, path): rec.asked.append(("register_collection", (path,), {}))

            def add(self, f, when=None, key=None):
                async def call(*a, **k):
                    rec.asked.append(("add", (f, when, key, a, k), {}))
                    return type("Execution", (), {"key": "the-key"})()
                return call

            def __getattr__(self, n):
                async def call(*a, **k):
                    rec.asked.append((n, a, k))
                    return rec.replies(n, a, k)
                return call
        return Docket


def bind(signature, a, k):
    """the arguments of a call by name"""
    out = dict(zip(signature, a))
    out.update(k)
    return out


def invoke(c, args, env=None):
    """the command line as a user runs it: how it ended, what it printed"""
    from typer.testing import CliRunner
    kept = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith("DOCKET_")}
    root, handlers, level = logging.getLogger(), logging.getLogger().handlers[:], logging.getLogger().level
    try:
        r = CliRunner().invoke(docket.cli.app, args, env={"COLUMNS": "300", "TERM": "dumb", **(env or {})})
    finally:
        os.environ.update(kept)
        root.handlers[:] = handlers
        root.setLevel(level)
    e = r.exception
    while e is not None:
        if isinstance(e, Unsupported): raise e
        e = e.__cause__ or e.__context__
    return r


WORDS = ["some_task", "with space", "-dash"]
VALUES = [(None, None), ("plain", "plain"), ("int:42", 42), ("bool:TRUE", True), ("bool:no", False), ("float:1.5", 1.5), ("datetime.timedelta:90", timedelta(seconds=90)),
          ("docket.strikelist.Operator:==", "Operator"), ("int:-7", -7), ("", ""), ("str:x", "x"), ("uuid.UUID:12345678123456781234567812345678", "uuid")]


def value_of(v):
    import uuid
    from docket.strikelist import Operator
    return {"Operator": Operator.EQUAL, "uuid": uuid.UUID("12345678123456781234567812345678")}.get(v, v) if isinstance(v, str) else v


def same_type(a, b): return type(a) is type(b) and a == b


def where(c):
    """options naming a docket and a server, given or left out, and what they mean"""
    how = c.pick("options", "environment", "defaults", "both")
    args, env, want = [], {}, ("docket", "redis://localhost:6379/0")
    if how in ("environment", "both"): env, want = {"DOCKET_NAME": "named by env", "DOCKET_URL": "redis://env:1/2"}, ("named by env", "redis://env:1/2")
    if how in ("options", "both"): args, want = ["--docket", "the docket", "--url", "rediss+sentinel://u:p@h:5,i/svc/3"], ("the docket", "rediss+sentinel://u:p@h:5,i/svc/3")
    return args, env, want


@contract("cli.acts", "C34 C06", [C_ + f for f in ("strike", "restore", "clear", "trace", "fail", "sleep", "list_workers", "workers_for_task")] +
          [S_ + f for f in ("handle_strike_wildcard", "interpret_python_value", "validate_url")], weight=8, kind="unrolled", sweep_factor=0.2,
          note="every command with arguments from short lists; times arbitrary")
async def acts(c):
    """one command, on a docket that only notes what it is asked"""
    from docket import tasks
    from docket.strikelist import Operator
    env = await Env.make(c)
    w = W(env, "cli.acts")
    c.frozen = c.int("now_t", shims.NOW_LO, shims.NOW_HI)
    rec = Recorder()
    cmd = c.pick("strike", "restore", "clear", "trace", "fail", "sleep", "ls", "for-task", "memory")
    if cmd in ("trace", "fail", "sleep"):
        for m in (shims.asyncio_proxy, shims.asyncio_concrete): shims.rebind(m, AsyncioWith())
        shims.rebind(asyncio.run, run)
    else:
        as_it_is()
    shims.rebind(REAL["Docket"], rec.docket())
    if cmd == "memory":
        args = c.pick(["strike", "f"], ["restore", "f"], ["clear"], ["tasks", "trace"], ["tasks", "fail"], ["tasks", "sleep"], ["snapshot"], ["workers", "ls"], ["workers", "for-task", "f"])
        r = invoke(c, [*args, "--url", c.pick("memory://", "memory://x")])
        w.p("a-server-that-nobody-else-sees-is-refused", r.exit_code not in (0, None) and not rec.asked and not rec.made, "C34", [args, r.exit_code, rec.asked])
        return
    if cmd in ("strike", "restore"):
        f, p = c.pick("some_task", "with space", "*", "", None), c.pick("customer", "*", "", None)
        op = c.pick(*Operator) if f == "some_task" and p == "customer" else c.pick(None, Operator.LESS_THAN)
        given, meant = (VALUES[c.choose(len(VALUES), "value")] if op is Operator.LESS_THAN else (None, None)) if op else (None, None)
        args = [] if f is None else [f] if p is None else [f, p] if op is None else [f, p, op.value] if given is None else [f, p, op.value, given]
        if f is None or p is None: p, op, meant = (None if f is None else p), None, None
        opts, e, want = where(c) if f == "some_task" and not op else ([], {}, ("docket", "redis://localhost:6379/0"))
        r = invoke(c, [cmd, *opts, "--", *args], e)
        anyf, anyp = f in ("*", "", None), p in ("*", "", None)
        if anyf and anyp:
            w.p("nothing-to-strike-is-refused", r.exit_code not in (0, None) and not rec.asked, "C34", [args, r.exit_code, rec.asked])
            return
        w.p("runs", r.exit_code == 0, "C34", [args, r.exit_code, r.output, r.exception])
        w.p("on-the-docket-named", rec.made == [want] and rec.closed == 1, "C34", [rec.made, want])
        got = [(n, bind(("function", "parameter", "operator", "value"), a, k)) for n, a, k in rec.asked]
        ok = [n for n, _ in got] == [cmd]
        w.p("asks-for-that-only", ok, "C34 C06", [cmd, got])
        if ok:
            g, v = got[0][1], value_of(meant)
            w.p("names-and-values-as-given", g.get("function") == (None if anyf else f) and g.get("parameter") == (None if anyp else p)
                and Operator(g.get("operator", Operator.EQUAL)) is (op or Operator.EQUAL) and same_type(g.get("value"), v), "C34 C06", [args, g])
        return
    opts, e, want = where(c)
    if cmd == "clear":
        n = c.pick(0, 1, 4711)
        rec.replies = lambda *a: n
        r = invoke(c, ["clear", *opts], e)
        w.p("asks-for-that-only", [x for x in rec.asked] == [("clear", (), {})], "C34", rec.asked)
        w.p("says-how-many", str(n) in r.output.replace("redis://", ""), "C34", r.output)
    elif cmd in ("trace", "fail", "sleep"):
        delay = c.pick(None, ("7", 7), ("90m", 5400), ("1:02:03", 3723))
        said = c.pick(None, "3" if cmd == "sleep" else "hello there")
        r = invoke(c, ["tasks", cmd, *opts, *([] if delay is None else ["--delay", delay[0]]), *([] if said is None else [said])], e)
        got = rec.asked
        ok = [x[0] for x in got] == ["add"]
        w.p("asks-for-that-only", ok, "C34", got)
        if ok:
            f, when, key, a, k = got[0][1]
            w.p("the-task-and-its-argument", f is getattr(tasks, cmd) and not k and key is None and list(a) == [(3.0 if cmd == "sleep" else said) if said else (1 if cmd == "sleep" else "Howdy!")], "C34", [f, a, k])
            w.p("after-the-delay", when is None and delay is None or us_of(when) == c.frozen + (delay[1] if delay else 0) * 10**6, "C34", [when, delay])
        w.p("says-the-key", "the-key" in r.output, "C34", r.output)
    else:
        from docket.docket import WorkerInfo
        now = datetime.now(timezone.utc)
        there = c.pick([], ["w1"], ["w1", "w-2"])
        rec.replies = lambda *a: [WorkerInfo(name=n, last_seen=now, tasks={"t1", f"of-{n}"}) for n in there]
        r = invoke(c, ["workers", *(["ls"] if cmd == "ls" else ["for-task", "some_task"]), *opts], e)
        w.p("asks-for-that-only", rec.asked == [("workers", (), {}) if cmd == "ls" else ("task_workers", ("some_task",), {})], "C34", rec.asked)
        w.p("lists-every-worker-and-its-tasks", all(n in r.output and f"of-{n}" in r.output for n in there), "C34", r.output)
    w.p("runs", r.exit_code == 0, "C34", [cmd, opts, r.exit_code, r.output, r.exception])
    w.p("on-the-docket-named", rec.made == [want] and rec.closed == 1, "C34", [rec.made, want])


@contract("cli.durations", "C34", [S_ + "duration"], weight=1)
async def durations(c):
    """a length of time, however it is written, for all numbers"""
    env = await Env.make(c)
    w = W(env, "cli.durations")
    from docket.cli._support import duration
    n, m, k = (c.int(x, 0, 10**6) for x in ("n", "m", "k"))
    text, want = c.pick(("{n}", n), ("{n}s", n), ("{n}m", n * 60), ("{n}h", n * 3600), ("{m}:{n}", m * 60 + n), ("{k}:{m}:{n}", k * 3600 + m * 60 + n))
    got = duration(text.format(n=n, m=m, k=k))
    w.p("means-what-it-says", us_of(got) == want * 10**6, "C34", [text, got])
    already = delta(c.int("already", 0, 10**12))
    w.p("a-length-of-time-stays-one", us_of(duration(already)) == us_of(already), "C34", already)
    for bad in ("", "x", "1d", "1:2:3:4", ":", "s"):
        try: w.p("anything-else-is-refused", False, "C34", [bad, duration(bad)])
        except ValueError: w.p("anything-else-is-refused", True, "C34")


@contract("cli.values", "C34 C06", [S_ + "interpret_python_value"], weight=1)
async def values(c):
    """a number given on the command line, for all numbers"""
    env = await Env.make(c)
    w = W(env, "cli.values")
    from docket.cli._support import interpret_python_value
    n = c.int("n", -10**9, 10**9)
    if c.choose(2, "a length of time"):
        from datetime import timedelta as real
        if c.symbolic:
            for m in (shims.Timedelta,): shims.rebind(m, real)
        # timedelta is looked up by name: the name as the code has it, numbers as they are
        n = c.pick(0, 1, 90, -5, 86400 * 400) if c.symbolic else n
        got = interpret_python_value(f"datetime.timedelta:{n}")
        w.p("seconds", us_of(got) == n * 10**6, "C34 C06", [n, got])
        return
    kind = c.pick("int", "builtins.int")
    real_int = shims.IntShim if c.symbolic else int
    import builtins
    kept = builtins.int
    try:
        builtins.int = real_int
        got = interpret_python_value(f"{kind}:{n}")
    finally:
        builtins.int = kept
    w.p("numbers", got == n, "C34 C06", [n, got])


class Shown:
    """what a task looks like in a snapshot"""
    def __init__(self, **k): self.__dict__.update(k)


@contract("cli.stats", "C34 C29", [S_ + "get_task_stats"], weight=4, kind="unrolled", note="up to three tasks running and one waiting, or one and three, of two functions; times arbitrary")
async def stats(c):
    """tasks by function"""
    env = await Env.make(c)
    w = W(env, "cli.stats")
    from docket.cli._support import get_task_stats
    fs = ["f", "g"]
    many = c.choose(2, "many of which")
    r = [Shown(function_name=c.pick(*fs), key=f"r{i}", worker="w", when=dt(c.int(f"rw{i}", 0, HI)), started=dt(c.int(f"rs{i}", 0, HI))) for i in range(c.choose(2 if many else 4, "running"))]
    f = [Shown(function_name=c.pick(*fs), key=f"f{i}", when=dt(c.int(f"fw{i}", 0, HI))) for i in range(c.choose(4 if many else 2, "waiting"))]
    got = get_task_stats(Shown(running=r, future=f, workers=[], taken=dt(c.int("taken", 0, HI)), total_tasks=len(r) + len(f)))
    w.p("every-function-that-has-tasks", set(got) == {x.function_name for x in r + f}, "C34", got)
    for n in got:
        mine, theirs = [x for x in r if x.function_name == n], [x for x in f if x.function_name == n]
        s = got[n]
        w.p("counts", (s.running, s.queued, s.total) == (len(mine), len(theirs), len(mine) + len(theirs)), "C34 C29", [n, s.running, s.queued, s.total])
        for what, xs, lo, hi in (("started", [x.started for x in mine], s.oldest_started, s.latest_started), ("queued", [x.when for x in theirs], s.oldest_queued, s.latest_queued)):
            if not xs:
                w.p("nothing-of-what-is-not-there", lo is None and hi is None, "C34", [n, what])
                continue
            w.p("oldest", lo is not None and land(*[lo <= x for x in xs], lor(*[lo == x for x in xs])), "C34", [n, what, lo, xs])
            w.p("latest", hi is not None and land(*[hi >= x for x in xs], lor(*[hi == x for x in xs])), "C34", [n, what, hi, xs])


@contract("cli.snapshot", "C34 C29", [C_ + "snapshot", S_ + "relative_time", S_ + "local_time"], weight=3, kind="unrolled", note="up to two tasks running and two waiting; fixed times")
async def snapshot(c):
    """what is on the docket, as a table"""
    env = await Env.make(c)
    w = W(env, "cli.snapshot")
    as_it_is()
    rec = Recorder()
    shims.rebind(REAL["Docket"], rec.docket())
    now = datetime(2026, 3, 4, 5, 6, 7, tzinfo=timezone.utc)
    r = [Shown(function_name=f"runs_{i}", key=f"run-key-{i}", worker=f"worker-{i}", when=now - timedelta(minutes=m), started=now - timedelta(seconds=5)) for i, m in enumerate([3, 60][:c.choose(3, "running")])]
    f = [Shown(function_name=f"waits_{i}", key=f"wait-key-{i}", when=now + timedelta(minutes=m)) for i, m in enumerate([3, 60][:c.choose(3, "waiting")])]
    rec.replies = lambda *a: Shown(running=r, future=f, workers=["x"] * 7, taken=now, total_tasks=len(r) + len(f))
    opts, e, want = where(c)
    paths = c.pick(None, ["a.b:c"], ["a.b:c", "d:e"])
    full = bool(c.choose(2, "statistics"))
    res = invoke(c, ["snapshot", *opts, *(x for p in paths or [] for x in ("--tasks", p)), *(["--stats"] if full else [])], e)
    w.p("runs", res.exit_code == 0, "C34", [res.exit_code, res.output, res.exception])
    w.p("on-the-docket-named", rec.made == [want] and rec.closed == 1, "C34", [rec.made, want])
    w.p("with-the-tasks-named", rec.asked == [*(("register_collection", (p,), {}) for p in paths or ["docket.tasks:standard_tasks"]), ("snapshot", (), {})], "C34", rec.asked)
    lines = res.output.splitlines()
    w.p("each-task-once", all(sum(x.key in line and x.function_name in line for line in lines) == 1 for x in r + f) and all(any(x.key in line and x.worker in line for line in lines) for x in r), "C34", res.output)
    w.p("the-totals", f"{len(r)}/{len(r) + len(f)} running" in res.output and "7 workers" in res.output, "C34", res.output)
    if full:
        w.p("the-statistics", all(sum(x.function_name in line for line in lines) == 2 for x in r + f), "C34", res.output)


SETTINGS = {
    # option: (as given, as meant, by default, environment)
    "name": ("--name", "some worker", "some worker", ..., "DOCKET_WORKER_NAME"),
    "concurrency": ("--concurrency", "37", 37, 10, "DOCKET_WORKER_CONCURRENCY"),
    "redelivery_timeout": ("--redelivery-timeout", "7m", timedelta(minutes=7), timedelta(minutes=5), "DOCKET_WORKER_REDELIVERY_TIMEOUT"),
    "reconnection_delay": ("--reconnection-delay", "11", timedelta(seconds=11), timedelta(seconds=5), "DOCKET_WORKER_RECONNECTION_DELAY"),
    "minimum_check_interval": ("--minimum-check-interval", "13s", timedelta(seconds=13), timedelta(milliseconds=100), "DOCKET_WORKER_MINIMUM_CHECK_INTERVAL"),
    "scheduling_resolution": ("--scheduling-resolution", "17", timedelta(seconds=17), timedelta(milliseconds=250), "DOCKET_WORKER_SCHEDULING_RESOLUTION"),
    "enable_internal_instrumentation": ("--enable-internal-instrumentation", None, True, False, "DOCKET_WORKER_ENABLE_INTERNAL_INSTRUMENTATION"),
    "until_finished": ("--until-finished", None, True, False, None),
    "healthcheck_port": ("--healthcheck-port", "8111", 8111, None, "DOCKET_WORKER_HEALTHCHECK_PORT"),
    "metrics_port": ("--metrics-port", "8112", 8112, None, "DOCKET_WORKER_METRICS_PORT"),
    "tasks": ("--tasks", "some.place:of_tasks", ["some.place:of_tasks"], ["docket.tasks:standard_tasks"], "DOCKET_TASKS"),
    "fallback_task": ("--fallback-task", "some.place:fallback", "some.place:fallback", None, "DOCKET_FALLBACK_TASK"),
}


@contract("cli.worker", "C34", [C_ + "worker"], weight=2, kind="unrolled", note="each setting by itself, and all of them")
async def worker(c):
    """starting a worker from the command line"""
    import inspect
    env = await Env.make(c)
    w = W(env, "cli.worker")
    as_it_is()
    asked = []
    real = REAL["Worker"]

    class Stub(real):
        @classmethod
        async def run(cls, *a, **k): asked.append(inspect.signature(real.run).bind(*a, **k).arguments)
    shims.rebind(real, Stub)
    which = c.pick(None, *SETTINGS, "all")
    how = c.pick("options", "environment") if which != "all" else "options"
    args, e, want = [], {}, {n: s[3] for n, s in SETTINGS.items()}
    for n, (opt, text, meant, _, var) in SETTINGS.items():
        if which not in (n, "all"): continue
        if how == "environment":
            if var is None: continue
            e[var] = "true" if text is None else text
        else: args += [opt] if text is None else [opt, text]
        want[n] = meant
    opts, e2, (name, url) = where(c)
    r = invoke(c, ["worker", *opts, *args], {**e, **e2})
    w.p("runs-one-worker", r.exit_code == 0 and len(asked) == 1, "C34", [r.exit_code, r.output, r.exception])
    if not asked: return
    by_default = {n: p.default for n, p in inspect.signature(real.run).parameters.items()}
    got = {**by_default, **asked[0]}
    w.p("on-the-docket-named", (got["docket_name"], got["url"]) == (name, url), "C34", got)
    for n, v in want.items():
        if v is ...: w.p("a-name-of-its-own", isinstance(got[n], str) and bool(got[n]), "C34", got[n])
        else: w.p("with-the-settings-given", same_type(got[n], v) or isinstance(v, list) and list(got[n]) == v, "C34", [n, got[n], v])
    w.p("schedules-automatic-tasks", got["schedule_automatic_tasks"] is True, "C34", got)


@contract("cli.every", "C34", [S_ + "iterate_with_timeout"], weight=4, kind="unrolled", note="up to three events, each up to two and a half timeouts apart")
async def every(c):
    """an iterator followed with a timeout: whatever the gaps between its events, however it ends"""
    env = await Env.make(c)
    w = W(env, "cli.every")
    loop = VirtualLoop()
    as_it_is(loop)
    from docket.cli._support import iterate_with_timeout
    gaps = [c.pick(0, 0.5, 2.5) for _ in range(c.choose(4, "events"))]
    end = c.pick("ends", "breaks", "left")
    last = c.pick(0, 0.5, 2.5)
    seen, closed, nones = [], [], []

    async def source():
        try:
            for i, g in enumerate(gaps):
                if g: await asyncio.sleep(g)
                yield {"n": i}
            if last: await asyncio.sleep(last)
            if end == "breaks": raise ValueError("broken")
            if end == "left": await asyncio.sleep(1000)
        finally:
            closed.append(loop.t)

    async def main():
        it = iterate_with_timeout(source(), 1.0)
        since = loop.t
        try:
            async for x in it:
                if x is None:
                    nones.append(loop.t - since)
                    if end == "left" and len(seen) == len(gaps) and len(nones) > 12: break
                else: seen.append((x, loop.t))
                since = loop.t
        finally:
            await it.aclose()
        return loop.t
    try: how = ("ends", run(main(), loop))
    except ValueError as e: how = ("breaks", e)
    except Stuck as e: how = ("stuck", e)
    w.p("each-event-once-and-in-order", [x for x, _ in seen] == [{"n": i} for i in range(len(gaps))], "C34", [gaps, end, seen, nones])
    at = [sum(gaps[:i + 1]) for i in range(len(gaps))]
    w.p("as-soon-as-it-is-there", all(t == a for (_, t), a in zip(seen, at)), "C34", [gaps, seen])
    w.p("ends-as-it-ends", how[0] == ("ends" if end == "left" else end), "C34", [gaps, end, how])
    w.p("says-when-nothing-comes", all(abs(t - 1.0) < 1e-6 for t in nones) and (len(nones) == sum(int(g) for g in gaps) + int(last) or end == "left"), "C34", [gaps, last, end, nones])
    w.p("leaves-nothing-open", len(closed) == 1, "C34", [gaps, end, closed])


class Screen:
    """stands in for rich's live display: what was to be seen when"""

    def __init__(self, loop): self.loop, self.shown = loop, []

    def text(self, what):
        from rich.console import Console
        out = io.StringIO()
        Console(file=out, width=120, height=12, color_system=None).print(what)
        return out.getvalue()

    def show(self, *what, **k):
        for x in what: self.shown.append((self.loop.t, self.text(x)))

    def live(screen):
        class Live:
            def __init__(self, renderable=None, **k): self.first = renderable

            def __enter__(self):
                if self.first is not None: screen.show(self.first)
                return self

            def __exit__(self, *a): return None
            def update(self, renderable, **k): screen.show(renderable)
            def start(self, *a): self.__enter__()
            def stop(self): pass
            def refresh(self): pass
            console = property(lambda self: screen)
        return Live

    def console(screen):
        class Console:
            def __init__(self, *a, **k): pass
            def print(self, *what, **k): screen.show(*what)
            def __getattr__(self, n): raise Unsupported(f"Console.{n}")
        return Console


WATCH = [C_ + "watch", S_ + "iterate_with_timeout"]


@contract("cli.watch", "C34", WATCH, weight=8, kind="unrolled", sweep_factor=0.3, note="one task through its states, each announced or not, up to a few seconds apart")
async def watch(c):
    """a task is watched while it waits, runs, reports and ends, its announcements arriving or not"""
    from docket.execution import ExecutionState as S
    env = await Env.make(c)
    w = W(env, "cli.watch")
    loop = VirtualLoop()
    as_it_is(loop)
    screen = Screen(loop)
    import rich.live, rich.console
    shims.rebind(rich.live.Live, screen.live())
    shims.rebind(rich.console.Console, screen.console())
    path = [S.SCHEDULED, S.QUEUED, S.RUNNING]
    end = c.pick(S.COMPLETED, S.FAILED, S.CANCELLED, None)
    start = c.choose(4, "how far it is")
    begun = datetime(2026, 3, 4, 5, 6, 7, tzinfo=timezone.utc)
    truth = dict(state=(path + [end])[start] if end else S.SCHEDULED, worker=None, error=None, started_at=None, progress=(None, 100, None))
    if start >= 2: truth.update(worker="the-worker", started_at=begun)
    if start == 3: truth.update(error="the trouble" if end is S.FAILED else None)
    to_come = ([] if end is None else path[start + 1:] + [end] if start < 3 else [])
    script, at = [], 0
    for s in to_come:
        at += c.pick(0.5, 3.5)
        script.append((at, s, bool(c.choose(2, "announced"))))
        if s is S.RUNNING: script.append((at + 0.25, "progress", True))
    rec = Recorder()

    class Progress:
        current, total, message = None, 100, None

    class Execution:
        key, function_name = "the-key", "some_task"

        def __init__(self): self.progress = Progress(); self.take()

        def take(self):
            self.state, self.worker, self.error, self.started_at = (truth[n] for n in ("state", "worker", "error", "started_at"))
            self.progress.current, self.progress.total, self.progress.message = truth["progress"]

        async def sync(self): self.take()

        async def subscribe(self):
            q = asyncio.Queue()
            queues.append(q)
            yield {"type": "state", "key": "the-key", "state": truth["state"].value, "worker": truth["worker"] or "", "error": truth["error"],
                   "started_at": truth["started_at"].isoformat() if truth["started_at"] else None}
            yield {"type": "progress", "key": "the-key", "current": truth["progress"][0], "total": truth["progress"][1], "message": truth["progress"][2], "updated_at": None}
            while True: yield await q.get()
    queues = []
    rec.replies = lambda n, a, k: Execution() if end and n == "get_execution" else None
    shims.rebind(REAL["Docket"], rec.docket())

    async def world():
        t = 0
        for at, s, announced in script:
            await asyncio.sleep(at - t)
            t = at
            if s == "progress":
                truth["progress"] = (40, 100, "the work")
                e = {"type": "progress", "key": "the-key", "current": 40, "total": 100, "message": "the work", "updated_at": None}
            else:
                truth["state"] = s
                if s is S.RUNNING: truth.update(worker="the-worker", started_at=begun)
                if s is S.FAILED: truth["error"] = "the trouble"
                e = {"type": "state", "key": "the-key", "state": s.value, "worker": truth["worker"] or "", "error": truth["error"],
                     "started_at": truth["started_at"].isoformat() if truth["started_at"] else None}
            if announced:
                for q in queues: q.put_nowait(e)
        await asyncio.sleep(1e6)
    ended, made = [], []
    mine = run

    def both(coro, *a, **k):
        async def main():
            t = asyncio.ensure_future(world())
            try: return await coro
            finally:
                ended.append(loop.t)
                t.cancel()
        return mine(main(), loop)
    AsyncioWith.run, kept = staticmethod(both), AsyncioWith.run
    shims.rebind(asyncio.run, both)
    try:
        opts, e, want = where(c) if start == 3 or end is None else ([], {}, ("docket", "redis://localhost:6379/0"))
        if "DOCKET_URL" in e: e["DOCKET_REDIS_URL"] = e.pop("DOCKET_URL")
        r = invoke(c, ["watch", *opts, "the-key"], e)
    finally:
        AsyncioWith.run = kept
    seen = screen.shown
    if isinstance(r.exception, Stuck) or not ended:
        w.p("comes-to-an-end", False, "C34", [script, truth, r.exception])
        return
    w.p("runs", r.exit_code == 0, "C34", [script, r.exit_code, r.output, r.exception])
    w.p("on-the-docket-named", rec.made == [want] and rec.closed == 1 and rec.asked[:1] == [("get_execution", ("the-key",), {})], "C34", [rec.made, want, rec.asked])
    if end is None:
        w.p("says-there-is-no-such-task", any("not found" in x for _, x in seen), "C34", seen)
        return
    w.p("comes-to-an-end", ended[0] <= at + 3, "C34", [script, ended])
    w.p("not-before-the-task", ended[0] >= at, "C34", [script, ended])
    says = lambda s, x: f"State: {s.value.upper()}" in x
    w.p("shows-how-it-ended", bool(seen) and says(end, seen[-1][1]), "C34", [script, seen[-1:]])
    for i, (t, s, announced) in enumerate(script):
        if s == "progress":
            if script[i - 1][2]: w.p("shows-progress", any(t <= u and "the work" in x for u, x in seen), "C34", [script, seen])
            continue
        until = next((u for u, z, _ in script[i + 1:] if z != "progress"), at + 3)
        if announced or until - t > 2:
            w.p("shows-every-state", any(t <= u <= until and says(s, x) for u, x in seen), "C34", [script, s, seen])
    w.p("shows-nothing-before-its-time", all(not says(s, x) for t, s, _ in script if s != "progress" for u, x in seen if u < t), "C34", [script, seen])
    if end is S.FAILED: w.p("shows-what-went-wrong", "the trouble" in seen[-1][1], "C34", seen[-1])
    if start >= 2 or len(script) > 1 and any(a for _, s, a in script if s is S.RUNNING): w.p("shows-the-worker", "the-worker" in seen[-1][1], "C34", seen[-1])


@contract("worker.command", "C34 C32", ["docket.worker:Worker.run", "docket.docket:Docket.register_collection"], weight=2, kind="unrolled", note="each setting by itself, and all of them")
async def command(c):
    """a worker as the main program: its settings, its tasks, how long it runs, how it is stopped"""
    import inspect
    import signal
    import docket.worker as m
    from docket import instrumentation, tasks
    env = await Env.make(c)
    w = W(env, "worker.command")
    loop = VirtualLoop()
    as_it_is(loop)
    order, handlers, made, collected, ports = [], {}, [], [], []
    loop.add_signal_handler = lambda s, f, *a: handlers.__setitem__(s, lambda: f(*a))
    loop.remove_signal_handler = lambda s: handlers.pop(s, None) is not None
    real = REAL["Worker"]
    stop = c.pick(None, signal.SIGTERM, signal.SIGINT)

    class Stub(real):
        def __init__(self, *a, **k):
            self.docket, self.name = None, "stub"
            made.append(inspect.signature(real.__init__).bind(self, *a, **k).arguments)

        async def __aenter__(self):
            order.append("worker")
            return self

        async def __aexit__(self, *a): order.append("worker gone")

        async def run_until_finished(self):
            order.append("until finished")
            await self.runs()

        async def run_forever(self):
            order.append("for ever")
            await self.runs()

        async def runs(self):
            if stop is not None: loop.call_later(5, handlers[stop])
            try: await asyncio.sleep(10)
            except asyncio.CancelledError:
                order.append(("told to stop", loop.t))
                raise
            order.append("done")

    class Docket:
        def __init__(self, *a, **k): made.append(inspect.signature(REAL["Docket"].__init__).bind(self, *a, **k).arguments)

        async def __aenter__(self):
            order.append("docket")
            return self

        async def __aexit__(self, *a): order.append("docket gone")
        def register_collection(self, path):
            order.append("tasks")
            collected.append(path)

    def server(what):
        import contextlib

        @contextlib.contextmanager
        def serve(*a, **k):
            ports.append((what, (*a, *k.values())[0] if a or k else None))
            order.append(what)
            yield
            order.append(f"{what} gone")
        return serve
    shims.rebind(real, Stub)
    shims.rebind(REAL["Docket"], Docket)
    for f in ("healthcheck_server", "metrics_server"): shims.rebind(getattr(instrumentation, f), server(f))
    asked, want = {}, {}
    settings = ["name", "concurrency", "redelivery_timeout", "reconnection_delay", "minimum_check_interval", "scheduling_resolution", "schedule_automatic_tasks", "enable_internal_instrumentation"]
    which = c.pick(None, "all", *settings, "fallback_task") if stop is None else None
    defaults = {n: p.default for n, p in inspect.signature(real.run).parameters.items()}
    for n in settings:
        want[n] = defaults[n]
        if which in (n, "all"): want[n] = asked[n] = object()
    want["fallback_task"] = None
    if which in ("fallback_task", "all"): asked["fallback_task"], want["fallback_task"] = "docket.tasks:trace", tasks.trace
    where = c.choose(2, "somewhere")
    if where: asked.update(docket_name="some docket", url="redis://some:1/2", tasks=["a.b:c", "d:e"], healthcheck_port=81, metrics_port=82)
    until = c.choose(2, "until finished")
    if until: asked["until_finished"] = True
    try: how = ("ends", run(real.run.__func__(Stub, **asked), loop))
    except (Unsupported, core.PathEnd): raise
    except Exception as e: how = (type(e).__name__, e)
    w.p("ends", how == ("ends", None), "C34 C32", [asked, how])
    w.p("one-docket-one-worker", len(made) == 2 and order.index("docket") < order.index("worker") if "worker" in order else False, "C34", order)
    d, k = made[0], made[1]
    w.p("on-the-docket-named", (d.get("name", "docket"), d.get("url", "redis://localhost:6379/0")) == (("some docket", "redis://some:1/2") if where else ("docket", "redis://localhost:6379/0"))
        and d.get("enable_internal_instrumentation", False) is want["enable_internal_instrumentation"], "C34", d)
    by_default = {n: p.default for n, p in inspect.signature(real.__init__).parameters.items()}
    for n, v in want.items():
        got = k.get(n, by_default.get(n))
        w.p("with-the-settings-given", got is v or type(got) is type(v) is timedelta and got == v, "C34", [n, got, v])
    w.p("knows-its-tasks-before-it-runs", collected == (["a.b:c", "d:e"] if where else ["docket.tasks:standard_tasks"]) and all(i < order.index("worker") for i, x in enumerate(order) if x == "tasks"), "C34", [collected, order])
    w.p("serves-where-told", dict(ports) == (dict(healthcheck_server=81, metrics_server=82) if where else dict(healthcheck_server=None, metrics_server=None)), "C34", ports)
    w.p("runs-as-long-as-told", [x for x in order if x in ("until finished", "for ever")] == ["until finished" if until else "for ever"], "C34 C32", order)
    if stop is None: w.p("runs-to-its-end", "done" in order, "C34 C32", order)
    else: w.p("stops-when-told", ("told to stop", 5) in order and "done" not in order, "C34", order)
    w.p("leaves-in-order", order.index("worker gone") < order.index("docket gone") and order.count("docket gone") == 1, "C34", order)
    w.p("listens-no-longer", not handlers, "C34", handlers)


@contract("collections", "C34", ["docket.docket:Docket.register_collection", "docket.docket:Docket.register"], weight=1)
async def collections(c):
    """tasks named by where they are found"""
    import sys, types
    env = await Env.make(c)
    w = W(env, "collections")
    d = env.docket
    before = dict(d.tasks)
    kind = c.pick(list, tuple, iter)
    sys.modules["a_place_of_tasks"] = types.SimpleNamespace(some=kind([job, other_job]), none=kind([]))
    try:
        d.register_collection("a_place_of_tasks:none")
        w.p("nothing-of-nothing", before == dict(d.tasks), "C34", dict(d.tasks))
        d.register_collection("a_place_of_tasks:some")
        w.p("every-task-of-it", {**before, "job": job, "other_job": other_job} == dict(d.tasks), "C34", dict(d.tasks))
        for bad, error in (("a_place_of_tasks:nothing", AttributeError), ("no_such_place:x", ModuleNotFoundError)):
            try: d.register_collection(bad)
            except error: w.p("what-is-not-there-is-refused", True, "C34")
            else: w.p("what-is-not-there-is-refused", False, "C34", bad)
    finally:
        del sys.modules["a_place_of_tasks"]


@contract("cli.times", "C34", [S_ + "relative_time", S_ + "local_time"], weight=1, kind="unrolled", note="moments around the boundaries")
async def times(c):
    """a moment, as told from another"""
    as_it_is()
    from docket.cli._support import local_time, relative_time
    now = datetime(2026, 3, 4, 5, 6, 7, tzinfo=timezone.utc)
    d = timedelta(seconds=c.pick(-86400, -1801, -1800, -1799, -1, 0, 1, 1799, 1800, 1801, 86400))
    when = now - d
    if c.choose(2, "elsewhere"): when = when.astimezone(timezone(timedelta(hours=5, minutes=30)))
    got, at = relative_time(now, when), when.astimezone().strftime("%Y-%m-%d %H:%M:%S %z")
    half = timedelta(minutes=30)
    c.prove("cli.times/local", local_time(when) == at, "C34", [when, local_time(when)])
    want = f"in {-d}" if -half <= d < timedelta(0) else f"{d} ago" if timedelta(0) <= d < half else f"at {at}"
    c.prove("cli.times/as-far-as-it-is", got == want, "C34", [d, got, want])
