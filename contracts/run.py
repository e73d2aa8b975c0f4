"""Contracts of running a worker: until nothing is left, for good, and for so many iterations at
most (C32)."""
from __future__ import annotations

import inspect
from datetime import timedelta

from .world import *
from .delivery import run_one
from .lifecycle import execution_from
from .loop import Harness, Server, pause
from .transfer import HI, a_worker
from engine import core, meters
from engine.env import Env
from .registry import contract

W_ = "docket.worker:Worker."


def at_once(coro):
    """(whether it came to its end without waiting, how)"""
    try: coro.send(None)
    except StopIteration: return True, None
    except Exception as e: return True, e
    coro.close()
    return False, None


@contract("worker.run", "C32 C01 C20 C36", [W_ + f for f in ("run_until_finished", "run_forever", "_run", "_worker_loop", "__aexit__")], weight=20, kind="unrolled",
          note="up to four polls, at each of which anything may have happened; delays arbitrary")
async def run(c):
    """a worker runs while tasks come, finish, are held by others, and connections are lost"""
    from redis.exceptions import ConnectionError
    env = await Env.make(c)
    env.docket.register(job)
    w = W(env, "worker.run")
    await w.group()
    forever = c.choose(2, "for good")
    delay = c.int("delay", 1, 10**10)
    worker = await a_worker(env, concurrency=5, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7),
                            reconnection_delay=delta(delay))
    h = Harness(c, env, worker)
    h.install()
    left = {}               # what the docket holds, besides this worker's own tasks: how to be rid of it
    rounds, waits, told, lost = [0], [], [], []
    tasks_wait_for = c.hooks["wait_for"]

    async def wait_for(aw, timeout=None):
        import inspect
        event = aw.cr_frame.f_locals.get("self") if inspect.iscoroutine(aw) and aw.cr_code.co_name == "wait" else None
        if h.driving is None and lost and lost[-1] is not None:
            # between two connections
            lost.append(None)
            waits.append(timeout)
            w.p("reconnects/after-its-delay", timeout is not None and us_of_(timeout) == delay, "C32", [timeout, delay])
            w.p("reconnects/nothing-in-progress-meanwhile", not h.unfinished(), "C32 C20", h.jobs)
            if c.choose(2, "told to stop meanwhile"):
                told.append(1)
                worker._worker_stopping.set()
        return await tasks_wait_for(aw, timeout)
    c.hooks["wait_for"] = wait_for

    def us_of_(seconds):
        return round(seconds * 10**6) if not c.symbolic else seconds * 10**6

    async def finish(j):
        j.finished = True
        await env.raw.xack(w.stream, GROUP, j.mid)
        await env.raw.xdel(w.stream, j.mid)

    async def drains(aws):
        for j in h.unfinished(): await finish(j)
        return [None] * len(aws)
    h.drains = h.idles = drains

    async def something_happens():
        rounds[0] += 1
        if rounds[0] > 9: raise core.Unsupported("goes on polling")
        if rounds[0] > 3:
            # all that was there comes to its end
            for j in h.unfinished(): await finish(j)
            for gone in left.values(): await gone()
            left.clear()
            return None
        what = c.pick("nothing", "a task comes", "ends", "scheduled", "at another worker", "lost", "lost while reading", "lost while looking", "cannot be reached")
        if what == "ends":
            for j in h.unfinished(): await finish(j)
            for gone in left.values(): await gone()
            left.clear()
        elif what == "scheduled" and what not in left:
            await env.raw.zadd(w.queue, {"k2": ts(c.int("due", 10**6, HI))})
            left[what] = lambda: env.raw.zrem(w.queue, "k2")
        elif what == "at another worker" and what not in left:
            mid = await w.deliver(Task("o1", 10**15, function="job").message(1), "w-old")

            async def gone():
                await env.raw.xack(w.stream, GROUP, mid)
                await env.raw.xdel(w.stream, mid)
            left[what] = gone
        return what
    now = [None]

    def lose(where):
        if now[0] == where:
            lost.append(where)
            now[0] = None
            raise ConnectionError("gone")

    async def xautoclaim(**k):
        w.p("ends/once-nothing-is-left", forever or idle[0] < 2, "C32", rounds)
        now[0] = await something_happens()
        if now[0] == "cannot be reached": refused.append(1)
        if now[0] == "cannot be reached": now[0] = "lost"
        lose("lost")
        if forever and rounds[0] > 4:
            told.append(1)
            worker._worker_stopping.set()
        return [b"0-0", [], []]
    refused, idle = [], [0]

    async def xreadgroup(**k):
        lose("lost while reading")
        # a look at the docket now finds nothing
        idle[0] = idle[0] + 1 if not left and not h.in_progress() and now[0] is None or now[0] == "nothing" and not left and not h.in_progress() else 0
        if now[0] != "a task comes": return []
        now[0] = None
        m = Task(f"k{len(h.jobs)}x", 10**15, function="job", kwargs={}).message(1)
        mid = await w.deliver(m, "w-me")
        return [[w.stream.encode(), [(mid.encode(), b(m))]]]

    def pipeline(**k):
        lose("lost while looking")
        return real.pipeline()
    real = env.client
    env.client = Server(real, xautoclaim=xautoclaim, xreadgroup=xreadgroup, pipeline=pipeline)
    connect = env.docket._redis.client

    def client():
        if refused and rounds[0]:
            refused.pop()
            lost.append("refused")
            raise ConnectionError("refused")
        return connect()
    env.docket._redis.client = client
    err, since = None, len(meters.heard(c))
    try:
        await (worker.run_forever() if forever else worker.run_until_finished())
    except ConnectionError as e:
        err = e
    env.client = real
    s = await env.snap()
    n = meters.total(meters.heard(c)[since:], "docket_redis_disruptions")
    w.p("metrics/disruptions", n == lost.count(None), "C36", [n, lost])
    w.p("outlives-its-connections", err is None, "C32 C20", err)
    w.p("nothing-in-progress-left-behind", not h.unfinished() and all(j.handled == 1 for j in h.jobs), "C32 C20 C01", h.jobs)
    if forever: w.p("goes-on-until-told", bool(told), "C32", rounds)
    elif not told:
        w.p("ends/only-when-nothing-is-left", not s.zset(w.queue) and not s.stream(w.stream).entries, "C32", [s.zset(w.queue), s.stream(w.stream).entries])
    w.p("none-left-running", all(not x.alive() for x in h.background), "C32 C20", [x.name for x in h.background if x.alive()])
    done, how = at_once(worker.__aexit__(None, None, None))
    w.p("can-be-left", done and how is None, "C32", how)
    c.hooks.clear()

def lasting(name, seen, returns=True):
    """a kind of dependency that wants something looked after while a worker runs"""
    from contextlib import asynccontextmanager
    from docket.dependencies import Dependency

    class Lasting(Dependency):
        async def __aenter__(self): return None
        async def __aexit__(self, *a): pass

        @classmethod
        def worker_lifecycle(cls, docket, worker):
            if not returns: seen.append(("asked", name)); return None

            @asynccontextmanager
            async def around():
                seen.append(("in", name))
                try: yield
                finally: seen.append(("out", name))
            return around()
    Lasting.__name__ = name
    return Lasting


class Enough(BaseException): pass


@contract("worker.begins", "C32 C21 C11 C20", [W_ + f for f in ("run_forever", "run_until_finished", "_run", "_worker_loop", "_dependency_lifecycle_classes", "__aexit__")], weight=4,
          kind="unrolled", note="two polls; a task declaring each kind in each place")
async def begins(c):
    """what a worker sets up before it takes work, until when it keeps it, and how it is left"""
    from typing import Annotated
    env = await Env.make(c)
    seen = []
    kinds = {n: lasting(n, seen) for n in ("default", "marked", "both", "workers", "second")}
    none = lasting("none", seen, False)
    places = c.pick("default", "marked", "both", "workers", "none")

    async def plain(x): pass
    async def default(a=kinds["default"](), b=kinds["second"]()): pass
    async def marked(x: Annotated[int, kinds["marked"]()]): pass
    async def both(x: Annotated[int, kinds["both"]()], y=kinds["both"]()): pass
    async def both2(y=kinds["both"]()): pass
    async def nothing(x=none()): pass
    fs = {"default": [default], "marked": [marked], "both": [both, both2], "none": [nothing], "workers": []}[places]
    expected = {"default": ["default", "second"], "marked": ["marked"], "both": ["both"], "none": [], "workers": ["workers"]}[places]
    marked.__annotations__ = {"x": Annotated[int, kinds["marked"]()]}
    both.__annotations__ = {"x": Annotated[int, kinds["both"]()]}
    for f in [plain, *fs, job]: env.docket.register(f)
    w = W(env, "worker.begins")
    await w.group()
    worker = await a_worker(env, concurrency=5, redelivery_timeout=timedelta(seconds=300), minimum_check_interval=timedelta(milliseconds=7))
    if places == "workers": worker.dependencies = {"z": kinds["workers"]()}
    h = Harness(c, env, worker)
    h.install()
    forever = bool(c.choose(2, "for good"))
    leaves = c.pick("before it hears of cancellations", "while it waits for work", "while it works") if forever else "later"
    late = c.choose(3, "hears of cancellations after so many waits")
    leaving, waits, polls = [], [0], [0]

    def leave():
        if leaving: return
        leaving.append(worker.__aexit__(None, None, None))
        env.idle = lambda what: pause(what)
        try: leaving[0].send(None)
        except StopIteration:
            w.p("left/only-once-it-is-done", False, "C32 C20")
            leaving[0] = None

    def enough(n, what):
        if n <= 6: return
        if not leaving: raise core.Unsupported(what)
        w.p("ends/when-told", False, "C32", what)
        raise Enough

    def state(): return [x for _, x in seen if _ == "in"], [x for _, x in seen if _ == "out"]
    sets_ready = c.hooks["wait_for"]

    async def wait_for(aw, timeout=None):
        import asyncio
        s = worker._processing_session
        if h.driving is None and s is not None and not s.cancellation_ready.is_set() and inspect.iscoroutine(aw) and aw.cr_code.co_name == "wait":
            waits[0] += 1
            enough(waits[0], "goes on waiting")
            if leaves == "before it hears of cancellations" and waits[0] > late: leave()
            if leaving or waits[0] <= late:
                aw.close()
                raise asyncio.TimeoutError
        return await sets_ready(aw, timeout)
    c.hooks["wait_for"] = wait_for

    async def drains(aws):
        for j in h.unfinished(): await finish(j)
        return [None] * len(aws)
    h.drains = h.idles = drains

    async def finish(j):
        j.finished = True
        await env.raw.xack(w.stream, GROUP, j.mid)
        await env.raw.xdel(w.stream, j.mid)

    async def xautoclaim(**k):
        polls[0] += 1
        w.p("set-up/once-each-before-any-work", state() == (expected, []), "C21 C11", seen)
        enough(polls[0], "goes on polling")
        if polls[0] > 2:
            for j in h.unfinished(): await finish(j)
            if forever: leave()
        return [b"0-0", [], []]

    async def xreadgroup(**k):
        if leaves == "while it waits for work": leave()
        if polls[0] != 1 or leaving: return []
        mid = await w.deliver(Task("k1", 10**15, function="job", kwargs={}).message(1), "w-me")
        if leaves.startswith("while it works"): leave()
        return [[w.stream.encode(), [(mid.encode(), b(Task("k1", 10**15, function="job", kwargs={}).message(1)))]]]
    real = env.client
    env.client = Server(real, xautoclaim=xautoclaim, xreadgroup=xreadgroup)
    err = None
    try: await (worker.run_forever() if forever else worker.run_until_finished())
    except Enough: c.hooks.clear(); return
    except Exception as e: err = e
    env.client = real
    if forever: w.p("ends/when-told", True, "C32")
    w.p("ends-as-it-should", err is None, "C32", err)
    w.p("given-up/once-each", state()[0] == expected and sorted(state()[1]) == sorted(expected), "C21 C11", seen)
    w.p("given-up/in-reverse", state()[1] == expected[::-1], "C21", seen)
    w.p("nothing-in-progress-left-behind", not h.unfinished() and all(j.handled == 1 for j in h.jobs), "C32 C20", h.jobs)
    w.p("none-left-running", all(not x.alive() for x in h.background), "C32 C20", [x.name for x in h.background if x.alive()])
    if forever: w.p("goes-on-until-told", bool(leaving), "C32", polls)
    if leaving and leaving[0]:
        try: leaving[0].send(None)
        except StopIteration: pass
        else: w.p("left/once-it-is-done", False, "C32")
    elif not leaving:
        done, how = at_once(worker.__aexit__(None, None, None))
        w.p("left/once-it-is-done", done and how is None, "C32", how)
    c.hooks.clear()


@contract("run_at_most", "C32", [W_ + "run_at_most", W_ + "_execute", "docket.strikelist:StrikeList.add_condition", "docket.strikelist:StrikeList.remove_condition",
                                 "docket.strikelist:StrikeList.is_stricken"], weight=4, kind="unrolled", note="limits up to three, one more delivery than that")
async def at_most(c):
    """deliveries of a task that runs at most so often, and of others; twice over"""
    env = await Env.make(c)
    calls = []

    async def job(x="x"): calls.append(x)
    env.docket.register(job)
    w = W(env, "run_at_most")
    await w.group()
    worker = await a_worker(env)
    n = c.choose(4, "how often")
    fails = c.choose(2, "the run fails")
    counts = []

    async def running(forever=False):
        w.p("until-finished", not forever, "C32", "")
        got = []
        for i in range(n + 1):
            await w.put("k", "DELIVERED", Task("k", 10**15, 1, args=("k",), kwargs={}, trace=False), 10 + i, worker="w-me")
            got.append(await deliver("k", 10 + i))
        await w.put("k2", "DELIVERED", Task("k2", 10**15, 1, args=("k2",), kwargs={}, trace=False), 10, worker="w-me")
        counts.append((sum(got), await deliver("k2", 10), got))
        if fails: raise KeyError("x")

    async def deliver(key, g):
        ex = await execution_from(env, Task(key, 10**15, 1, args=(key,), kwargs={}, trace=False), g, w.info[key]["mid"])
        before = len(calls)
        await worker._execute(ex)
        return len(calls) - before
    worker._run = running
    for time in range(2):
        err = None
        try: await worker.run_at_most({"k": n})
        except KeyError as e: err = e
        w.p("as-often-as-allowed", counts[-1][0] == n, "C32", counts)
        w.p("others-unrestricted", counts[-1][1] == 1, "C32", counts)
        w.p("ends-as-the-run-did", (err is not None) == bool(fails), "C32", err)
        ex = await execution_from(env, Task("k", 10**15, 1, args=("k",), kwargs={}, trace=False), 99, "1-0")
        try: still = env.docket.strike_list.is_stricken(ex)
        except Exception as e: still = e
        w.p("no-restriction-left", not still, "C32 C15", still)
        if still: return
        for k in ("k", "k2"):
            await env.raw.delete(w.runs(k))
            w.info.pop(k, None)
    await worker.__aexit__(None, None, None)
