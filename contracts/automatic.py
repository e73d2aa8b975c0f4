"""Contract of seeding automatic perpetual tasks (C09), and of the timeout runtime (C10)."""
from __future__ import annotations

from .world import *
from .lifecycle import Atomic, same
from .handlers import Schedule, SCHEDULE, next_matches
from .transfer import HI, a_worker, session
from engine import core, shims
from engine.env import Env
from engine.sym import Sym
from .registry import contract

@contract("seeding", "C01 C02 C03 C04 C05 C06 C09 C15 C19 C28", ["docket.worker:Worker._schedule_all_automatic_perpetual_tasks",
          "docket.worker:Worker._automatic_perpetual_is_live", "docket.docket:Docket.add", "docket.dependencies._cron:Cron.initial_when",
          "docket.dependencies._perpetual:Perpetual.initial_when"] + SCHEDULE, weight=15)
async def seeding(c):
    """automatic tasks get a schedule exactly when they have no live one"""
    from zoneinfo import ZoneInfo
    from cronsim import CronSim
    from docket import Cron, Perpetual
    phase = c.pick(*PHASES)
    kind = c.pick("automatic", "cron", "not automatic", "held", "struck")
    c.cron_terms, c.cron_expressions, c.cron_zones = [], set(), []
    zone = ZoneInfo("Asia/Kolkata")
    if c.symbolic: shims.rebind(CronSim, Schedule)
    env = await Env.make(c)
    defined = c.now_us()
    if kind == "automatic": policy = Perpetual(every=delta(c.int("every", 0, 10**15)), automatic=True)
    elif kind == "cron": policy = Cron("@daily", tz=zone)
    else: policy = Perpetual(automatic=kind != "not automatic")

    async def k(p=policy): pass

    async def k2(a=1, p=Perpetual(automatic=True)): pass       # another one, which is live
    for f in (k, k2): env.docket.register(f)
    w = W(env, "seeding")
    task = Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), args=(), kwargs={}, function="k")
    await w.put("k", phase, task, c.int("G", 1, 10**9))
    await w.put("k2", "SCHED", Task("k2", c.int("k2_when", 10**6, HI), args=(), kwargs={}, function="k2"), c.int("k2_G", 1, 10**9))
    worker = await a_worker(env)
    if kind == "struck":
        from docket.strikelist import Strike
        env.docket.strike_list.update(Strike("k", None, "==", None))
    if kind == "held":
        env.locks[w.k("perpetual:lock")] = True
    pre = await env.snap()
    await env.drain()
    before = c.now_us()
    await worker._schedule_all_automatic_perpetual_tasks()
    post = await env.snap()
    evs = await env.drain()
    G = w.info["k"]["G"]
    skip = [w.k("perpetual:lock")]
    for s in (pre, post):
        for x in skip: s.v.pop(x, None), s.ttl.pop(x, None)
    if phase in UNFINISHED or kind in ("not automatic", "held", "struck"):
        w.unchanged(pre, post, "live-or-not-automatic/touches-nothing", "C09 C02 C15")
        w.p("live-or-not-automatic/announces-nothing", not evs, "C28 C09", evs)
        if kind != "cron" or phase not in UNFINISHED: return
        # and it has not moved a cron task's schedule on: once the chain is lost, it is picked up at
        # the next match
        await env.raw.delete(w.runs("k"), w.k("k"), w.stream, w.wstream)
        await env.raw.zrem(w.queue, "k")
        await w.group()
        await worker._schedule_all_automatic_perpetual_tasks()
        post = await env.snap()
        phase = "ABSENT"
        await env.drain()
        evs = None
    if not (phase in UNFINISHED or kind in ("not automatic", "held", "struck")):
        copies = w.copies(post, "k")
        w.p("seeded/exactly-one", w.counted([x[0] for x in w.live(post, "k")], 1), "C09 C01", copies)
        place, _, m = w.live(post, "k")[-1][1:]
        from .handlers import message_when
        when = message_when(m)
        g = G + 1 if phase not in ("ABSENT",) else 1
        if kind == "automatic":
            w.p("seeded/at-once", land(before <= when, when <= c.last_now), "C09", [before, when])
        else:
            if c.symbolic:
                lo, hi = Sym(Schedule.next(defined.e)), Sym(Schedule.next(c.last_now.e))
                match = lor(*[when == Sym(Schedule.NEXT(x)) for x in c.cron_terms])
            else:
                lo, hi = next_matches("@daily", zone, defined), next_matches("@daily", zone, c.last_now)
                match = next_matches("@daily", zone, when - 1) == when
            w.p("seeded/in-the-zone-given", all(z == zone for z in c.cron_zones), "C09", c.cron_zones)
            w.p("seeded/at-the-next-match", land(lo <= when, when <= hi, match), "C09", [lo, when, hi])
        new = Task("k", when, 1, args=(), kwargs={}, function="k", trace=False)
        (w.expect_queued if place == "stream" else w.expect_sched)(post, "k", new, g, trace=False)
        if evs is not None: w.expect_events(evs, "k", ["queued" if place == "stream" else "scheduled"])
        if evs is not None: w.frame(pre, post, ["k"])
    await worker.__aexit__(None, None, None)


class Pause:
    def __await__(self): return (yield self)


class Steered:
    """An asyncio task whose coroutine runs only when told to."""

    def __init__(self, coro, name=None):
        self.coro, self.cancelled_with, self.value, self.error, self.over = coro, [], None, None, False
        self._advance(lambda: coro.send(None))

    def _advance(self, f):
        try: f()
        except StopIteration as s: self.value, self.over = s.value, True
        except (core.PathEnd, core.Unsupported): raise
        except BaseException as e: self.error, self.over = e, True

    def go_on(self, what):
        if not self.over: self._advance(lambda: self.coro.send(what))

    def cancel(self, msg=None):
        if self.over: return False
        self.cancelled_with.append(msg)
        return True

    def done(self): return self.over

    def cancelled(self):
        import asyncio
        return self.over and isinstance(self.error, asyncio.CancelledError)

    def exception(self): return self.error
    def add_done_callback(self, f): pass
    def get_name(self): return "steered"

    def result(self):
        if self.error is not None: raise self.error
        return self.value

    def __await__(self):
        import asyncio
        if not self.over and self.cancelled_with:
            msg = self.cancelled_with[-1]
            self._advance(lambda: self.coro.throw(asyncio.CancelledError(*([msg] if msg is not None else []))))
        if not self.over: raise core.Unsupported("await of a task that goes on")
        return self.result()
        yield


@contract("timeout", "C10", ["docket.dependencies._timeout:Timeout." + f for f in ("__init__", "__aenter__", "start", "expired", "remaining", "extend", "run")] +
          ["docket._cancellation:cancel_task", "docket._cancellation:is_our_cancellation"], weight=10)
async def timeout(c):
    """the wait for a task with a timeout: two rounds, the second from any deadline, any time and
    any number of extensions so far - hence any number of rounds"""
    import asyncio
    from docket import Timeout
    from docket.dependencies import resolved_dependencies
    from .delivery import Broken
    from .lifecycle import execution_from
    env = await Env.make(c)
    worker = await a_worker(env)
    base = c.int("base", 1, 10**13)
    dying = c.pick("dies", "dies without a word", "returns", "raises")
    calls = []

    async def job(x, z="z", *, y=0, timeout=Timeout(delta(base))):
        calls.append(((x, z), y, timeout))
        try: what = await Pause()
        except asyncio.CancelledError:
            if dying == "dies": raise
            if dying == "raises": raise Broken("while stopping")
            if dying == "returns": return "late"
            raise asyncio.CancelledError()
        if isinstance(what, BaseException): raise what
        return what
    env.docket.register(job)
    w = W(env, "timeout")
    ex = await execution_from(env, Task("k", 10**15, 1), 1, "999-0")
    deadline = [None]
    tasks, log, ended = [], [], {}

    def create_task(coro, name):
        tasks.append(Steered(coro))
        w.p("timed-from-the-start", len(tasks) == 1, "C10", "")
        return tasks[0]

    def extended(by):
        t = tasks[0]
        calls[0][2].extend(None if by is None else delta(by))
        deadline[0] = deadline[0] + (base if by is None else by) / 10**6

    async def round_(aw, limit, give_up):
        """the code waits for the task, for at most so long"""
        if deadline[0] is None: deadline[0] = c.monos[0] + base / 10**6
        D = deadline[0]
        n = len(log)
        # the wait ends no later than the deadline, and there is none once it was seen to have passed
        w.p("waits-no-longer-than-the-deadline", limit is not None and c.last_mono + limit <= D + 2e-6, "C10", [c.last_mono, limit, D])
        if "woke" in ended and len(c.monos) > ended["woke"]:
            w.p("stopped-when-overdue", c.monos[ended["woke"]] < D, "C10", [c.monos[ended["woke"]:], D])
        if n == 2:
            ended["cut"] = True
            raise core.PathEnd("any further round is like the second")
        how = c.pick("returns", "raises", "raises a timeout of its own", "is cancelled by itself", "wakes", "extended, wakes", "extended by more, wakes",
                     "done as it wakes", "stopped from outside")
        log.append(how)
        if how.startswith("extended"):
            by = None if how == "extended, wakes" else c.int(f"by{n}", 0, 10**13)
            extended(by)
            r = calls[0][2].remaining()
            w.p("remaining", land(us_of(r) - (deadline[0] - c.last_mono) * 10**6 <= 2,
                (deadline[0] - c.last_mono) * 10**6 - us_of(r) <= 2), "C10",
                [r, deadline])
            e = calls[0][2].expired()
            w.p("expired", bool(e) == bool(c.last_mono >= deadline[0]), "C10", "")
        if how == "stopped from outside":
            c.cancelling = 1
            raise asyncio.CancelledError()
        finish = {"returns": {"answer": 5}, "done as it wakes": {"answer": 5}, "raises": Broken("x"), "raises a timeout of its own": asyncio.TimeoutError("mine"),
                  "is cancelled by itself": asyncio.CancelledError("itself")}.get(how)
        ended["woke"] = len(c.monos)
        if finish is None: return give_up()
        ended["how"], ended["value"] = how, finish
        tasks[0].go_on(finish)
        if how == "done as it wakes": return give_up()
        return tasks[0].result()

    async def wait_for(aw, limit=None):
        def give_up(): raise asyncio.TimeoutError()
        return await round_(aw, limit, give_up)

    async def wait(aws, limit):
        try: await round_(aws, limit, lambda: None)
        except (Broken, asyncio.TimeoutError): pass
        except asyncio.CancelledError:
            if log[-1] == "stopped from outside": raise
        return ({tasks[0]}, set()) if tasks[0].done() else (set(), {tasks[0]})
    c.hooks.update(create_task=create_task, wait_for=wait_for, wait=wait, current_task=True)
    result, error = None, None
    async with resolved_dependencies(worker, ex) as deps:
        other = await deps["timeout"].__aenter__()
        try:
            result = await deps["timeout"].run(ex, job, ex.args, {**ex.kwargs, **deps})
        except BaseException as e:
            if "cut" in ended: raise core.PathEnd("")
            if isinstance(e, (core.PathEnd, core.Unsupported)): raise
            error = e
    task = tasks[0]
    w.p("called-once-as-scheduled", len(calls) == 1 and calls[0][:2] == ((1, "a"), 2), "C10", calls)
    w.p("never-left-running", task.done(), "C10", log)
    D = deadline[0]
    if "how" in ended:
        if isinstance(ended["value"], dict): w.p("passed-through/result", error is None and result is ended["value"], "C10", [result, error])
        else: w.p("passed-through/exception", error is ended["value"], "C10", [result, error])
        w.p("in-time/not-cancelled", not task.cancelled_with, "C10", log)
    elif log[-1:] == ["stopped from outside"]:
        w.p("stopped-from-outside/task-cancelled", len(task.cancelled_with) >= 1, "C10", log)
        if dying != "raises": w.p("stopped-from-outside/stops", isinstance(error, asyncio.CancelledError), "C10", repr(error))
    else:
        D = c.monos[0] + base / 10**6 if D is None else D
        w.p("overdue/only-after-the-deadline", c.last_mono >= D - 1e-6, "C10", [c.last_mono, D])
        w.p("overdue/task-cancelled", len(task.cancelled_with) >= 1, "C10", log)
        if dying != "raises": w.p("overdue/fails-with-a-timeout", isinstance(error, asyncio.TimeoutError), "C10", repr(error))
    # another attempt's clock is its own
    other.start()
    r = other.remaining()
    w.p("own-deadline", us_of(r) <= base, "C10", r)
    await worker.__aexit__(None, None, None)
