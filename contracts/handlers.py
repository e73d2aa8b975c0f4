"""Contracts of what decides how an attempt ends: retries, perpetual and cron successors, admission
verdicts, custom handlers, and cancellation at any step."""
from __future__ import annotations

from datetime import timedelta

from .world import *
from .lifecycle import same, minus_entry, ttl_docket
from .transfer import HI
from .delivery import LOOP, Broken, Delivery
from engine import core, shims
from engine.env import Env
from engine.sym import TOKEN, Sym, dt_us
from .registry import contract
import z3

SCHEDULE = ["docket.execution:Execution.schedule", "docket.execution:_schedule (Lua)", "docket.execution:Execution.as_message"]


def message_when(m):
    from datetime import datetime
    s = m.get("when", "")
    if TOKEN.fullmatch(s): return Sym(core.ctx().tokens[s])
    return us_of(datetime.fromisoformat(s))


def within(x, lo, hi): return land(lo <= x, x <= hi)


def largest(a, z): return ite(a >= z, a, z)


def rescheduled(d, attempt, lo, hi, *, args=None, kwargs=None, G=None, props="C01", what="rescheduled", events=("running",), then=None):
    """the delivery gave way to exactly one copy, due between lo and hi"""
    w, post = d.w, d.post
    d.acknowledged(props + " C07 C01 C03")
    d.no_error()
    copies = w.copies(post, "k")
    w.p(f"{what}/exactly-one", len(copies) == 1, props + " C01 C07", copies)
    if len(copies) != 1: return None
    place, _, m = copies[0]
    when = message_when(m)
    w.p(f"{what}/not-too-early", lo <= when, props, [lo, when])
    w.p(f"{what}/not-too-late", when <= hi, props, [when, hi])
    task = Task("k", when, attempt, args=d.task.args if args is None else args,
                kwargs=d.task.kwargs if kwargs is None else kwargs, function=d.task.function, trace=False)
    G = d.g + 1 if G is None else G
    expect = w.expect_queued if place == "stream" else w.expect_sched
    expect(post, "k", task, G, trace=False)
    w.p(f"{what}/attempt", str_eq(m.get("attempt"), str(attempt)), props + " C08 C19", m)
    states = [*events, "queued" if place == "stream" else "scheduled"]
    # the attempt that gave way may announce its own completion to those waiting for it
    w.p(f"{what}/announced", d.states() in (states, states + [then] * (then is not None)), "C28", d.evs)
    got = {x: d.reported(x) for x in ("retried", "perpetuated", "failed", "succeeded")}
    w.p(f"{what}/metrics", got["retried"] == (what == "retried") and got["perpetuated"] == (what == "successor"), "C36", got)
    if what == "retried": w.p(f"{what}/attempt-failed", got["failed"] == 1 and got["succeeded"] == 0, "C36", got)
    if then is not None: w.p(f"{what}/outcome", got["failed"] == (then == "failed") and got["succeeded"] == (then == "completed"), "C36", got)
    w.p(f"{what}/at-once-only-if-due", (when <= d.c.last_now) if place == "stream" else (when > d.c.first_now), "C05", [place, when])
    return when


@contract("retry", "C01 C02 C03 C04 C05 C06 C07 C08 C17 C18 C19 C28 C36", LOOP + SCHEDULE + [
    "docket.dependencies._retry:" + f for f in ("Retry.__init__", "Retry.forever", "Retry.__aenter__", "Retry.after", "Retry.at", "Retry.in_",
                                                "Retry.handle_failure", "ExponentialRetry.__init__", "ExponentialRetry.forever",
                                                "ExponentialRetry.__aenter__")], weight=30)
async def retry(c):
    """a task that raises, under every retry policy, at any attempt"""
    from docket import ExponentialRetry, Retry
    d = Delivery(c, "retry")
    kind = c.pick("linear", "exponential")
    limited = bool(c.choose(2, "limited"))
    scope = c.pick("parameter", "worker")
    n = c.int("n", 1, 10**6) if limited else None
    attempt = c.pick(1, 2, 3, None)
    if attempt is None: attempt = c.int("attempt", 4, 400)
    delay = c.int("delay", 0, 10**15)
    how = c.pick("raises", *["after", "in_", "at"][: 3 if scope == "parameter" else 0], "cancelled")
    if kind == "linear":
        policy = Retry(attempts=n, delay=delta(delay)) if limited else Retry.forever(delay=delta(delay))
        want = delay
    else:
        most = c.int("maximum", 0, 10**15)
        c.assume(delay <= most)
        policy = ExponentialRetry(attempts=n, minimum_delay=delta(delay), maximum_delay=delta(most)) if limited else \
            ExponentialRetry.forever(delay=delta(delay), maximum_delay=delta(most))
        if type(attempt) is int:
            want = delay * 2 ** (attempt - 1)
            want = ite(want <= most, want, most)
        else:
            want = doubled(delay, attempt, most)
    asked = c.int("asked", 0, HI)
    calls, t = [], {}

    async def body(x, z, y, retry):
        import asyncio
        calls.append(((x, z), y, None if retry is None else retry.attempt))
        t["end"] = c.now_us()
        if how == "raises": raise Broken("again")
        if how == "cancelled": raise asyncio.CancelledError()
        if how == "at": retry.at(dt(asked))
        getattr(retry, how)(delta(asked))
    if scope == "parameter":
        async def job(x, z="z", *, y=0, retry=policy): await body(x, z, y, retry)
    else:
        async def job(x, z="z", *, y=0): await body(x, z, y, None)
    w = await d.setup(job, {"dependencies": [policy]} if scope == "worker" else None, attempt=attempt)
    await d.go()
    w.p("called-once-as-scheduled", land(len(calls) == 1, *[val_eq([*x[0], x[1]], [1, "a", 2]) for x in calls]), "C07 C19 C08", calls)
    if scope == "parameter":
        w.p("told-its-attempt", land(*[x[2] == attempt for x in calls]), "C08", calls)
    end, last = t["end"], c.last_now
    if how == "cancelled":
        await d.finished("cancelled")
        await d.worker.__aexit__(None, None, None)
        return
    exhausted = limited and attempt >= n
    if exhausted:
        if how == "raises":
            await d.finished("failed", error="Broken: again", stored=lambda x: x == Broken("again"))
        else:
            await d.finished("failed", error="ForcedRetry: ", stored=lambda x: type(x).__name__ == "ForcedRetry")
    else:
        if how in ("after", "in_"): lo, hi = end + asked, last + asked
        elif how == "at": lo, hi = largest(end, asked), largest(end, asked) + (last - end)
        else: lo, hi = end + want, last + want
        rescheduled(d, attempt + 1, lo, hi, props="C08", what="retried")
        w.p("no-outcome-stored", (await d.env.result("k"))[0] is None, "C17 C08", "")
    w.frame(d.pre, d.post, ["k"], "C07 C01 C03 C08")
    await d.worker.__aexit__(None, None, None)


def doubled(low, attempt, most):
    """min(low * 2**(attempt-1), most)"""
    if type(low) is int:
        x = low * 2 ** (attempt - 1)
        return min(x, most)
    from engine.sym import pow2, unwrap
    x = unwrap(low) * pow2(core.ctx(), z3.simplify(unwrap(attempt) - 1))
    return Sym(z3.If(x <= unwrap(most), x, unwrap(most)))


def capture_steps(d):
    """the clock after the last operation before the task ran"""
    t = {}

    async def after(what):
        if "body" not in t: t["claimed"] = d.c.now_us()
    d.env.on_step.append(after)
    return t


@contract("perpetual", "C01 C02 C03 C04 C05 C06 C07 C09 C17 C18 C19 C28 C36", LOOP + SCHEDULE + [
    "docket.dependencies._perpetual:Perpetual." + f for f in ("__init__", "__aenter__", "cancel", "perpetuate", "after", "at", "on_complete")]
    + ["docket.docket:Docket.replace", "docket.docket:Docket._cancel", "docket.execution:Execution.is_superseded"], weight=30)
async def perpetual(c):
    from docket import Perpetual
    from docket.strikelist import Strike
    d = Delivery(c, "perpetual")
    scope = c.pick("parameter", "worker")
    every = c.int("every", 0, 10**15)
    how = c.pick("none", "value", "raises")
    asks = c.pick("nothing", *["after", "at", "arguments", "cancel"][: 4 if scope == "parameter" else 0], "superseded", "cancelled", "struck")
    asked = c.int("asked", 0, HI)
    policy = Perpetual(every=delta(every))
    calls, t, snap = [], {}, {}

    async def body(x, z, y, perpetual):
        t["body"] = c.now_us()
        calls.append(((x, z), y))
        if asks == "after": perpetual.after(delta(asked))
        if asks == "at": perpetual.at(dt(asked))
        if asks == "arguments": perpetual.perpetuate(9, "next", y=8)
        if asks == "cancel": perpetual.cancel()
        if asks == "struck": d.env.docket.strike_list.update(Strike("job", None, "==", None))
        if asks == "superseded":
            await d.env.docket.replace(d.env.docket.tasks["job"], dt(asked), "k")(7, "new", y=9)
            snap["s"] = await d.env.snap()
            snap["evs"] = await d.env.drain()
        if asks == "cancelled":
            import asyncio
            raise asyncio.CancelledError()
        t["end"] = c.now_us()
        if how == "raises": raise Broken("x")
        if how == "value": return 5
    if scope == "parameter":
        async def job(x, z="z", *, y=0, perpetual=policy): return await body(x, z, y, perpetual)
    else:
        async def job(x, z="z", *, y=0): return await body(x, z, y, None)
    w = await d.setup(job, {"dependencies": [policy]} if scope == "worker" else None, bystander=how == "none")
    t.update(await _go(d, t))
    post = d.post
    d.called(calls, ((1, "a"), 2))

    async def ended(before):
        await d.finished("failed" if how == "raises" else "completed", error="Broken: x" if how == "raises" else None,
                         stored={"none": None, "value": lambda x: x == 5, "raises": lambda x: type(x) is Broken}[how], before=before)
    if asks == "superseded":
        mine = [w.runs("k"), w.k("k"), w.queue]
        w.p("superseded/schedules-none", land(*[snap_eq(snap["s"].v.get(k), post.v.get(k)) for k in mine]), "C09 C03", "")
        w.p("superseded/newer-there", w.alive(post, "k"), "C09 C03 C01", "")
        w.p("superseded/newer-whole", lor(*[land(cnd, w.same_message(m, Task("k", asked, args=(7, "new"), kwargs={"y": 9}), d.g + 1, False))
                                            for cnd, p, wh, m in w.live(post, "k")]), "C03 C09", "")
        d.acknowledged("C07 C09")
        d.no_error()
    elif asks == "cancelled":
        await d.finished("cancelled")
    elif asks == "cancel":
        w.p("cancelled-itself/no-successor", not w.copies(post, "k"), "C09 C04", w.copies(post, "k"))
        rec = post.hash(w.runs("k"))
        w.p("cancelled-itself/addable", "known" not in rec and rec.get("state") != "running", "C09 C02", rec)
        await ended(("running", "cancelled") if "cancelled" in d.states() else ("running",))
    elif asks == "struck":
        # no successor, and nothing but this run's own outcome
        await ended(("running",))
        w.p("struck/metrics", d.reported("perpetuated") == 0, "C36", d.metered)
    else:
        end, last = t["end"], c.last_now
        kw = {}
        if asks == "after": lo, hi = t["body"] + asked, end + asked
        elif asks == "at": lo = hi = asked
        else:
            lo = largest(t["claimed"] + every, end)
            hi = largest(t["body"] + every + (last - end), last)
        if asks == "arguments": kw = {"args": (9, "next"), "kwargs": {"y": 8}}
        rescheduled(d, 1, lo, hi, props="C09", what="successor", then="failed" if how == "raises" else "completed", **kw)
    w.frame(d.pre, d.post, ["k"], "C07 C01 C03 C09")
    await d.worker.__aexit__(None, None, None)


async def _go(d, t):
    async def after(what):
        if "body" not in t: t["claimed"] = d.c.now_us()
    d.env.on_step.append(after)
    await d.go()
    d.env.on_step.remove(after)
    return t


class Schedule:
    """stands in for the cron library: the next match after an instant is an unknown function of
    the instant, later than it, and monotone"""
    NEXT = z3.Function("next_match", z3.IntSort(), z3.IntSort())
    seen: list = []

    @classmethod
    def next(cls, us):
        c = core.ctx()
        us = us if isinstance(us, z3.ExprRef) else z3.IntVal(us)
        n = cls.NEXT(us)
        c.add(n > us)
        c.add(n <= us + 10**14)
        for x in c.cron_terms:
            c.add(z3.Implies(x <= us, cls.NEXT(x) <= n))
            c.add(z3.Implies(us <= x, n <= cls.NEXT(x)))
            # no match lies strictly between an instant and its next match
            c.add(z3.Implies(z3.And(x <= us, us < cls.NEXT(x)), n == cls.NEXT(x)))
            c.add(z3.Implies(z3.And(us <= x, x < n), n == cls.NEXT(x)))
        c.cron_terms.append(us)
        return n

    def __init__(self, expression, start):
        self.expression, self.at = expression, dt_us(start)
        core.ctx().cron_expressions.add(expression)
        self.zone = start.tzinfo

    def __iter__(self): return self

    def __next__(self):
        core.ctx().cron_zones.append(self.zone)
        self.at = self.next(self.at)
        return shims.SymDatetime(self.at)


def next_matches(expression, tz, us):
    """brute force: the first whole minute after an instant that matches, for the expressions used here"""
    from datetime import datetime, timedelta, timezone
    t = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)).replace(second=0, microsecond=0)
    for _ in range(60 * 24 * 8):
        t += timedelta(minutes=1)
        x = t.astimezone(tz)
        if expression == "*/5 * * * *" and x.minute % 5 == 0: break
        if expression in ("@daily", "@midnight") and (x.hour, x.minute) == (0, 0): break
        if expression == "@hourly" and x.minute == 0: break
        if expression == "30 9 * * 1-5" and x.weekday() < 5 and (x.hour, x.minute) == (9, 30): break
        if expression == "@weekly" and x.weekday() == 6 and (x.hour, x.minute) == (0, 0): break
    return us_of(t)


@contract("cron", "C01 C02 C03 C04 C05 C06 C07 C09 C19 C28 C36", LOOP + SCHEDULE + ["docket.dependencies._cron:Cron." + f for f in ("__init__", "__aenter__", "next_time", "on_complete")]
          + ["docket.dependencies._perpetual:Perpetual.on_complete"], weight=20,
          assumes=("cronsim: the next match after an instant is later than it, and no match lies in between",))
async def cron(c):
    """a cron task's successor is at the first match after it started"""
    from cronsim import CronSim
    from zoneinfo import ZoneInfo
    from datetime import timezone
    from docket import Cron
    d = Delivery(c, "cron", rels=("queued",))
    c.cron_terms, c.cron_expressions, c.cron_zones = [], set(), []
    expression = c.pick("*/5 * * * *", "@daily", "@hourly", "30 9 * * 1-5", "@weekly")
    tz = c.pick(timezone.utc, ZoneInfo("Asia/Kolkata"))
    how = c.pick("none", "raises", "cancel")
    if c.symbolic:
        c.assume(expression == "*/5 * * * *" or how == "none")
        shims.rebind(CronSim, Schedule)
    calls, t = [], {}
    policy = Cron(expression, tz=tz)

    async def job(x, z="z", *, y=0, cron=policy):
        t["body"] = c.now_us()
        calls.append(((x, z), y))
        if how == "cancel": cron.cancel()
        t["end"] = c.now_us()
        if how == "raises": raise Broken("x")
    w = await d.setup(job, bystander=False)
    before = c.now_us()
    await _go(d, t)
    d.called(calls, ((1, "a"), 2))
    if how == "cancel":
        w.p("cancelled-itself/no-successor", not w.copies(d.post, "k"), "C09", "")
        d.acknowledged("C07 C09")
    else:
        if c.symbolic:
            lo, hi = Sym(Schedule.next(t["claimed"].e)), Sym(Schedule.next(t["end"].e))
        else:
            lo, hi = next_matches(expression, tz, t["claimed"]), next_matches(expression, tz, t["end"])
        when = rescheduled(d, 1, lo, hi, props="C09", what="successor", then="failed" if how == "raises" else "completed")
        if when is not None and c.symbolic:
            w.p("successor/at-a-match", lor(*[when == Sym(Schedule.NEXT(x)) for x in c.cron_terms]), "C09", when)
            w.p("successor/in-the-zone-given", all(z == tz for z in c.cron_zones), "C09", [c.cron_zones, tz])
        elif when is not None:
            w.p("successor/at-a-match", next_matches(expression, tz, when - 1) == when, "C09", when)
    await d.worker.__aexit__(None, None, None)


def gate(verdict):
    """a dependency that blocks: plain, or attached to a parameter"""
    from docket.dependencies import Dependency

    class Gate(Dependency):
        def bind_to_parameter(self, name, value): return self

        async def __aenter__(self):
            await verdict()
            return self
    return Gate()


@contract("blocked", "C01 C02 C03 C04 C05 C06 C07 C17 C18 C19 C21 C28 C36", LOOP + SCHEDULE + ["docket.dependencies._base:AdmissionBlocked.__init__"], weight=25)
async def blocked(c):
    """an admission rule blocks the task: it does not run, and the rule's verdict is carried out"""
    from typing import Annotated
    from docket.dependencies import AdmissionBlocked, current_execution
    d = Delivery(c, "blocked")
    where = c.pick("parameter", "worker", "annotation")
    verdict = c.pick("later", "later-at", "drop", "handled")
    also = c.pick("nothing", "another-fails", "another-failed-first") if d.rel == "queued" else "nothing"
    delay = c.int("delay", 1, 10**15)
    calls, t, snap = [], {}, {}

    async def refuse():
        ex = current_execution.get()
        t["at"] = c.now_us()
        if verdict == "later": raise AdmissionBlocked(ex, "x")
        if verdict == "later-at": raise AdmissionBlocked(ex, "x", retry_delay=delta(delay))
        if verdict == "drop": raise AdmissionBlocked(ex, "x", reschedule=False)
        ex.when = dt(delay)
        await ex.schedule(reschedule_message=ex.message_id)
        snap["s"] = await d.env.snap()
        raise AdmissionBlocked(ex, "x", handled=True)

    async def fail(): raise Broken("broken dependency")
    g, f = gate(refuse), gate(fail)
    deps = {}
    if also == "another-failed-first": deps["a1"] = f
    if where == "parameter": deps["a2"] = g
    if also == "another-fails": deps["a3"] = f
    import inspect

    async def job(x, z="z", *, y=0, **more):
        calls.append(((x, z), y))
    ann = Annotated[int, g] if where == "annotation" else int
    P = inspect.Parameter
    job.__signature__ = inspect.Signature([P("x", P.POSITIONAL_OR_KEYWORD, annotation=ann), P("z", P.POSITIONAL_OR_KEYWORD, default="z"),
                                           P("y", P.KEYWORD_ONLY, default=0),
                                           *[P(k, P.KEYWORD_ONLY, default=v) for k, v in deps.items()]])
    job.__annotations__ = {"x": ann}
    w = await d.setup(job, {"dependencies": {"gate": g}} if where == "worker" else None)
    await d.go()
    w.p("not-called", not calls, "C07 C21", calls)
    attempt = d.task.attempt
    if verdict == "drop":
        await d.finished("cancelled")
    elif verdict == "handled":
        d.no_error()
        w.p("handled/nothing-more", same(w, snap["s"], d.post), "C07", "")
    else:
        wait = 100_000 if verdict == "later" else delay
        rescheduled(d, attempt, t["at"] + wait, c.last_now + wait, props="C07", what="put-off")
    w.frame(d.pre, d.post, ["k"], "C07 C01 C03")
    await d.worker.__aexit__(None, None, None)


@contract("handlers", "C01 C03 C06 C07 C10 C17 C18 C19 C28 C36", LOOP, weight=15)
async def handlers(c):
    """handlers of the user's own, whatever they answer: still exactly one outcome"""
    from docket.dependencies import CompletionHandler, FailureHandler, Runtime
    d = Delivery(c, "handlers")
    kind = c.pick("failure", "completion", "runtime")
    answer = bool(c.choose(2, "answer"))
    how = c.pick("value", "raises")
    calls, log = [], []

    class OnFailure(FailureHandler):
        async def __aenter__(self): return self

        async def handle_failure(self, execution, outcome):
            log.append(("failure", execution.key, outcome.exception, outcome.result))
            return answer

    class OnComplete(CompletionHandler):
        async def __aenter__(self): return self

        async def on_complete(self, execution, outcome):
            log.append(("completion", execution.key, outcome.exception, outcome.result))
            return answer

    class Run(Runtime):
        async def __aenter__(self): return self

        async def run(self, execution, function, args, kwargs):
            log.append(("run", execution.key, args, {k: v for k, v in kwargs.items() if k != "handler"}))
            return await function(*args, **kwargs)
    policy = {"failure": OnFailure, "completion": OnComplete, "runtime": Run}[kind]()

    async def job(x, z="z", *, y=0, handler=policy):
        calls.append(((x, z), y))
        if how == "raises": raise Broken("x")
        return 5
    w = await d.setup(job, bystander=False)
    await d.go()
    d.called(calls, ((1, "a"), 2))
    val = lambda x: x == 5
    exc = lambda x: x == Broken("x")
    if kind == "failure":
        if how == "value":
            w.p("failure-handler/not-asked", not log, "C07", log)
            await d.finished("completed", stored=val)
        else:
            w.p("failure-handler/asked-once", log == [("failure", "k", Broken("x"), None)], "C07", log)
            # a handler that claims the failure without doing anything must not leave the task in limbo
            await d.finished("failed", error=None if answer else "Broken: x", stored=None if answer else exc)
    elif kind == "completion":
        w.p("completion-handler/asked-once", log == [("completion", "k", Broken("x") if how == "raises" else None, 5 if how == "value" else None)],
            "C07 C09", log)
        if how == "value": await d.finished("completed", stored=None if answer else val)
        else: await d.finished("failed", error="Broken: x", stored=exc)
    else:
        w.p("runtime/runs-the-task", log == [("run", "k", (1, "a"), {"y": 2})], "C07 C10", log)
        if how == "value": await d.finished("completed", stored=val)
        else: await d.finished("failed", error="Broken: x", stored=exc)
    await d.worker.__aexit__(None, None, None)


@contract("interrupted", "C01 C02 C03 C04 C06 C07 C08 C09 C28 C36", LOOP + SCHEDULE + ["docket.dependencies._retry:Retry.handle_failure",
          "docket.dependencies._perpetual:Perpetual.on_complete"], weight=25)
async def interrupted(c):
    """the task is cancelled just after any operation on the way, before, in or after its function"""
    import asyncio
    from docket import Perpetual, Retry
    d = Delivery(c, "interrupted")
    kind = c.pick("plain", "retry", "perpetual", "dropped")
    at = c.choose(7, "which operation")
    calls, n = [], [0]
    policy = {"retry": Retry(attempts=3, delay=delta(c.int("delay", 0, 10**15))), "perpetual": Perpetual(every=delta(c.int("every", 0, 10**15)))}.get(kind)

    async def drop():
        from docket.dependencies import AdmissionBlocked, current_execution
        raise AdmissionBlocked(current_execution.get(), "x", reschedule=False)
    if kind == "dropped": policy = gate(drop)

    async def job(x, z="z", *, y=0, policy=policy):
        calls.append(((x, z), y))
        if kind == "retry": raise Broken("x")
        return 5

    async def plain(x, z="z", *, y=0):
        calls.append(((x, z), y))
        return 5
    plain.__name__ = "job"
    w = await d.setup(plain if kind == "plain" else job, bystander=False,
                      attempt=c.int("attempt", 1, 2) if kind == "retry" else None)

    async def strike(what):
        # only while the delivery's own task is at work
        if what in ("xreadgroup", "xautoclaim", "xread") or not d.taking: return
        n[0] += 1
        if n[0] == at + 1: raise asyncio.CancelledError()
    d.env.on_step.append(strike)
    await d.go()
    d.env.on_step.remove(strike)
    c.assume(n[0] > at)
    post = d.post
    d.acknowledged("C07 C03 C04 C01")
    d.no_error()
    w.p("function-called-at-most-once", len(calls) <= 1, "C07", calls)
    rec = post.hash(w.runs("k"))
    live = w.live(post, "k")
    state = rec.get("state")
    copies = w.copies(post, "k")
    if copies:
        w.p("gave-way/one-live-copy", land(len(copies) == 1, w.alive(post, "k")), "C01 C03 C07", copies)
        w.p("gave-way/pending", state in ("queued", "scheduled"), "C07 C28", rec)
        w.p("gave-way/only-if-it-would", kind in ("retry", "perpetual") and bool(calls), "C07 C08 C09", "")
    else:
        w.p("ended/outcome", state in ("completed", "cancelled", "failed", None) and (state is None) == (d.ttl_s is None), "C07 C04", rec)
        w.p("ended/addable", "known" not in rec, "C02 C07 C04", rec)
        if not calls: w.p("ended/not-run-is-cancelled", state in ("cancelled", None), "C04 C07", rec)
    await d.worker.__aexit__(None, None, None)
