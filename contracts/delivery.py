"""Contracts of one delivery: what a worker makes of one message, whatever the task does
(Worker._worker_loop, Worker._execute, resolved_dependencies and the handlers)."""
from __future__ import annotations

import base64

import cloudpickle

from .world import *
from .lifecycle import NEWER, newer_gen, newer_of, same, minus_entry, ttl_docket, ttl_is
from .transfer import HI, a_worker
from engine import core, meters, shims
from engine.env import Env
from .registry import contract

LOOP = ["docket.worker:Worker._worker_loop", "docket.worker:Worker._execute", "docket.execution:Execution.from_message",
        "docket.execution:Execution.claim", "docket.execution:_claim (Lua)", "docket.execution:Execution._mark_as_terminal",
        "docket.execution:_terminal (Lua)", "docket.dependencies._resolution:resolved_dependencies"]


class Broken(Exception):
    def __eq__(self, o): return isinstance(o, Broken) and self.args == o.args
    __hash__ = Exception.__hash__


async def run_one(c, env, worker, d=None):
    """Let the worker's loop take one delivery and see it through; its background loops (own
    contracts) stay out of the way."""
    import asyncio
    import inspect
    started = []

    async def wait_for(aw, timeout=None):
        if inspect.iscoroutine(aw) and aw.cr_code.co_name == "wait":
            aw.close()
            if worker._processing_session is not None:
                worker._processing_session.cancellation_ready.set()
            return True
        return await aw

    def create_task(coro, name):
        what = role(coro)
        if what not in ("execute", "other") or what == "other" and not started: return shims.FakeTask(coro, name)
        if what == "execute" and not started:
            started.append(name)
            if d is not None: d.taking = True
            if c.symbolic:
                t = shims.EagerTask(coro, name)
                worker._worker_stopping.set()
                if d is not None: d.taking = False
            else:
                async def once():
                    try: return await coro
                    finally:
                        worker._worker_stopping.set()
                        if d is not None: d.taking = False
                t = asyncio.create_task(once(), name=name)
            return t
        return shims.EagerTask(coro, name) if c.symbolic else asyncio.create_task(coro, name=name)
    c.hooks["wait_for"], c.hooks["create_task"] = wait_for, create_task
    worker._worker_stopping.clear()
    polls = [0]

    async def nothing_comes(what):
        if what == "xreadgroup":
            polls[0] += 1
            if polls[0] > 2 and not started: worker._worker_stopping.set()
    env.on_step.append(nothing_comes)
    err = None
    try:
        async with env.docket.redis() as r:
            await worker._worker_loop(r, forever=True)
    except core.PathEnd:
        raise
    except Exception as e:
        if isinstance(e, core.Unsupported): raise
        err = e
    finally:
        env.on_step.remove(nothing_comes)
        c.hooks.pop("wait_for"), c.hooks.pop("create_task")
    return started, err


class Delivery:
    """one message of key k, in some relation to the record, about to reach the worker"""

    RELATIONS = ("queued", "redelivered", "stale", "stale-redelivered", "cancelled", "gone")
    LIVE = ("queued", "redelivered")
    taking = False          # the delivery's own task is at work

    def __init__(self, c, op, rels=LIVE, ttl=None):
        self.c, self.op = c, op
        self.rel = c.pick(*rels)
        self.ttl, self.ttl_s = ttl if ttl is not None else ttl_docket(c)

    async def setup(self, fn, worker_kwargs=None, task=None, bystander=True, attempt=None, **env_kwargs):
        c = self.c
        self.env = env = await Env.make(c, **self.ttl, **env_kwargs)
        env.docket.register(fn)
        env.docket.register(other_job)
        self.w = w = W(env, self.op)
        if bystander:
            await w.put("o1", "SCHED", Task("o1", c.int("o1_when", 10**6, HI), args=(5,)), c.int("o1_G", 1, 10**9))
        self.task = task if task is not None else Task("k", c.int("when", 10**6, HI), attempt if attempt is not None else c.int("attempt", 1, 10**6),
                                 function=fn.__name__)
        self.g = g = c.int("g", 1, 10**9)
        re = self.rel.endswith("redelivered")
        await w.group()
        self.newer = None
        if self.rel == "queued":
            await w.put("k", "QUEUED", self.task, g)
            self.mid = w.info["k"]["mid"]
        elif self.rel == "redelivered":
            await w.put("k", "RUNNING", self.task, g)
            self.mid = w.info["k"]["mid"]
        else:
            if self.rel == "stale" and c.choose(2, "the newer one is running"):
                self.newer, self.newer_phase = newer_of(c), "RUNNING"
                await w.put("k", "RUNNING", self.newer, newer_gen(c, g))
            m = b(self.task.message(g))
            self.mid = await w.deliver(self.task.message(g)) if re else t(await env.raw.xadd(w.stream, m))
            if self.rel == "cancelled":
                rec = {"generation": str(g), "state": "cancelled", "completed_at": iso(self.task.when), "when": str(ts(self.task.when)),
                       "function": self.task.function, "args": self.task.message(g)["args"], "kwargs": self.task.message(g)["kwargs"]}
                await env.raw.hset(w.runs("k"), mapping=b(rec))
                await env.raw.expire(w.runs("k"), 900)
            elif self.rel.startswith("stale") and self.newer is None:
                self.newer = newer_of(c)
                self.newer_phase = c.pick("SCHED", "QUEUED", "WAITING", "COMPLETED", "FAILED", *["RUNNING"][:re])
                self.G = newer_gen(c, g)
                await w.put("k", self.newer_phase, self.newer, self.G)
        self.worker = await a_worker(env, concurrency=1, minimum_check_interval=__import__("datetime").timedelta(milliseconds=1),
                                     redelivery_timeout=__import__("datetime").timedelta(seconds=0 if re else 300),
                                     **(worker_kwargs or {}))
        return w

    async def go(self):
        self.pre = await self.env.snap()
        readings = len(self.c.nows)
        await self.env.drain()
        snaps, heard = [], len(meters.heard(self.c))

        async def watch(what):
            if what not in ("lock", "unlock", "result.put"): snaps.append(await self.env.snap())
        self.env.on_step.append(watch)
        self.started, self.error = await run_one(self.c, self.env, self.worker, self)
        self.env.on_step.remove(watch)
        self.post = await self.env.snap()
        if self.rel in self.LIVE:
            # a crash after any step leaves the task on the docket, unless its outcome is already on record
            w, rk = self.w, self.w.runs("k")
            self.p("never-lost-on-the-way", land(*[lor(w.alive(s, "k"), land(rk in s if rk in self.post else True,
                   dict_eq(s.hash(rk), self.post.hash(rk)))) for s in snaps]), "C01 C06 C09", f"{len(snaps)} steps")
        self.evs = await self.env.drain()
        self.metered = meters.heard(self.c)[heard:]
        if self.reported("started"): self.clock = self.c.first_after(readings)
        self.counted()
        return self.post

    # ---- clauses -----------------------------------------------------------
    def p(self, *a): self.w.p(*a)

    RUN = {f"docket_tasks_{x}" for x in ("started", "redelivered", "running", "completed", "failed", "succeeded", "retried", "perpetuated")}

    def reported(self, name):
        """what the worker reports; a request of the task's own being turned away is the docket's report"""
        return sum(n for x, n, a in self.metered if x == f"docket_tasks_{name}" and a.get("docket.where") != "docket")

    def counted(self):
        """what the worker reports of this delivery, however it went"""
        amounts = [n for x, n, _ in self.metered if x == "docket_tasks_running"]
        under_way = [sum(amounts[:i]) for i in range(len(amounts) + 1)]
        self.p("metrics/running-only-while-running", set(under_way) <= {0, 1} and under_way[-1] == 0, "C36", amounts)
        sides = [[sorted(a.items()) for x, n, a in self.metered if x == "docket_tasks_running" and n == sign] for sign in (1, -1)]
        self.p("metrics/running-no-more", sides[0] == sides[1], "C36", sides)
        n = self.reported("started")
        self.p("metrics/started-then-completed", n in (0, 1) and n == self.reported("completed") == amounts.count(1), "C36", self.metered)
        times = [len([1 for x, _, _ in self.metered if x == f"docket_task_{y}"]) for y in ("duration", "punctuality")]
        self.p("metrics/times-once-each", times == [n, n], "C36", self.metered)
        eps = 0 if self.c.symbolic else 10**-3          # a clock in floating point
        for value in [v for x, v, _ in self.metered if x == "docket_task_punctuality"]:
            late = value * 10**6 + self.task.when
            self.p("metrics/how-late", land(self.clock <= late + eps * 10**6, late <= self.c.last_now + eps * 10**6), "C36", value)
        for value in [v for x, v, _ in self.metered if x == "docket_task_duration"]:
            began, ended = getattr(self.c, "body_took", (0, 0))
            self.p("metrics/how-long", land(value * 10**6 + eps * 10**6 >= ended - began, value * 10**6 <= self.c.last_now - self.clock + eps * 10**6), "C36", value)
        self.p("metrics/one-outcome", self.reported("succeeded") + self.reported("failed") in (0, n), "C36", self.metered)
        self.p("metrics/redelivered", self.reported("redelivered") == (n if self.rel == "redelivered" else 0), "C36", self.metered)
        names = {"docket.name": self.env.docket.name, "docket.worker": self.worker.name}
        self.p("metrics/by-name", all(all(a.get(k) == v for k, v in names.items()) and "docket.task" in a for x, _, a in self.metered if x in self.RUN), "C36", self.metered)
        if self.rel not in self.LIVE:
            self.p("metrics/not-run", n == 0 and self.reported("superseded") + self.reported("stricken") == 1, "C36", self.metered)

    def outcome(self, state, before):
        """which outcome it reports, in agreement with the record"""
        if not hasattr(self, "metered"): return
        got = {x: self.reported(x) for x in ("started", "succeeded", "failed", "stricken", "retried", "superseded")}
        ran = "running" in before
        self.p(f"{state}/metrics", got == {"started": int(ran), "succeeded": int(ran and state == "completed"), "failed": int(ran and state == "failed"),
                                           "stricken": int(not ran), "retried": 0, "superseded": 0}, "C36", got)

    def states(self): return [e.get("state") for e in self.w.events(self.evs, "k") if e.get("type") == "state"]

    def acknowledged(self, props="C07 C06 C03"):
        st = self.post.stream(self.w.stream)
        self.p("acknowledged", all(i != self.mid for i, _ in st.entries) and self.mid not in st.pel, props, st.entries)

    def no_error(self):
        self.p("worker-carries-on", self.error is None, "C07", repr(self.error))

    def called(self, calls, *want):
        """the function ran once, with exactly these calls"""
        self.p("called-once-as-scheduled", land(len(calls) == 1, *[val_eq(list(x), list(y)) for x, y in zip(calls, want)]), "C07 C19", calls)

    async def finished(self, state, *, error=None, stored=None, before=("running",)):
        """the outcome on record, its announcement and its stored data"""
        w, post = self.w, self.post
        rec = post.hash(w.runs("k"))
        self.acknowledged()
        self.no_error()
        self.outcome(state, before)
        self.p(f"{state}/announced", self.states() == [*before, state], "C07 C28 C17", self.evs)
        self.p(f"{state}/nothing-left", not w.copies(post, "k"), "C07 C01 C03", "")
        self.p(f"{state}/progress-dropped", w.k("progress:k") not in post, "C06 C18", "")
        kept, keep = await self.env.result("k")
        data = {} if kept is None else {"k": kept}
        if self.ttl_s is None:
            self.p(f"{state}/record-removed", w.runs("k") not in post, "C06", rec)
            self.p(f"{state}/nothing-stored", not data, "C06 C17", data)
            return
        self.p(f"{state}/recorded", str_eq(rec.get("state"), state), "C07 C06 C17", rec)
        self.p(f"{state}/version-kept", str_eq(rec.get("generation"), str(self.g)), "C03", rec)
        self.p(f"{state}/error", error(rec.get("error")) if callable(error) else rec.get("error") == error, "C07 C17", rec)
        if stored is None:
            self.p(f"{state}/nothing-stored", not data and "result_key" not in rec, "C17 C07", [data, rec])
        else:
            got = cloudpickle.loads(base64.b64decode(data["k"]["data"])) if "k" in data else None
            self.p(f"{state}/stored", "k" in data and stored(got), "C17 C07", [data, got])
            self.p(f"{state}/refers-to-stored", rec.get("result_key") == "k", "C17 C07", rec)
            self.p(f"{state}/stored-as-long-as-the-record", keep is not None and (val_eq(keep, self.ttl_s) if self.c.symbolic else abs(keep - self.ttl_s) <= 1), "C17 C06", keep)
            log = self.env.docket.result_storage.log
            self.p(f"{state}/stored-once", len(log) == 1, "C17 C07", log)

    def refused(self, calls):
        """a delivery not to be run: nothing happened but its removal"""
        self.p("refused/not-called", not calls, "C07 C03 C04 C15", calls)
        self.acknowledged("C07 C03 C04")
        self.no_error()
        self.p("refused/nothing-else", same(self.w, minus_entry(self.w, self.pre, self.mid), minus_entry(self.w, self.post, self.mid)), "C03 C04 C07 C01",
               "")
        self.p("refused/announces-nothing", not self.evs, "C28 C03", self.evs)


def recorder(calls, action=None):
    """a task function with the signature (x, z="z", *, y=0)"""
    async def job(x, z="z", *, y=0):
        calls.append(((x, z), y))
        c = core.ctx()
        began = c.now_us()
        try:
            if action is not None: return await action()
        finally: c.body_took = (began, c.now_us())
    return job


@contract("deliver", "C01 C03 C04 C06 C07 C15 C17 C18 C19 C28 C36", LOOP, weight=20)
async def deliver(c):
    """a plain task function: returns, raises, is cancelled"""
    d = Delivery(c, "deliver", Delivery.RELATIONS)
    how = c.pick("none", "value", "raises", "cancelled", "raises-unpicklable", "raises-odd-text", "unpicklable") if d.rel in d.LIVE else "none"
    calls = []

    async def action():
        import asyncio
        if how == "raises-unpicklable":
            e = Broken("x")
            e.lock = __import__("threading").Lock()
            raise e
        if how == "raises-odd-text": raise Broken("no such file: caf\udce9")
        if how == "unpicklable": return __import__("threading").Lock()
        if how == "value": return {"answer": [1, "x"]}
        if how == "raises": raise Broken('no "luck"')
        if how == "cancelled": raise asyncio.CancelledError()
    await d.setup(recorder(calls, action))
    await d.go()
    if d.rel not in d.LIVE:
        d.refused(calls)
        await d.worker.__aexit__(None, None, None)
        return
    d.called(calls, ((1, "a"), 2))
    if how == "none": await d.finished("completed")
    elif how == "value": await d.finished("completed", stored=lambda x: x == {"answer": [1, "x"]})
    elif how == "raises": await d.finished("failed", error='Broken: no "luck"', stored=lambda x: x == Broken('no "luck"'))
    elif how == "raises-unpicklable": await d.finished("failed", error="Broken: x")
    elif how == "raises-odd-text":
        await d.finished("failed", error=lambda e: e is not None and e.startswith("Broken: no such file: caf"), stored=lambda x: x == Broken("no such file: caf\udce9"))
    elif how == "unpicklable" and d.ttl_s is None: await d.finished("completed")
    elif how == "unpicklable": await d.finished("failed", error=lambda e: e is not None and "pickle" in e, stored=lambda x: isinstance(x, Exception))
    else: await d.finished("cancelled")
    d.w.frame(d.pre, d.post, ["k"], "C07 C01 C03")
    await d.worker.__aexit__(None, None, None)


@contract("deliver.meddling", "C01 C02 C03 C04 C06 C07 C17 C18 C19 C28 C36", LOOP + ["docket.docket:Docket.replace", "docket.docket:Docket.cancel"], weight=20)
async def meddling(c):
    """while the task runs, its key is replaced or cancelled by someone else (or by itself)"""
    d = Delivery(c, "meddling")
    what = c.pick("replaced", "cancelled", "cancelled-and-added-again", "added")
    how = c.pick("value", "raises", "stopped")
    calls = []
    when = c.int("next_when", 10**6, HI)
    new = Task("k", when, args=(7, "new"), kwargs={"y": 9}, trace=False)
    snap = {}

    async def action():
        import asyncio
        if what in ("cancelled", "cancelled-and-added-again"): await env.docket.cancel("k")
        if what == "replaced": await env.docket.replace(job, dt(when), "k")(7, "new", y=9)
        elif what != "cancelled":
            ex = await env.docket.add(job, dt(when), "k")(7, "new", y=9)
            snap["disposition"] = ex.disposition
        snap["now"] = c.last_now
        snap["s"] = await env.snap()
        snap["evs"] = await env.drain()
        if how == "raises": raise Broken("x")
        if how == "stopped": raise asyncio.CancelledError()
        return 5
    w = await d.setup(recorder(calls, action), bystander=False)
    env = d.env
    from docket.execution import Disposition
    post = await d.go()
    d.called(calls, ((1, "a"), 2))
    d.no_error()
    d.acknowledged()
    if what == "added":
        w.p("add-during-run-refused", snap["disposition"] is Disposition.ALREADY_SCHEDULED, "C02", "")
    restarted = what == "replaced" or what == "cancelled-and-added-again"
    if what == "cancelled-and-added-again":
        w.p("add-after-cancel-accepted", snap["disposition"] is Disposition.SCHEDULED, "C02 C04", "")
    if restarted and not (what == "cancelled-and-added-again" and d.ttl_s is None):
        mine = lambda s: {k: v for k, v in s.v.items() if k in (w.runs("k"), w.k("k"), w.queue)}
        a, z = snap["s"], post
        w.p("newer-version-untouched", land(*[snap_eq(a.v.get(k), z.v.get(k)) for k in set(mine(a)) | set(mine(z))]), "C03 C01 C18", "")
        w.p("newer-version-there", w.alive(post, "k"), "C03 C01", post.v)
        gen = post.hash(w.runs("k")).get("generation")
        w.p("newer-version-newer", str_eq(gen, str(d.g + 1)), "C03", gen)
        w.p("newer-version-whole", lor(*[land(cnd, w.same_message(m, new, d.g + 1, False)) for cnd, p, wh, m in w.live(post, "k")]), "C03 C02", "")
    elif what in ("added", "cancelled"):
        state = {"value": "completed", "raises": "failed", "stopped": "cancelled"}[how]
        rec = post.hash(w.runs("k"))
        if d.ttl_s is not None:
            w.p("outcome", str_eq(rec.get("state"), state), "C07 C06", rec)
        w.p("nothing-left-to-run", not w.copies(post, "k"), "C04 C07", "")
        w.p("addable", "known" not in rec, "C02 C04", rec)
    await d.worker.__aexit__(None, None, None)


@contract("deliver.unknown", "C01 C03 C06 C07 C17 C18 C19 C28 C36", LOOP + ["docket.worker:default_fallback_task"], weight=3)
async def unknown(c):
    """a task this worker does not know goes to the fallback, with its arguments"""
    d = Delivery(c, "unknown")
    calls = []
    own = c.choose(2, "a fallback of the user's")

    async def fallback(*args, **kwargs):
        calls.append((args, kwargs))
        return 3

    async def known(a=1): calls.append("wrong")
    await d.setup(known, {"fallback_task": fallback} if own else {},
                  task=Task("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), function="elsewhere"))
    await d.go()
    if own:
        d.called(calls, ((1, "a"), {"y": 2}))
        await d.finished("completed", stored=lambda x: x == 3)
    else:
        d.p("known-task-not-called", not calls, "C07", calls)
        await d.finished("completed")
    await d.worker.__aexit__(None, None, None)


@contract("deliver.struck", "C01 C03 C04 C06 C07 C15 C17 C18 C28 C36", LOOP + ["docket.strikelist:StrikeList.is_stricken", "docket.worker:Worker._delete_known_task"], weight=3)
async def struck(c):
    d = Delivery(c, "struck", Delivery.RELATIONS)
    calls = []
    await d.setup(recorder(calls))
    from docket.strikelist import Strike
    d.env.docket.strike_list.update(c.pick(Strike("job", None, "==", None), Strike(None, "x", "!=", None)))
    await d.go()
    d.p("not-called", not calls, "C07 C15", calls)
    if d.rel in d.LIVE:
        await d.finished("cancelled", before=())
    else:
        d.acknowledged()
        d.no_error()
        st = [s for s in d.post.v if s in (d.w.runs("k"), d.w.k("k"), d.w.queue)]
        if d.rel.startswith("stale"):
            d.p("newer-version-untouched", land(*[snap_eq(d.pre.v.get(k), d.post.v.get(k)) for k in st]), "C03 C01", "")
            if d.newer_phase in PENDING: d.p("newer-version-there", d.w.alive(d.post, "k"), "C01 C03", "")
    await d.worker.__aexit__(None, None, None)


@contract("deliver.unreadable", "C01 C03 C06 C07 C17 C18 C28", LOOP, weight=3)
async def unreadable(c):
    """a task whose arguments cannot be read here fails, once; the worker carries on"""
    d = Delivery(c, "unreadable", ("queued", "redelivered", "stale-redelivered"))
    what, broken = c.pick("args", "kwargs"), c.pick("not a pickle", "cno_such_module\nThing\n.")
    calls = []

    class Unreadable(Task):
        def message(self, gen): return {**super().message(gen), what: broken}
    await d.setup(recorder(calls), task=Unreadable("k", c.int("when", 10**6, HI), c.int("attempt", 1, 10**6), function="job"))
    if d.newer is not None and d.newer_phase in ("QUEUED", "RUNNING"): return      # would be delivered right after
    d.pre = await d.env.snap()
    await d.env.drain()

    async def done(what):
        if d.mid not in [i for i, _ in (await d.env.snap()).stream(d.w.stream).entries]: d.worker._worker_stopping.set()
    d.env.on_step.append(done)
    d.started, d.error = await run_one(c, d.env, d.worker, d)
    d.env.on_step.remove(done)
    d.post, d.evs = await d.env.snap(), await d.env.drain()
    d.p("not-called", not calls, "C07", calls)
    d.acknowledged()
    d.no_error()
    if d.rel.startswith("stale"):
        st = [k for k in set(d.pre.v) | set(d.post.v) if k in (d.w.runs("k"), d.w.k("k"), d.w.queue)]
        d.p("newer-version-untouched", land(*[snap_eq(d.pre.v.get(k), d.post.v.get(k)) for k in st]), "C03 C01", "")
    else:
        await d.finished("failed", error=lambda e: bool(e), before=())
    d.w.frame(d.pre, d.post, ["k"], "C07 C01 C03")
    await d.worker.__aexit__(None, None, None)
