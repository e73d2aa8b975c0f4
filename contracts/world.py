"""The data invariant of one task key, phase by phase: how to build a state satisfying it, and
how to state (as named obligations) that a state satisfies it.

A key's record has a *generation* G.  A *copy* of the task is a stream entry, a parked message
with its future-queue member, or a waiter entry; a copy is *live* when it carries generation G.
"""
from __future__ import annotations

import json

import cloudpickle

from engine.env import GROUP, Env, Snap, dict_eq, implies, ite, land, lnot, lor, val_eq
from engine.store import t
from engine.shims import NOW_HI, NOW_LO
from engine.sym import Sym, SymBool, SymDatetime, parse_num, str_eq
import z3

PENDING = ("SCHED", "QUEUED", "DELIVERED", "WAITING")
PHASES = ("ABSENT", "SCHED", "QUEUED", "DELIVERED", "RUNNING", "WAITING",
          "COMPLETED", "FAILED", "CANCELLED", "CANCELLED_RUNNING", "CLEARED")
UNFINISHED = ("SCHED", "QUEUED", "DELIVERED", "RUNNING", "WAITING")
CONTENT = ("key", "when", "function", "args", "kwargs", "attempt")
TRACE = {"traceparent": "00-0123456789abcdef0123456789abcdef-0123456789abcdef-01", "tracestate": "a=b"}


def iso(us):
    if type(us) is Sym: return SymDatetime(us.e).isoformat()
    return dt(us).isoformat()


def dt(us):
    if type(us) is Sym: return SymDatetime(us.e)
    from datetime import datetime, timedelta, timezone
    return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)


def delta(us):
    """timedelta of a number of microseconds"""
    if type(us) is Sym:
        from engine.sym import SymTimedelta
        return SymTimedelta(us.e)
    from datetime import timedelta
    return timedelta(microseconds=us)


def us_of(x):
    """microseconds of a datetime or timedelta"""
    from engine.sym import dt_us, td_us, _is_td
    v = td_us(x) if _is_td(x) else dt_us(x)
    return Sym(v) if isinstance(v, z3.ExprRef) else v


def ts(us):
    """seconds, as the code's when.timestamp()"""
    return dt(us).timestamp()


class Task:
    def __init__(self, key, when, attempt=1, args=(1, "a"), kwargs=None, function="job", trace=True):
        self.key, self.when, self.attempt, self.args = key, when, attempt, tuple(args)
        self.kwargs = {"y": 2} if kwargs is None else kwargs
        self.function, self.trace = function, trace

    def message(self, gen) -> dict:
        m = {"key": self.key, "when": iso(self.when), "function": self.function,
             "args": t(cloudpickle.dumps(self.args)), "kwargs": t(cloudpickle.dumps(self.kwargs)),
             "attempt": str(self.attempt), "generation": str(gen)}
        if self.trace: m.update(TRACE)
        return m


def b(d: dict) -> dict:
    return {k.encode("utf-8", "surrogateescape"): (v.encode("utf-8", "surrogateescape") if isinstance(v, str) else v)
            for k, v in d.items()}


class W:
    """Set-up and obligations for the keys of one docket."""

    def __init__(self, env: Env, op: str):
        self.env, self.c, self.op, self.d = env, env.c, op, env.docket
        self.info: dict[str, dict] = {}
        self.wstream = f"{self.d.prefix}:concurrency:job:waiters"

    # ---- names (the stored format is the contract between clients and workers) ----
    def k(self, s): return f"{self.d.prefix}:{s}"
    def runs(self, key): return self.k(f"runs:{key}")
    @property
    def stream(self): return self.k("stream")
    @property
    def queue(self): return self.k("queue")

    async def group(self):
        await self.d._ensure_stream_and_group() if False else None
        r = self.env.raw
        try:
            await r.xgroup_create(name=self.stream, groupname=GROUP, id="0-0", mkstream=True)
        except Exception as e:
            if "BUSYGROUP" not in str(e): raise

    async def deliver(self, msg: dict, consumer="w-old") -> str:
        """a stream entry handed to a consumer and not yet acknowledged"""
        r = self.env.raw
        mid = t(await r.xadd(self.stream, b(msg)))
        await r.xreadgroup(groupname=GROUP, consumername=consumer, streams={self.stream: ">"}, count=1000)
        return mid

    async def put(self, key, phase, task: Task | None = None, G=1, worker="w-old", started=None, extra=None):
        r, c = self.env.raw, self.c
        info = self.info[key] = {"phase": phase, "task": task, "G": G, "mid": None}
        if phase == "ABSENT": return info
        await self.group()
        rec = {"generation": str(G), "when": str(ts(task.when)), "function": task.function,
               "args": task.message(G)["args"], "kwargs": task.message(G)["kwargs"]}
        known = {"known": str(ts(task.when))}
        started = started if started is not None else task.when
        claimed = {"worker": worker, "started_at": iso(started)}
        if phase == "SCHED":
            rec.update(known, state="scheduled")
            await r.hset(self.k(key), mapping=b(task.message(G)))
            await r.zadd(self.queue, {key: ts(task.when)})
        elif phase in ("QUEUED", "DELIVERED"):
            if phase == "QUEUED":
                # entries already read by the group keep the group's cursor behind this one
                mid = t(await r.xadd(self.stream, b(task.message(G))))
            else:
                mid = await self.deliver(task.message(G), worker)
            info["mid"] = mid
            rec.update(known, state="queued", stream_id=mid)
        elif phase == "RUNNING":
            info["mid"] = await self.deliver(task.message(G), worker)
            rec.update(claimed, state="running")
            await r.hset(self.k(f"progress:{key}"), mapping=b({"current": "3", "total": "10", "generation": str(G)}))
        elif phase == "WAITING":
            info["wid"] = t(await r.xadd(self.wstream, b(task.message(G))))
            rec.update({**known, **claimed}, state="scheduled", waiter_stream=self.wstream, waiter_entry_id=info["wid"])
            await r.hset(self.k(f"progress:{key}"), mapping=b({"current": "0", "total": "100", "generation": str(G)}))
        elif phase in ("COMPLETED", "FAILED", "CANCELLED"):
            rec.update(claimed, state=phase.lower(), completed_at=iso(started))
            if phase == "COMPLETED": rec["result_key"] = key
            if phase == "FAILED": rec.update(error="ValueError: old", result_key=key)
        elif phase == "CANCELLED_RUNNING":
            info["mid"] = await self.deliver(task.message(G), worker)
            rec.update(claimed, state="cancelled", completed_at=iso(started))
        elif phase == "CLEARED":
            rec.update(state="queued")
        if extra: rec.update(extra)
        await r.hset(self.runs(key), mapping=b(rec))
        if phase in ("COMPLETED", "FAILED", "CANCELLED", "CANCELLED_RUNNING", "CLEARED"):
            await r.expire(self.runs(key), 900)
        return info

    # ---- observation ---------------------------------------------------------
    def copies(self, s: Snap, key):
        """every copy of the key's task: (place, where, message)"""
        out = []
        for i, f in s.stream(self.stream).entries:
            if f.get("key") == key: out.append(("stream", i, f))
        if key in s.zset(self.queue):
            out.append(("queue", s.zset(self.queue)[key], s.hash(self.k(key))))
        for k, v in s.v.items():
            if k.endswith(":waiters") and hasattr(v, "entries"):
                for i, f in v.entries:
                    if f.get("key") == key: out.append(("waiter", (k, i), f))
        return out

    def copies_in(self, key, on_stream, s):
        """how many copies, given the keys on the stream (for large dockets)"""
        return (key in on_stream) + (key in s.zset(self.queue) and self.k(key) in s)

    def live(self, s: Snap, key):
        """[(condition, place, where, message)]: the copies carrying the record's generation"""
        g = s.hash(self.runs(key)).get("generation")
        return [(str_eq(m.get("generation", "0"), g) if g is not None else False, p, w, m)
                for p, w, m in self.copies(s, key)]

    def alive(self, s: Snap, key):
        """at least one live copy"""
        return lor(*[x[0] for x in self.live(s, key)])

    # ---- obligations ---------------------------------------------------------
    def p(self, clause, cond, props, detail=""):
        self.c.prove(f"{self.op}/{clause}", cond, props, detail)

    def same_message(self, m, task: Task, gen, trace=True):
        want = task.message(gen)
        if not trace or not task.trace:
            m = {k: v for k, v in m.items() if k not in TRACE}
            want = {k: v for k, v in want.items() if k not in TRACE}
        got = {k: v for k, v in m.items() if k != "generation"}
        if not self.c.symbolic and "when" in got:       # the same instant, in whatever time zone
            from datetime import datetime, timezone
            got["when"] = datetime.fromisoformat(got["when"]).astimezone(timezone.utc).isoformat()
        want.pop("generation")
        return land(dict_eq(got, want), str_eq(m.get("generation"), str(gen)))

    def counted(self, conds, n):
        """exactly n of the conditions hold"""
        if not any(type(x) is SymBool for x in conds):
            return sum(bool(x) for x in conds) == n
        tot = z3.Sum([z3.If(x.e, 1, 0) if type(x) is SymBool else z3.IntVal(1 if x else 0) for x in conds])
        return SymBool(tot == n)

    def no_outcome(self, rec):
        return not any(f in rec for f in ("error", "result_key", "completed_at"))

    def expect_queued(self, s, key, task, G, props="C01 C02 C03 C05 C19", fresh=True, trace=True):
        """ready for delivery: exactly one live copy, in the stream, found by its recorded id"""
        rec, live = s.hash(self.runs(key)), self.live(s, key)
        st = [(cnd, w, m) for cnd, p, w, m in live if p == "stream"]
        self.p("queued/state", str_eq(rec.get("state"), "queued"), props + " C28", rec)
        self.p("queued/generation", str_eq(rec.get("generation"), str(G)), "C03 C01", rec)
        self.p("queued/one-live-copy", self.counted([x[0] for x in live], 1), "C01 C02 C03 C05 C11", live)
        self.p("queued/in-stream", self.counted([x[0] for x in st], 1), "C01 C05 C02 C03", live)
        self.p("queued/stream-id", lor(*[land(cnd, str_eq(rec.get("stream_id"), w)) for cnd, w, _ in st]),
               "C04 C03", rec)
        self.p("queued/message", lor(*[land(cnd, self.same_message(m, task, G, trace)) for cnd, _, m in st]),
               "C19 C02 C05 C03", st)
        self.p("queued/known", "known" in rec, "C02 C01", rec)
        self.p("queued/not-scheduled-too", key not in s.zset(self.queue) and self.k(key) not in s, "C03 C05", "")
        self.p("queued/record-persists", s.ttl.get(self.runs(key)) is None, "C01", "")
        if fresh:
            self.p("queued/nothing-carried-over", self.no_outcome(rec) and "worker" not in rec and "started_at" not in rec,
                   "C06", rec)
        self.call(rec, task)

    def expect_sched(self, s, key, task, G, props="C01 C02 C03 C05 C19", fresh=True, trace=True):
        """waiting for its time: exactly one live copy, parked, due at its time"""
        rec, live = s.hash(self.runs(key)), self.live(s, key)
        q = s.zset(self.queue)
        self.p("sched/state", str_eq(rec.get("state"), "scheduled"), props + " C28", rec)
        self.p("sched/generation", str_eq(rec.get("generation"), str(G)), "C03 C01", rec)
        self.p("sched/one-live-copy", self.counted([x[0] for x in live], 1), "C01 C02 C03 C05", live)
        self.p("sched/parked", land(key in q, dict_present(s.hash(self.k(key)))), "C01 C05", "")
        self.p("sched/due-time", val_eq(q[key], ts(task.when)) if key in q else False, "C05 C08 C09", q)
        self.p("sched/message", self.same_message(s.hash(self.k(key)), task, G, trace), "C19 C02 C05 C03",
               s.hash(self.k(key)))
        self.p("sched/known", "known" in rec, "C02 C01", rec)
        self.p("sched/no-stream-id", "stream_id" not in rec, "C04", rec)
        self.p("sched/record-persists", s.ttl.get(self.runs(key)) is None, "C01", "")
        self.p("sched/message-persists", s.ttl.get(self.k(key)) is None and s.ttl.get(self.queue) is None, "C01", "")
        if fresh:
            self.p("sched/nothing-carried-over", self.no_outcome(rec) and "worker" not in rec and "started_at" not in rec,
                   "C06", rec)
        self.call(rec, task)

    def call(self, rec, task):
        m = task.message(1)
        self.p("record/call", land(rec.get("function") == m["function"], rec.get("args") == m["args"],
                                   rec.get("kwargs") == m["kwargs"]), "C02 C19", rec)
        w = parse_num(rec["when"]) if "when" in rec else None
        self.p("record/when", w is not None and val_eq(w, ts(task.when)), "C02 C19 C29", rec)

    def frame(self, pre: Snap, post: Snap, keys, props="C01 C03", name="frame", skip=()):
        """nothing belonging to any other key changed"""
        keys = set(keys)
        mine = {x for key in keys for x in (self.runs(key), self.k(key), self.k(f"progress:{key}"),
                                            self.k(f"known:{key}"), self.k(f"stream-id:{key}"))} | set(skip)
        bad, conds = [], []
        shared = {self.stream, self.queue}
        for k in set(pre.v) | set(post.v):
            if k in mine or k.startswith(self.d.results_collection) and k[len(self.d.results_collection) + 1:] in keys: continue
            if k in shared or k.endswith(":waiters"):
                a, z = self._others(pre, k, keys), self._others(post, k, keys)
                conds.append(val_eq(a, z))
                if val_eq(a, z) is False: bad.append((k, a, z))
                continue
            a, z = pre.v.get(k), post.v.get(k)
            cnd = snap_eq(a, z)
            if cnd is False: bad.append((k, a, z))
            conds.append(cnd)
            conds.append(val_eq(pre.ttl.get(k), post.ttl.get(k)) if self.c.symbolic else
                         (pre.ttl.get(k) is None) == (post.ttl.get(k) is None))
        self.p(name, land(*conds), props, bad)

    def _others(self, s: Snap, k, keys):
        if k == self.queue:
            return {m: x for m, x in s.zset(k).items() if m not in keys}
        st = s.stream(k)
        ents = [[i, f] for i, f in st.entries if f.get("key") not in keys]
        ids = {i for i, _ in ents}
        return [ents, {i: {"consumer": p["consumer"]} for i, p in st.pel.items() if i in ids}]

    def unchanged(self, pre: Snap, post: Snap, name, props, keys=None):
        conds, bad = [], []
        for k in set(pre.v) | set(post.v):
            if keys is not None and k not in keys: continue
            cnd = snap_eq(pre.v.get(k), post.v.get(k))
            if cnd is False: bad.append((k, pre.v.get(k), post.v.get(k)))
            conds.append(cnd)
            a, z = pre.ttl.get(k), post.ttl.get(k)
            if k in pre.v and k in post.v:
                conds.append(val_eq(a, z) if self.c.symbolic else (a is None) == (z is None))
        self.p(name, land(*conds), props, bad)

    def events(self, evs, key):
        """state announcements for one key: [(state, payload)]"""
        out = []
        for ch, payload in evs:
            if ch == self.k(f"state:{key}"):
                out.append(loads(payload))
        return out

    def expect_events(self, evs, key, states, props="C28", name="announced"):
        ev = [e for e in self.events(evs, key) if e.get("type") == "state"]
        self.p(name, land(len(ev) == len(states), *[land(e.get("state") == w, e.get("key") == key)
                                                   for e, w in zip(ev, states)]), props, evs)
        other = [x for x in evs if ":state:" in x[0] and x[0] != self.k(f"state:{key}")]
        self.p(name + "/only-this-key", not other, props, other)


def role(coro):
    """what a coroutine the worker starts is for, by what it does: "execute" (one delivery), or
    which of its background loops"""
    import types as ty
    from docket import worker as m
    from docket.execution import Execution
    held = coro.cr_frame.f_locals if coro.cr_frame is not None else {}
    if any(isinstance(x, Execution) for x in held.values()): return "execute"
    names, todo, owner = set(), [coro.cr_code], held.get("self")
    if not isinstance(owner, m.Worker) and not coro.cr_code.co_filename.endswith("worker.py"): return "other"
    seen = set()
    while todo:
        code = todo.pop()
        if code in seen: continue
        seen.add(code)
        todo += [x for x in code.co_consts if isinstance(x, ty.CodeType)]
        for n in code.co_names:
            names.add(n)
            f = getattr(m.Worker, n, None) or getattr(m, n, None)
            if isinstance(f, ty.FunctionType) and f.__module__ == m.__name__: todo.append(f.__code__)
    for hallmark, what in (("resolved_dependencies", "execute"), ("xclaim", "leases"), ("psubscribe", "listener"), ("sadd", "heartbeat"),
                           ("_stream_due_tasks", "scheduler"), ("initial_when", "reseed")):
        if hallmark in names: return what
    return "other"


def dict_present(h): return bool(h)


def loads(p):
    try:
        from engine.shims import _loads
        return _loads(p)
    except ValueError:
        return {"type": "unparsable", "raw": p}


def snap_eq(a, z):
    if hasattr(a, "entries") or hasattr(z, "entries"):
        e1 = [[i, f] for i, f in a.entries] if hasattr(a, "entries") else []
        e2 = [[i, f] for i, f in z.entries] if hasattr(z, "entries") else []
        p1 = {i: p["consumer"] for i, p in a.pel.items()} if hasattr(a, "entries") else {}
        p2 = {i: p["consumer"] for i, p in z.pel.items()} if hasattr(z, "entries") else {}
        return land(val_eq(e1, e2), p1 == p2)
    if isinstance(a, tuple) and isinstance(z, tuple):
        if a[0] != z[0]: return False
        return val_eq(a[1], z[1]) if a[0] == "zset" else a[1] == z[1]
    if isinstance(a, dict) and isinstance(z, dict): return dict_eq(a, z)
    if isinstance(a, str) and isinstance(z, str): return str_eq(a, z)
    return a is None and z is None


async def job(x, z="z", *, y=0):
    return x


async def other_job(a=1):
    return a
