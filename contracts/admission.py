"""Contracts of the admission rules: rate limits (C12), debounce (C13), cooldown (C14)."""
from __future__ import annotations

import inspect

from .world import *
from .delivery import LOOP, Broken, Delivery
from .handlers import gate, rescheduled
from .injection import P, signed
from .lifecycle import execution_from
from .transfer import HI, a_worker
from engine.env import Env
from engine.store import Rest
from engine.sym import Sym
from .registry import contract
import z3

RESOLVE = ["docket.dependencies._resolution:resolved_dependencies"]


def SHORTEST(c):
    """of windows: longer where a real server's clock runs along"""
    return 1000 if c.symbolic else 10**8


async def enter(env, worker, fn, key="o1", args=(1, "a"), kwargs=None, inside=None, before=None):
    """a task of this function and key asks for admission, the way Worker._execute does: None when
    admitted (and done), else what blocked it"""
    from docket.dependencies import AdmissionBlocked, FailedDependency, resolved_dependencies
    task = Task(key, 10**15, 1, args=args, kwargs={} if kwargs is None else kwargs, function=fn.__name__, trace=False)
    ex = await execution_from(env, task, 1, "999-0")
    if before is not None: before()
    try:
        async with resolved_dependencies(worker, ex) as deps:
            for v in deps.values():
                if isinstance(v, FailedDependency): raise v.error
            if inside is not None: await inside()
    except AdmissionBlocked as e:
        return e
    return None


def limited(calls, rule, place, *more, action=None):
    """a task function under a rule, declared as a parameter or on the argument x"""
    from typing import Annotated

    async def job(x, z="z", *, y=0, **_):
        calls.append(((x, z), y))
        if action == "fails": raise Broken("x")
        if action == "stops":
            import asyncio
            raise asyncio.CancelledError()
    ann = Annotated[int, rule] if place == "annotation" else int
    params = [P("x", P.POSITIONAL_OR_KEYWORD, annotation=ann), P("z", P.POSITIONAL_OR_KEYWORD, default="z"), P("y", P.KEYWORD_ONLY, default=0)]
    if place != "annotation": params.append(P("rule", P.KEYWORD_ONLY, default=rule))
    params += [P(f"more{i}", P.KEYWORD_ONLY, default=r) for i, r in enumerate(more)]
    return signed(job, params)


def zsets(s, w): return {k for k, v in s.v.items() if isinstance(v, tuple) and v[0] == "zset" and k != w.queue}
def strings(s): return {k for k, v in s.v.items() if isinstance(v, str)}


def refuse_later(at):
    """a rule that always puts the task off"""
    async def verdict():
        from docket.dependencies import AdmissionBlocked, current_execution
        at.append(1)
        raise AdmissionBlocked(current_execution.get(), "x")
    return gate(verdict)


def total(xs):
    n = 0
    for x in xs: n = n + (int(x) if type(x) is bool else ite(x, 1, 0))
    return n


@contract("ratelimit", "C01 C02 C03 C05 C06 C07 C12 C17 C19 C28 C36", LOOP + RESOLVE + ["docket.dependencies._ratelimit:" + f for f in
          ("RateLimit.__init__", "RateLimit.bind_to_parameter", "RateLimit.__aenter__", "RateLimit.__aexit__", "_ratelimit (Lua)")], weight=20)
async def ratelimit(c):
    """whoever was admitted before, and when: admitted exactly if fewer than the limit within the
    window, remembered for the whole window, given back only its own place"""
    from docket import RateLimit
    d = Delivery(c, "ratelimit", rels=("queued",), ttl=({}, 900))
    window, limit = c.int("window", SHORTEST(c), 10**13), c.int("limit", 1, 10**6)
    same_ms = "k, this very instant"
    place, then, drop, earlier, many = c.pick(
        *[("parameter", "runs", drop, who, n) for who, n in (("o1", "any number"), ("k", 2), (same_ms, 0)) for drop in (False, True)],
        ("annotation", "runs", False, "o1", 0), ("annotation", "runs", True, "o1", 0), ("parameter", "put off", False, same_ms, "any number"),
        ("annotation", "put off", False, "o1", "any number"), ("parameter", "put off", False, "k", 1),
        ("parameter", "fails", False, "o1", 0), ("parameter", "stops", False, "o1", 0))
    calls, reached = [], []
    rule = RateLimit(limit, per=delta(window), drop=drop, scope=c.pick(None, "s") if many == 0 else None)
    fn = limited(calls, rule, place, *[refuse_later(reached)] * (then == "put off"), action=then)
    if place == "annotation" and then == "put off":
        # the other rule has to come after
        from typing import Annotated
        fn = signed(fn, [*inspect.signature(fn).parameters.values()][:3])
        fn.__annotations__ = {"x": Annotated[int, rule, refuse_later(reached)]}
        fn = signed(fn, [p.replace(annotation=fn.__annotations__.get(p.name, p.annotation)) for p in inspect.signature(fn).parameters.values()])
    w = await d.setup(fn, bystander=False, task=Task("k", 10**12, 1, function="job"), scopes=("s", "t"))
    env = d.env
    # someone was admitted before
    if earlier == "k, this very instant": c.frozen = c.now_us()
    plain = limited([], rule, place)
    plain.__name__ = "job"
    env.docket.tasks["job"] = plain
    s0 = await env.snap()
    w.p("first/admitted", await enter(env, d.worker, plain, earlier[:1] if earlier[0] == "k" else earlier) is None, "C12", "")
    env.docket.tasks["job"] = fn
    s1 = await env.snap()
    new = zsets(s1, w) - zsets(s0, w)
    w.p("first/remembered", len(new) == 1, "C12", new)
    if len(new) != 1: return
    zk, = new
    # and any others
    rest = None
    if c.symbolic and many == "any number":
        rest = env.store.data[zk].rest = Rest()
    else:
        n = many if many != "any number" else c.int("others", 0, 4)
        for i in range(n):
            await env.raw.zadd(zk, {f"other{i}": c.int(f"other{i}", 1, 5 * 10**12)})
    if c.frozen is None: c.frozen = c.now_us()
    now_ms, window_ms = c.frozen // 1000, window // 1000
    cutoff = now_ms - window_ms
    pre = (await env.snap()).zset(zk)
    inside = total([x > cutoff for x in pre.values()])
    if rest is not None: inside = inside + rest.above(cutoff)
    least = None
    await d.go()
    post = d.post.zset(zk)
    admitted = bool(calls) if then != "put off" else bool(inside < limit)
    w.p("called-only-if-admitted", not (calls and then == "put off"), "C12 C07", calls)
    if then == "put off": pass
    elif admitted: w.p("admitted-only-under-the-limit", inside < limit, "C12", [inside, limit])
    else: w.p("blocked-only-at-the-limit", inside >= limit, "C12", [inside, limit])
    # nothing within the window is forgotten
    w.p("window-kept", land(*[lor(x <= cutoff, land(m in post, val_eq(post.get(m), x))) for m, x in pre.items()]), "C12", [pre, post])
    if rest is not None:
        w.p("window-kept/others", True if rest.floor is None else Sym(rest.floor) <= cutoff, "C12", rest.floor)
    added = {m: x for m, x in post.items() if m not in pre}
    if admitted and then != "put off":
        w.p("admission-remembered", land(len(added) == 1, *[val_eq(x, now_ms) for x in added.values()]), "C12", added)
        ttl = d.post.ttl.get(zk)
        w.p("remembered-for-the-window", True if ttl is None else d.post.expires_since(zk, d.pre) and ttl >= window_ms if c.symbolic else ttl >= window_ms - 1000, "C12", ttl)
        if then == "runs": await d.finished("completed")
    else:
        w.p("place-given-back" if admitted else "no-place-taken", not added, "C12", added)
        if then == "put off":   # which rule's delay counts is not this contract's
            w.p("put-off", len(w.copies(d.post, "k")) == 1, "C07", "")
        elif drop:
            w.p("not-called", not calls, "C12 C07", calls)
            await d.finished("cancelled")
        else:
            w.p("not-called", not calls, "C12 C07", calls)
            # the earliest admission still counted
            if rest is not None and rest.above(cutoff) > 0: least = rest.least(cutoff)
            for x in pre.values():
                if x > cutoff: least = x if least is None or x < least else least
            free = (least + window_ms) * 1000
            rescheduled(d, d.task.attempt, free, free + 1000, props="C12", what="put-off")
    await d.worker.__aexit__(None, None, None)


@contract("debounce", "C01 C02 C03 C04 C05 C06 C07 C13 C17 C19 C28 C36", LOOP + RESOLVE + ["docket.dependencies._debounce:" + f for f in
          ("Debounce.__init__", "Debounce.bind_to_parameter", "Debounce.__aenter__", "Debounce.__aexit__", "_debounce (Lua)")], weight=10)
async def debounce(c):
    """a group's history is who waits and when the last submission came: both arbitrary"""
    from docket import Debounce
    d = Delivery(c, "debounce", rels=("queued",), ttl=({}, 900))
    settle = c.int("settle", SHORTEST(c), 10**13)
    place = c.pick("parameter", "annotation")
    waiting = c.pick("nobody", "k", "o1")
    others = c.choose(2, "another submission since") if waiting != "nobody" else 0
    calls = []
    fn = limited(calls, Debounce(delta(settle)), place)
    w = await d.setup(fn, bystander=False, task=Task("k", 10**12, 1, function="job"), scopes=("s", "t"))
    env, settle_ms = d.env, settle // 1000
    s0 = await env.snap()

    async def submit(key, first):
        """someone asks for admission: blocked, since nothing has settled; -> when, ms"""
        c.frozen = None
        c.frozen = c.now_us()
        e = await enter(env, d.worker, fn, key)
        w.p("submission/not-admitted", e is not None, "C13", "")
        if e is None: return c.frozen
        w.p("submission/first-waits" if first else "submission/others-dropped", bool(e.reschedule) is first, "C13", e)
        if first and e.reschedule: w.p("submission/waits-to-settle", us_of(e.retry_delay) == settle_ms * 1000, "C13", "")
        return c.frozen
    last, winner = None, "k"
    if waiting != "nobody":
        before = await env.snap()
        last = await submit(waiting, True)
        winner = waiting
    if others:
        before = await env.snap()
        last = await submit("o2", False)
    group = strings(await env.snap()) - strings(s0)
    if waiting != "nobody": w.p("state-kept-long-enough", kept(c, await env.snap(), group, settle_ms, before), "C13", group)
    c.frozen = None
    now = c.frozen = c.now_us()
    await d.go()
    here = strings(d.post) - strings(s0)
    if last is None or winner != "k": before = d.pre
    if winner != "k":
        w.p("other-waits/not-called", not calls, "C13 C07", calls)
        await d.finished("cancelled")
        last = now
    elif waiting == "nobody":
        w.p("first/not-called", not calls, "C13 C07", calls)
        rescheduled(d, 1, now + settle_ms * 1000, now + settle_ms * 1000, props="C13", what="first-waits")
        last = now
    else:
        quiet = now // 1000 - last // 1000
        if calls:
            w.p("proceeds-only-when-settled", quiet >= settle_ms, "C13", [quiet, settle_ms])
            await d.finished("completed")
            w.p("group-starts-afresh", not here, "C13", here)
            last = None
        else:
            w.p("waits-only-until-settled", quiet < settle_ms, "C13", [quiet, settle_ms])
            at = now + (settle_ms - quiet) * 1000
            rescheduled(d, 1, at, at, props="C13", what="rest-of-the-time")
    if last is not None:
        w.p("state-kept-long-enough", kept(c, d.post, here, settle_ms, before), "C13", here)
        # and what the group remembers is exactly who waits and the last submission: if they come back when
        # all has settled, they proceed, and a moment earlier they do not
        c.frozen = None
        back = c.frozen = c.now_us()
        e = await enter(env, d.worker, fn, winner)
        settled = back // 1000 - last // 1000 >= settle_ms
        w.p("then/proceeds-only-when-settled", lor(settled, e is not None), "C13", [back, last])
        w.p("then/waits-only-until-settled", lor(lnot(settled), e is None), "C13", [back, last])
        if e is not None:
            w.p("then/waits", bool(e.reschedule), "C13", e)
            if e.reschedule:
                w.p("then/rest-of-the-time", us_of(e.retry_delay) == (settle_ms - (back // 1000 - last // 1000)) * 1000, "C13", "")
    if last is None or e is None:
        c.frozen = None
        await submit("o3", True)
    await d.worker.__aexit__(None, None, None)


def kept(c, s, group, settle_ms, before):
    """what the group remembers outlasts the time the waiting one may come back at, which is at the latest
    one settling time after the last submission (the state just before it: ``before``)"""
    if not group or not all(s.expires_since(k, before) for k in group): return False
    return land(*[True if s.ttl.get(k) is None else s.ttl[k] > settle_ms if c.symbolic else s.ttl[k] >= settle_ms - 1000 for k in group])


@contract("cooldown", "C01 C03 C06 C07 C14 C17 C28 C36", LOOP + RESOLVE + ["docket.dependencies._cooldown:" + f for f in
          ("Cooldown.__init__", "Cooldown.bind_to_parameter", "Cooldown.__aenter__", "Cooldown.__aexit__")], weight=6)
async def cooldown(c):
    """admitted exactly if no window is open, and then opening one of exactly the declared length"""
    from docket import Cooldown
    d = Delivery(c, "cooldown", rels=("queued",), ttl=({}, 900))
    window = c.int("window", SHORTEST(c), 10**13)
    place = c.pick("parameter", "annotation")
    admitted_before = c.choose(2, "one was admitted")
    calls = []
    fn = limited(calls, Cooldown(delta(window)), place)
    w = await d.setup(fn, bystander=False, task=Task("k", 10**12, 1, function="job"), scopes=("s", "t"))
    env, window_ms = d.env, window // 1000
    s0 = await env.snap()
    left = None
    if admitted_before:
        w.p("first/admitted", await enter(env, d.worker, fn, c.pick("k", "o1")) is None, "C14", "")
        s1 = await env.snap()
        new = {k for k in s1.v if k not in s0.v}
        w.p("first/window-opened", len(new) == 1, "C14", new)
        for k in new: exactly(w, c, s1.ttl.get(k), window_ms)
        # some of the window has passed since
        left = c.int("left", 1, window_ms)
        if c.symbolic:
            for k in new: env.store.ttl[k] = left
    await d.go()
    here = {k for k in d.post.v if k not in s0.v} - {w.k("progress:k")}
    if admitted_before:
        w.p("within-the-window/not-called", not calls, "C14 C07", calls)
        await d.finished("cancelled")
        w.p("blocked/window-not-moved", land(here == new, *[val_eq(d.pre.v.get(k), d.post.v.get(k)) for k in new],
            *[ttl_same(c, d.pre.ttl.get(k), d.post.ttl.get(k)) for k in new]), "C14", [here, new])
    else:
        w.p("after-the-window/called", len(calls) == 1, "C14 C07", calls)
        await d.finished("completed")
        w.p("window-opened", len(here) == 1, "C14", here)
        for k in here: exactly(w, c, d.post.ttl.get(k), window_ms)
    await d.worker.__aexit__(None, None, None)


def exactly(w, c, ttl, window_ms):
    w.p("window-length", ttl is not None and (val_eq(ttl, window_ms) if c.symbolic else abs(ttl - window_ms) <= 2000), "C14", [ttl, window_ms])


def ttl_same(c, a, z): return a is not None and z is not None and (val_eq(a, z) if c.symbolic else abs(a - z) <= 2000)


RULES = ("RateLimit", "Debounce", "Cooldown", "ConcurrencyLimit")


def a_rule(kind, scope=None, **k):
    import docket
    from datetime import timedelta
    long = timedelta(days=1000)
    if kind == "RateLimit": return docket.RateLimit(1, per=long, drop=True, scope=scope)
    if kind == "Debounce": return docket.Debounce(long, scope=scope)
    if kind == "Cooldown": return docket.Cooldown(long, scope=scope)


@contract("admission.groups", "C12 C13 C14", RESOLVE + ["docket.dependencies._resolution:_argument_value", "docket.dependencies._ratelimit:RateLimit.__aenter__",
          "docket.dependencies._debounce:Debounce.__aenter__", "docket.dependencies._cooldown:Cooldown.__aenter__"], weight=6)
async def groups(c):
    """two executions count together exactly if scope, and function or parameter and value, agree"""
    kind = c.pick("RateLimit", "Debounce", "Cooldown")
    by = c.pick("function", "argument")
    scope = c.pick(None, "s")
    other = c.pick("the same", "another value", "another scope", "another parameter", "another function", "given otherwise", "by default", "from a dependency")
    env = await Env.make(c, scopes=("s", "t"))
    worker = await a_worker(env)
    w = W(env, "groups")
    c.frozen = c.now_us()
    from typing import Annotated
    notes = {}

    def task(name, parameter="x", scope=scope):
        rule = a_rule(kind, scope)

        async def job(x, z="z"): pass
        ann = lambda n: Annotated[int, rule] if by == "argument" and n == parameter else int
        from docket import Depends
        params = [P("x", P.POSITIONAL_OR_KEYWORD, annotation=ann("x"), default=Depends(lambda: 1) if other == "from a dependency" else P.empty),
                  P("z", P.POSITIONAL_OR_KEYWORD, default="a", annotation=ann("z"))]
        if by == "function": params.append(P("rule", P.KEYWORD_ONLY, default=rule))
        f = signed(job, params)
        f.__name__ = name
        env.docket.register(f)
        return f
    # the first submission claims its group; a second of another key is blocked just in that group
    fn = task("job", "z" if other == "by default" else "x")
    args = {"by default": (1,), "from a dependency": ()}.get(other, (1, "a"))
    await enter(env, worker, fn, "o1", args)
    g, a, k = fn, (1, "a"), {}
    if other == "another value": a = (2, "a")
    if other == "another scope": g = task("job", scope="t")
    if other == "another parameter": g, a = task("job", "z"), (5, 1)
    if other == "another function": g = task("job2")
    if other == "given otherwise": a, k = (), {"z": "a", "x": 1}
    together = other in ("the same", "given otherwise", "by default", "from a dependency") or (by == "function" and other in ("another value", "another parameter")) or \
        (by == "argument" and other == "another function")
    e = await enter(env, worker, g, "o2", a, k)
    if kind == "Debounce":      # the first of a group waits, the next is dropped
        blocked = e is not None and not e.reschedule
        w.p("never-at-once", e is not None, "C13", "")
    else:
        blocked = e is not None
    w.p("counted-together" if together else "kept-apart", blocked is together, "C12 C13 C14", [by, scope, other])
    await worker.__aexit__(None, None, None)


@contract("admission.races", "C12 C13 C14", RESOLVE + ["docket.dependencies._ratelimit:_ratelimit (Lua)", "docket.dependencies._debounce:_debounce (Lua)",
          "docket.dependencies._cooldown:Cooldown.__aenter__"], weight=3)
async def races(c):
    """two executions of one group at once, one of them between any two steps of the other"""
    kind = c.pick("RateLimit", "Debounce", "Cooldown")
    after = c.choose(4, "steps of the first before the second")
    env = await Env.make(c, scopes=("s", "t"))
    worker = await a_worker(env)
    w = W(env, "races")
    c.frozen = c.now_us()
    calls = []
    fn = limited(calls, a_rule(kind), c.pick("parameter", "annotation"))
    env.docket.register(fn)
    came, n = [], [0]

    async def rival(what):
        n[0] += 1
        if n[0] == after and not came:
            came.append(1)
            came.append(await enter(env, worker, fn, "o2"))
    if after == 0:
        came += [1, await enter(env, worker, fn, "o2")]
    env.on_step.append(rival)
    first = await enter(env, worker, fn, "o1")
    env.on_step.remove(rival)
    if not came: came += [1, await enter(env, worker, fn, "o2")]
    second = came[1]
    if kind == "Debounce":
        w.p("one-waits-the-other-is-dropped", first is not None and second is not None and [first.reschedule, second.reschedule].count(True) == 1, "C13",
            [first, second])
    else:
        w.p("exactly-one-admitted", [first, second].count(None) == 1, "C12 C14", [first, second])
    await worker.__aexit__(None, None, None)
