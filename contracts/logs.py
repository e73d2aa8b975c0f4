"""Contracts of what of a call gets into logs (C26)."""
from __future__ import annotations

import inspect
import logging
from datetime import datetime, timedelta, timezone
from typing import Annotated, Any

from .world import *
from .admission import P, signed
from .delivery import LOOP, Broken, Delivery
from .transfer import HI
from engine.env import Env
from .registry import contract

REPR = ["docket.execution:Execution.call_repr", "docket.annotations:Logged.format", "docket.annotations:Annotation.annotated_parameters"]
POS, POK, VAR, KW, KWS = P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD, P.VAR_POSITIONAL, P.KEYWORD_ONLY, P.VAR_KEYWORD


class Odd:
    """prints like any other value, has no length"""
    def __init__(self, s): self.s = s
    def __repr__(self): return f"Odd({self.s})"


class Unprintable:
    def __init__(self, s): self.s = s
    def __repr__(self): raise RuntimeError(self.s)
    def __len__(self): raise RuntimeError(self.s)


def marking(how):
    """(annotation, what of the argument is to be seen)"""
    from docket.annotations import Annotation, Logged

    class Other(Annotation): pass
    return {"none": (P.empty, "nothing"), "plain": (Any, "nothing"), "other": (Annotated[Any, "a remark", Other()], "nothing"),
            "class": (Annotated[Any, Logged], "all"), "logged": (Annotated[Any, "a remark", Logged()], "all"),
            "length": (Annotated[Any, Logged(length_only=True)], "length")}[how]


def value(i):
    """the i-th argument: (itself, a text that gives it away, its length)"""
    s, n = f"Secret{i}", i + 31
    return [(s, s, len(s)), ([s] * n, s, n), ({f"{s}-{j}": 1 for j in range(n)}, s, n), ((s,) * n, s, n),
            ({f"{s}-{j}" for j in range(n)}, s, n), (Odd(s), s, None), (Unprintable(s), s, None), (int(f"8{i}7654321"), f"8{i}7654321", None)][i % 8]


@contract("logs.call", "C26", REPR, weight=6, sweep_factor=2)
async def call(c):
    """any signature, any marking, any way of passing: the text holds of each argument exactly what its parameter is marked for"""
    from docket.execution import Execution
    env = await Env.make(c)
    w = W(env, "logs.call")
    kinds = ("absent", "none", "logged", "length")
    marks = {"p": c.pick(*kinds), "a": c.pick("other", "plain", "class", "length"), "rest": c.pick(*kinds),
             "k": c.pick(*kinds), "extra": c.pick(*kinds)}
    unhashable = c.choose(2, "a default that cannot be hashed")
    first = unhashable * 4
    params, seen = [], {}
    for name, kind in (("p", POS), ("a", POK), ("b", POK), ("rest", VAR), ("k", KW), ("extra", KWS)):
        mark = marks.get(name, "none")
        if mark == "absent": continue
        ann, seen[name] = marking(mark)
        default = P.empty if kind in (VAR, KWS) or name in "pa" else [] if unhashable else 1
        params.append(P(name, kind, annotation=ann, default=default))

    async def task(*args, **kwargs): pass
    signed(task, params)
    task.__name__ = "task"
    sig = inspect.Signature(params)
    named = ["a", "b", "k", "rest", "extra", "p", "x"]
    calls = [(n, names) for n in range(6) for names in ((), ("a",), ("a", "k"), ("b", "k"), ("k", "x"), ("p", "rest", "x"), ("x", "extra"), ("k",))]
    for n, names in calls:
        vs = [value(first + i) for i in range(n + len(names))]
        args, kwargs = tuple(v[0] for v in vs[:n]), {m: v[0] for m, v in zip(names, vs[n:])}
        try: bound = sig.bind(*args, **kwargs).arguments
        except TypeError: bound = None      # such a call cannot be made, but may still be scheduled
        text = Execution(env.docket, task, args, kwargs, "the-key", datetime(2024, 1, 1, tzinfo=timezone.utc), 1).call_repr()
        to = {}
        for pn, v in (bound or {}).items():
            for x in (v if pn == "rest" and marks["rest"] != "absent" else v.values() if pn == "extra" and marks["extra"] != "absent" else [v]): to[id(x)] = pn
        hidden = 0
        for x, tell, length in vs:
            show = seen[to[id(x)]] if id(x) in to else "nothing" if bound is not None else "unknown"
            if show == "nothing":
                hidden += 1
                w.p("kept-out", tell not in text, "C26", [text, tell, str(sig)])
            elif show == "all" and not isinstance(x, Unprintable): w.p("shown", tell in text, "C26", [text, tell, str(sig)])
            elif show == "length" and length is not None:
                w.p("only-its-length", tell not in text and f"len {length}" in text, "C26", [text, tell, str(sig)])
        if bound is not None: w.p("placeholders", text.count("...") == hidden, "C26", [text, hidden, str(sig)])
        elif not any(m in ("logged", "length", "class") for m in marks.values()):
            w.p("kept-out", all(tell not in text for _, tell, _ in vs), "C26", [text, str(sig)])


class Vault:
    """something with a length that is no built-in collection"""
    def __init__(self, *xs): self.xs = xs
    def __len__(self): return len(self.xs)
    def __repr__(self): return f"Vault{self.xs}"


def collections_of(s, n):
    """every kind of thing with a length, n long, that would print s"""
    import array, collections, types
    xs = [s] * n
    d = {f"{s}{i}": s for i in range(n)}
    text = (s * n)[:max(n, 0)]
    return [xs, tuple(xs), set(d), frozenset(d), d, types.MappingProxyType(d), collections.OrderedDict(d), collections.deque(xs), collections.UserList(xs),
            collections.UserString(s + "." * n), collections.ChainMap(d), collections.Counter(d), d.keys(), d.values(), d.items(), text + "!" * 0, s + "." * n, (s + "." * n).encode(),
            bytearray(s.encode() + b"." * n), memoryview(s.encode() + b"." * n), type("Listed", (list,), {})(xs), type("Texty", (str,), {})(s + "." * n), Vault(*xs), range(n, 2 * n),
            array.array("b", s.encode() + b"." * n), [[s]] * n, collections.namedtuple("Pair", "a b")(s, s), type("Mapped", (dict,), {})(d)]


@contract("logs.length", "C26", REPR)
async def length_only(c):
    """whatever has a length shows that and nothing else"""
    from docket.execution import Execution
    env = await Env.make(c)
    w = W(env, "logs.length")
    things = collections_of("Secret", c.pick(0, 1, 43))
    x = things[c.choose(len(things))]
    inner = c.pick(None, "beside")

    async def task(*args, **kwargs): pass
    ann = marking("length")[0]
    how = c.pick("positional", "keyword", "rest", "extra", "only")
    kind = {"positional": POK, "keyword": POK, "rest": VAR, "extra": KWS, "only": KW}[how]
    signed(task, ([P("o", POK)] if inner and kind not in (KWS,) else []) + [P("a", kind, annotation=ann)])
    first = ("Secret",) if inner and kind not in (KWS,) else ()
    args, kwargs = ((*first, x), {}) if how in ("positional", "rest") else (first, {"a": x})
    text = Execution(env.docket, task, args, kwargs, "key", datetime(2024, 1, 1, tzinfo=timezone.utc), 1).call_repr()
    w.p("only-its-length", "Secret" not in text and f"len {len(x)}" in text, "C26", [text, type(x).__name__])
    if not len(x) or isinstance(x, range): return
    w.p("contents-kept-out", repr(x) not in text, "C26", [text, type(x).__name__])


@contract("logs.twice", "C26", REPR)
async def twice(c):
    """two functions declared alike but marked differently, one after the other"""
    from docket.execution import Execution
    env = await Env.make(c)
    w = W(env, "logs.twice")
    for mark in (c.pick("none", "other", "logged", "length"), c.pick("none", "other", "logged", "length")):
        ann, show = marking(mark)

        async def task(a, b=1): pass
        signed(task, [P("a", POK, annotation=ann), P("b", POK, default=1)])
        by = c.choose(2, "by keyword")
        args, kwargs = ((), {"a": ["Secret"] * 47}) if by else ((["Secret"] * 47,), {})
        text = Execution(env.docket, task, args, kwargs, "key", datetime(2024, 1, 1, tzinfo=timezone.utc), 1).call_repr()
        w.p("as-marked", ("Secret" in text) == (show == "all") and ("len 47" in text) == (show == "length"), "C26", [mark, text])


class Taped(logging.Handler):
    """everything docket logs"""

    def __init__(self):
        super().__init__(0)
        self.texts = []

    def emit(self, record):
        try: self.texts.append(record.getMessage())
        except TypeError: self.texts.append(str(record.msg) + str(record.args))
        self.texts.append(str({k: v for k, v in record.__dict__.items() if k not in ("msg", "args", "exc_info", "exc_text", "pathname", "filename")}))

    def __enter__(self):
        self.off, self.log = logging.root.manager.disable, logging.getLogger("docket")
        self.was = self.log.level, self.log.propagate
        logging.disable(logging.NOTSET)
        self.log.addHandler(self)
        self.log.setLevel(1)
        self.log.propagate = False
        return self

    def __exit__(self, *a):
        self.log.removeHandler(self)
        self.log.level, self.log.propagate = self.was
        self.log.setLevel(self.was[0])
        logging.disable(self.off)


@contract("logs.life", "C26", REPR + LOOP + ["docket.docket:Docket.add", "docket.docket:Docket.replace", "docket.docket:Docket.cancel"], weight=8)
async def life(c):
    """nothing docket logs, wherever the call goes, holds an argument that is not marked for it"""
    from docket import Cooldown, Cron, Perpetual, Retry, Timeout
    how = c.pick("completes", "fails", "retried", "perpetual", "cron", "times out", "struck", "added", "added struck", "replaced", "cooled down", "stale", "cancelled")
    rule = {"retried": Retry(attempts=3, delay=timedelta(seconds=1)), "perpetual": Perpetual(every=timedelta(seconds=1)), "times out": Timeout(timedelta(seconds=5)),
            "cooled down": Cooldown(timedelta(hours=1))}.get(how)
    calls = []

    async def task(*args, **kwargs):
        calls.append(1)
        if how in ("fails", "retried"): raise Broken("x")
        if how == "times out": raise TimeoutError()
    from docket.annotations import Logged
    signed(task, [P("shown", POK, annotation=Annotated[str, Logged]), P("a", POK), P("b", POK, annotation=Annotated[list, Logged(length_only=True)], default=[]),
                  P("k", KW, default=None)] + ([P("rule", KW, default=rule)] if rule else []))
    args, kwargs = ("for all to see", "Secret"), {"b": ["Secret"] * 3, "k": {"Secret": "Secret"}}
    d = Delivery(c, "logs.life", rels=("stale",) if how == "stale" else ("queued",), ttl=({}, 900))
    t = Task("k", c.int("when", 10**6, HI), 1, args=args, kwargs=kwargs, function="task", trace=False)
    await d.setup(task, task=t, bystander=False, strikes="struck" not in how)
    env, w = d.env, d.w
    if "struck" in how:
        from docket.strikelist import StrikeList
        env.docket.strike_list = StrikeList()
        env.docket.strike_list.update(_strike("task"))
    tape = Taped()
    with tape:
        if how in ("added", "added struck"): await env.docket.add(task, key="k5")(*args, **kwargs)
        elif how == "replaced": await env.docket.replace(task, dt(t.when), "k")(*args, **kwargs)
        elif how == "cancelled": await env.docket.cancel("k")
        else:
            await d.go()
            if how == "cooled down":
                await w.put("k", "QUEUED", t, d.g)
                await d.go()
    w.p("kept-out", not any("Secret" in x for x in tape.texts), "C26", [x for x in tape.texts if "Secret" in x])
    if how in ("completes", "fails", "retried", "perpetual"): w.p("call-logged", any("for all to see" in x for x in tape.texts), "C26", tape.texts)
    await d.worker.__aexit__(None, None, None)


def _strike(name):
    from docket.strikelist import Strike
    return Strike(name, None, None, None)
