"""Contracts of the strike list: matching (C15), the fold of instructions and the shared log (C16)."""
from __future__ import annotations

import copy
import datetime as _dt
import decimal

import cloudpickle

from .world import *
from .automatic import Pause, Steered
from engine import core, meters, shims
from engine.env import Env, _connection
from engine.sym import Sym
from .registry import contract

OPS = ("==", "!=", ">", ">=", "<", "<=")
MIRROR = {"==": "==", "!=": "!=", ">": "<", "<": ">", ">=": "<=", "<=": ">="}
MATCH = ["docket.strikelist:StrikeList." + f for f in ("is_stricken", "_matches_task_or_parameter_strike", "_is_dict_stricken", "_is_match", "update", "_strike")]
FOLD = ["docket.strikelist:StrikeList." + f for f in ("update", "_strike", "_restore")]


class Num:
    """a number of unknown value that can be put in a set"""

    def __init__(self, n): self.n = n
    def __hash__(self): return 1
    def __repr__(self): return "Num"
    def __eq__(self, o): return self.n == o.n if type(o) is Num else NotImplemented
    def __ne__(self, o): return self.n != o.n if type(o) is Num else NotImplemented
    def __lt__(self, o): return self.n < o.n if type(o) is Num else NotImplemented
    def __le__(self, o): return self.n <= o.n if type(o) is Num else NotImplemented
    def __gt__(self, o): return self.n > o.n if type(o) is Num else NotImplemented
    def __ge__(self, o): return self.n >= o.n if type(o) is Num else NotImplemented


class NoTruth:
    def __bool__(self): raise ValueError("no truth value")


class Opaque:
    """a value about which only the outcome of comparing it with one other is given"""

    def __init__(self, outcome, flip=False): self.outcome, self.flip, self.asked = outcome, flip, set()
    def __hash__(self): return 1
    def __repr__(self): return "Opaque"

    def answer(self, o, op):
        if o is self: return op in ("==", ">=", "<=")
        if type(o) is not Opaque: return NotImplemented
        return self.outcome(MIRROR[op] if self.flip else op)

    def __eq__(self, o): return self.answer(o, "==")
    def __ne__(self, o): return self.answer(o, "!=")
    def __lt__(self, o): return self.answer(o, "<")
    def __le__(self, o): return self.answer(o, "<=")
    def __gt__(self, o): return self.answer(o, ">")
    def __ge__(self, o): return self.answer(o, ">=")


def raiser(e):
    def f():
        raise e
    return f


OUTCOMES = {"yes": lambda: True, "no": lambda: False, "truthy": lambda: [0], "falsy": lambda: [],
            "TypeError": raiser(TypeError("no order")), "ValueError": raiser(ValueError("no")),
            "AttributeError": raiser(AttributeError("id")), "ArithmeticError": raiser(decimal.InvalidOperation()),
            "no truth value": lambda: NoTruth()}


def family(c, default):
    """task functions over which the argument under test is passed in every way there is"""
    async def k(first, subject=default, *rest, named=default, **more): pass
    return k


WAYS = {   # how the argument reaches the task: (parameter, args, kwargs) with X standing for it
    "positional": ("first", ("X",), {}), "by name": ("subject", (1,), {"subject": "X"}), "second": ("subject", (1, "X"), {}),
    "default": ("subject", (1,), {}), "keyword-only": ("named", (1,), {"named": "X"}),
    "keyword-only default": ("named", (1,), {}), "extra keyword": ("other", (1,), {"other": "X"})}


def op_text(c, op):
    """an operator as it comes from a caller, or out of the log"""
    from docket.strikelist import Operator
    return Operator(op) if c.choose(2, "operator as text") == 0 else op


@contract("strikes.match", "C15", MATCH + ["docket.execution:get_signature"], weight=4)
async def match(c):
    """blocked exactly when some argument satisfies some strike on it"""
    from docket.strikelist import Strike, StrikeList
    from docket.execution import Execution
    way = c.pick(*WAYS)
    kind = c.pick("numbers", "between", "opaque")
    param, args, kwargs = WAYS[way]
    if kind == "numbers":
        op = c.pick(*OPS)
        x, y = c.int("x"), c.int("y")
        X, Y = (Num(x), Num(y)) if c.symbolic else (x, y)
        want = {"==": x == y, "!=": x != y, ">": x > y, ">=": x >= y, "<": x < y, "<=": x <= y}[op]
    elif kind == "between":
        op = "between"
        x, lo, hi = c.int("x"), c.int("lo"), c.int("hi")
        X, Y = (Num(x), (Num(lo), Num(hi))) if c.symbolic else (x, (lo, hi))
        want = land(lo <= x, x <= hi)
        if c.choose(2, "bounds that are no bounds"):
            Y = c.pick(7, (1, 2, 3), (), None)
            want = False
    else:
        op = c.pick(*OPS)
        outcome = c.pick(*OUTCOMES)

        def ask(o): return OUTCOMES[outcome]() if o == op else False
        X, Y = Opaque(ask), Opaque(ask, flip=True)
        want = outcome in ("yes", "truthy")
    fn = family(c, X if way.endswith("default") else 1)
    env = await Env.make(c, strikes=False)
    sl = env.docket.strike_list = StrikeList()
    env.docket.register(fn)
    scope = c.pick("task", "all", "other task", "other parameter", "both")
    put = lambda v: X if isinstance(v, str) and v == "X" else v
    ex = Execution(env.docket, fn, tuple(map(put, args)), {n: put(v) for n, v in kwargs.items()}, "k", dt(10**15), 1)
    for f in {"task": ["k"], "all": [None], "other task": ["k2"], "other parameter": ["k"], "both": ["k2", None]}[scope]:
        sl.update(Strike(f, "unrelated" if scope == "other parameter" else param, op_text(c, op), Y))
    if c.choose(2, "another strike on it that does not apply"):
        sl.update(Strike("k", param, "==", "never"))
    hits = scope in ("task", "all", "both")
    try: got = bool(sl.is_stricken(ex))
    except (core.PathEnd, core.Unsupported): raise
    except Exception as e: got = e
    p = lambda clause, cond, d="": c.prove(f"strikes.match/{clause}", cond, "C15", d)
    p("never-raises", type(got) is bool, repr(got))
    if type(got) is bool:
        want = want if type(want) is not bool or hits else want and hits
        w = want if hits else False
        p("blocked-iff-satisfied", w if got else lnot(w), [way, kind, op, scope, got])
    # a plain mapping of values is judged by the strikes that apply to every task
    try: got = bool(sl.is_stricken({param: X, "nobody": X}))
    except (core.PathEnd, core.Unsupported): raise
    except Exception as e: got = e
    p("values/never-raises", type(got) is bool, repr(got))
    if type(got) is bool:
        w = want if scope in ("all", "both") else False
        p("values/blocked-iff-satisfied", w if got else lnot(w), [kind, op, scope, got])


@contract("strikes.tasks", "C15", MATCH)
async def tasks(c):
    """whole-task strikes, calls that do not fit the signature, temporary conditions"""
    from docket.strikelist import Strike, StrikeList
    from docket.execution import Execution
    env = await Env.make(c, strikes=False)
    sl = env.docket.strike_list = StrikeList()

    async def k(a, b=2): pass
    async def k2(a): pass
    for f in (k, k2): env.docket.register(f)
    call = c.pick("fits", "too few", "too many", "unknown name")
    args, kwargs = {"fits": ((1,), {}), "too few": ((), {}), "too many": ((1, 2, 3), {}), "unknown name": ((1,), {"zzz": 1})}[call]
    on = c.pick("task", "other", "parameter", "nothing", "everything")
    if on == "everything": sl.update(Strike(None, None, "==", None))     # names nothing: describes no call
    elif on != "nothing":
        sl.update(Strike("k2" if on == "other" else "k", "b" if on == "parameter" else None, "==", 2 if on == "parameter" else c.pick(None, 5)))
    condition = c.pick(None, True, False)
    def temporary(execution): return condition
    if condition is not None: sl.add_condition(temporary)
    ex = Execution(env.docket, k, args, kwargs, "k", dt(10**15), 1)
    want = on == "task" or condition is True or (on == "parameter" and call == "fits")
    p = lambda clause, cond, d="": c.prove(f"strikes.tasks/{clause}", cond, "C15", d)
    p("blocked-iff-struck", bool(sl.is_stricken(ex)) == want, [on, call, condition])
    if condition is not None:
        sl.remove_condition(temporary)
        p("condition-withdrawn", bool(sl.is_stricken(ex)) == (on == "task" or (on == "parameter" and call == "fits")), [on, call])


# ------------------------------------------------------------------------------ the fold

UNIVERSE = [("k", None, "==", None), ("k2", None, "==", None), ("k", "a", "==", 1), ("k", "a", "==", 2), ("k", "a", ">", 2),
            ("k", "b", "==", 1), ("k2", "a", "==", 1), (None, "a", "==", 1), (None, "b", "==", 3)]


async def k(a, b=0): pass
async def k2(a, b=0): pass


def applies(struck, f, values):
    """the reference: does this set of instructions block the call?"""
    from operator import eq, ne, gt, ge, lt, le
    cmp = {"==": eq, "!=": ne, ">": gt, ">=": ge, "<": lt, "<=": le}
    for fn, param, op, value in struck:
        if fn is not None and fn != f: continue
        if param is None:
            if fn is not None: return True
        elif param in values and cmp[op](values[param], value): return True
    return False


def probes(docket):
    from docket.execution import Execution
    out = []
    for f in (k, k2):
        for a in (1, 2, 3):
            for bb in (0, 1, 3):
                out.append((Execution(docket, f, (a,), {"b": bb} if bb else {}, "k", dt(10**15), 1), f.__name__, {"a": a, "b": bb}))
    for a in (1, 2): out.append(({"a": a}, None, {"a": a}))
    out.append(({"b": 3, "c": 1}, None, {"b": 3, "c": 1}))
    return out


def verdicts(sl, pr): return [bool(sl.is_stricken(x)) for x, _, _ in pr]


def expected(struck, pr):
    return [applies([s for s in struck if s[0] is None] if f is None else struck, f, v) for _, f, v in pr]


def shape(x, seen=()):
    """what an object is made of, whatever it is called"""
    if isinstance(x, dict): return ("dict", frozenset((shape(a, seen), shape(v, seen)) for a, v in x.items()))
    if isinstance(x, (set, frozenset)): return ("set", frozenset(shape(v, seen) for v in x))
    if isinstance(x, (list, tuple)): return ("seq", tuple(shape(v, seen) for v in x))
    if x is None or isinstance(x, (str, int, float, bytes)): return x if not isinstance(x, str) else str.__str__(x)
    if id(x) in seen or callable(x): return ("ref",)
    if hasattr(x, "__dict__"): return (type(x).__name__, shape(vars(x), (*seen, id(x))))
    return ("ref", type(x).__name__)


def through_log(i):
    """the instruction as another process reads it"""
    return type(i).from_message(i.as_message())


@contract("strikes.fold", "C16 C15", FOLD + MATCH, weight=6,
          note="invariant: every state of the list reachable by any sequence of instructions over the universe blocks what the fold of "
               "the sequence blocks; the reachable states are closed under every instruction")
async def fold(c):
    from docket.strikelist import Operator, Restore, Strike, StrikeList
    env = await Env.make(c, strikes=False)
    for f in (k, k2): env.docket.register(f)
    pr = probes(env.docket)
    start = StrikeList()
    seen = {(shape(start), frozenset())}
    todo, bad, wrong = [(start, frozenset(), ())], [], 0
    ignored = [(None, None, "==", None), ("k", "a", "==", [1]), (None, "a", "==", {}), ("k", None, "==", [])]
    n = 0
    while todo and len(seen) < 4000 and not bad:
        sl, struck, path = todo.pop()
        for element in UNIVERSE + ignored:
            for make in (Strike, Restore):
                fn, param, op, value = element
                via = n % 2
                n += 1
                i = make(fn, param, Operator(op), value)
                other = copy.deepcopy(sl)
                try: other.update(through_log(i) if via else i)
                except Exception as e:
                    bad.append((path, make.__name__, element, repr(e)))
                    continue
                after = struck if element in ignored else struck | {element} if make is Strike else struck - {element}
                key = (shape(other), after)
                if key in seen: continue
                seen.add(key)
                got, want = verdicts(other, pr), expected(after, pr)
                if got != want:
                    bad.append(((*path, (make.__name__, element)), [x[1:] for x, g, h in zip(pr, got, want) if g != h]))
                else:
                    todo.append((other, after, (*path, (make.__name__, element))))
    p = lambda clause, cond, d="": c.prove(f"strikes.fold/{clause}", cond, "C16 C15", d)
    p("blocks-what-the-fold-blocks", not bad, bad[:1])
    p("closed", bool(bad) or not todo, f"{len(seen)} states")
    c.notes.append(f"strikes.fold: {len(seen)} states, every one reached by every history over {len(UNIVERSE)} instructions")


class Colour(_dt.tzinfo):
    pass


@contract("strikes.codec", "C16", ["docket.strikelist:StrikeInstruction.as_message", "docket.strikelist:StrikeInstruction.from_message"])
async def codec(c):
    """an instruction arrives as it was sent"""
    from docket.strikelist import Operator, Restore, Strike
    make = c.pick(Strike, Restore)
    fn = c.pick(None, "job", "módulo.täsk", "a b:c")
    param = c.pick(None, "customer_id", "naïve")
    op = c.pick(*Operator)
    value = c.pick(None, 0, 1, -1, 10**30, 0.5, float("inf"), "", "text\x00é\ud800", b"\xff\x00", (1, ("a", None)), frozenset({1, 2}), True,
                   decimal.Decimal("1.50"), _dt.datetime(2024, 1, 2, tzinfo=_dt.timezone.utc), Operator.EQUAL)
    i = make(fn, param, op, value)
    m = i.as_message()
    plain = all(isinstance(x, bytes) for kv in m.items() for x in kv)
    got = make.from_message({bytes(a): bytes(v) for a, v in m.items()}) if plain else None
    p = lambda clause, cond, d="": c.prove(f"strikes.codec/{clause}", cond, "C16", d)
    p("sendable", plain, m)
    if got is None: return
    p("same-instruction", type(got) is make and got.direction == i.direction and got.function == fn and got.parameter == param
      and got.operator == op and hash(got.operator) == hash(op), vars(got))
    p("same-value", type(got.value) is type(value) and got.value == value and hash(got.value) == hash(value), got.value)


# ------------------------------------------------------------------------------- the log

class Stuck(BaseException): pass


class Instance:
    """a strike list connected to the log, its background task advanced by the harness"""

    def __init__(self, c, env): self.c, self.env, self.idles = c, env, 0

    async def open(self):
        import asyncio
        from docket.strikelist import StrikeList
        sl = self.list = StrikeList(url=self.env.docket.url, name=self.env.name)
        conn = _connection(self.env, sl._redis)
        kind = type(conn)

        class Later(kind):
            open = False
            is_connected = property(lambda s: s.open)

            async def __aenter__(s):
                s.open = True
                return s

            async def __aexit__(s, *a): s.open = False
        conn.__class__ = Later
        sl._redis = conn

        async def idle(what):
            self.idles += 1
            if self.c.symbolic: await Pause()
            else: await asyncio.sleep(0.001)
        self.env.on_idle = idle

        def create_task(coro, name):
            self.task = Steered(coro, name) if self.c.symbolic else asyncio.get_running_loop().create_task(coro)
            return self.task
        self.c.hooks["create_task"] = create_task

        async def sleep(d):
            if not self.c.symbolic: await asyncio.sleep(0)
        self.c.hooks["sleep"] = sleep
        await sl.__aenter__()
        await self.settle(first=True)
        return sl

    async def settle(self, first=False):
        """until it waits for news having read everything"""
        import asyncio
        if self.c.symbolic:
            if not first: self.task.go_on(None)
            return
        n, i = self.idles, 0
        while self.idles < n + 2 and i < 500 and not self.task.done():
            await asyncio.sleep(0.001)
            i += 1

    def loaded(self):
        w = self.list.wait_for_strikes_loaded()
        try: w.send(None)
        except StopIteration: return True
        except RuntimeError: return False
        w.close()
        return False

    async def close(self):
        self.c.hooks.pop("sleep", None)
        if self.c.symbolic: self.task.cancel()
        await self.list.__aexit__(None, None, None)


def entry(direction, element):
    fn, param, op, value = element
    m = {b"direction": direction.encode(), b"operator": op.encode(), b"value": cloudpickle.dumps(value)}
    if fn: m[b"function"] = fn.encode()
    if param: m[b"parameter"] = param.encode()
    return m


def folded(log):
    out = set()
    for direction, element in log:
        if element is None: continue
        (out.add if direction == "strike" else out.discard)(element)
    return frozenset(out)


def in_effect(c, env, since=0):
    return sum(n for x, n, a in meters.heard(c)[since:] if x == "docket_strikes_in_effect" and a.get("docket.name") == env.name)


def some_log(n):
    """a log in which every entry but the last on an element matters only for its order"""
    out = []
    for i in range(n):
        e = UNIVERSE[(i * 7 + i // 11) % len(UNIVERSE)]
        out.append(("restore" if (i // 2 + i // 9) % 2 else "strike", e))
    return out


READ = ["docket.strikelist:StrikeList." + f for f in ("__aenter__", "__aexit__", "_monitor_strikes", "_read_strikes", "wait_for_strikes_loaded", "strike_key")]


@contract("strikes.log", "C16 C15 C36", READ + FOLD, weight=6)
async def log(c):
    """an instance reaches the state of the log, whatever happens while it reads"""
    import redis.exceptions as rx
    env = await Env.make(c, strikes=False)
    for f in (k, k2): env.docket.register(f)
    pr = probes(env.docket)
    key = f"{env.prefix}:strikes"
    n = c.pick(0, 1, 2, 3, 99, 100, 101, 250)
    the_log = some_log(n)
    trouble = c.pick("none", "arrives", "disconnects", "unreadable") if n in (0, 2, 101) else "none"
    for i, (d, e) in enumerate(the_log):
        m = entry(d, e)
        if trouble == "unreadable" and i in (0, n - 1):
            m[b"value"] = c.pick(b"not a pickle", b"cnosuchmodule\nThing\n.")
            the_log[i] = (d, None)
        await env.raw.xadd(key, m)
    existing = folded(the_log)
    late = ("strike", ("k2", "b", "==", 1))
    at = c.choose(3, "when") if trouble in ("arrives", "disconnects") else 0
    inst = Instance(c, env)
    reads, early = [0], []

    async def step(what):
        if what != "xread": return
        if reads[0] == at and trouble == "arrives":
            await env.raw.xadd(key, entry(*late))
            the_log.append(late)
        reads[0] += 1
        if reads[0] == at + 1 and trouble == "disconnects": raise rx.ConnectionError("gone")
        if hasattr(inst, "list") and inst.loaded():
            now = {s for s in folded(the_log)}
            if verdicts(inst.list, pr) not in (expected(existing, pr), expected(now, pr)): early.append(reads[0])
    env.on_step.append(step)
    since = len(meters.heard(c))
    sl = await inst.open()
    p = lambda clause, cond, d="", props="C16 C15": c.prove(f"strikes.log/{clause}", cond, props, d)
    p("loaded-once-read", inst.loaded(), [n, trouble, reads[0]])
    p("not-loaded-before-read", not early, early)
    for _ in range(3): await inst.settle()     # an entry that came just after a read wakes the next one
    p("state-of-the-log", verdicts(sl, pr) == expected(folded(the_log), pr), [n, trouble, the_log[-3:]])
    # and it goes on following the log
    more = c.pick([("strike", UNIVERSE[5])], [("strike", UNIVERSE[0]), ("restore", UNIVERSE[0])], [("restore", e) for e in UNIVERSE])
    for x in more:
        await env.raw.xadd(key, entry(*x))
        the_log.append(x)
    await inst.settle()
    p("follows-the-log", verdicts(sl, pr) == expected(folded(the_log), pr), [n, trouble, more])
    p("metrics/in-effect", in_effect(c, env, since) == len(folded(the_log)), [in_effect(c, env, since), folded(the_log)], "C36")
    if trouble in ("none", "disconnects"):
        p("metrics/disruptions", meters.total(meters.heard(c)[since:], "docket_redis_disruptions") == (trouble == "disconnects"), trouble, "C36")
    await inst.close()
    s = await env.snap()
    p("log-kept", s.ttl.get(key) is None and len(s.stream(key).entries) == len(the_log), s.ttl.get(key))


@contract("strikes.send", "C16 C15 C36", ["docket.docket:Docket.strike", "docket.docket:Docket.restore", "docket.strikelist:StrikeList.send_instruction",
                                      "docket.strikelist:StrikeList.strike", "docket.strikelist:StrikeList.restore"] + READ, weight=4)
async def send(c):
    """an instruction is in the log, once, and in effect here, when the call returns; others read the same"""
    from docket.strikelist import Operator
    env = await Env.make(c, strikes=False)
    for f in (k, k2): env.docket.register(f)
    pr = probes(env.docket)
    key = f"{env.prefix}:strikes"
    the_log = [("strike", e) for e in UNIVERSE[1:5]]
    for x in the_log: await env.raw.xadd(key, entry(*x))
    inst = Instance(c, env)
    since = len(meters.heard(c))
    sl = env.docket.strike_list = await inst.open()
    direction = c.pick("strike", "restore")
    element = c.pick(*UNIVERSE[:4], UNIVERSE[7])
    fn, param, op, value = element
    through = c.pick("docket", "list")
    if c.choose(2, "operator as text"): op = Operator(op)
    target = {"k": k, "k2": k2}[fn] if fn and through == "docket" and c.choose(2, "by function") else fn
    meddle = c.pick(None, "undone, and read here", "undone, not read here")
    undo = ("restore" if direction == "strike" else "strike", element)
    done = []

    async def step(what):
        if what != "xadd" or done: return
        done.append(1)
        if meddle: await env.raw.xadd(key, entry(*undo))
        if meddle and meddle.endswith(", and read here"): await inst.settle()
    env.on_step.append(step)
    where = env.docket if through == "docket" else sl
    await getattr(where, direction)(target, param, op, value)
    env.on_step.remove(step)
    p = lambda clause, cond, d="": c.prove(f"strikes.send/{clause}", cond, "C16 C15", d)
    s = await env.snap()
    es = [f for _, f in s.stream(key).entries][len(the_log):]
    p("logged-once", len(es) == 1 + bool(meddle), len(es))
    m = {a.encode(): v.encode("utf-8", "surrogateescape") for a, v in es[0].items()} if es else {}
    want = entry(direction, element)
    p("logged-as-sent", bool(es) and {a: v for a, v in m.items() if a != b"value"} == {a: v for a, v in want.items() if a != b"value"}
      and cloudpickle.loads(m[b"value"]) == value, m)
    the_log.append((direction, element))
    if meddle is None:
        p("in-effect-here", verdicts(sl, pr) == expected(folded(the_log), pr), [direction, element])
    else:
        the_log.append(undo)
    await inst.settle()
    p("agrees-with-the-log", verdicts(sl, pr) == expected(folded(the_log), pr), [direction, element, meddle])
    c.prove("strikes.send/metrics/in-effect", in_effect(c, env, since) == len(folded(the_log)), "C36", [in_effect(c, env, since), folded(the_log)])
    await inst.close()
    other = Instance(c, env)
    sl2 = await other.open()
    p("others-agree", verdicts(sl2, pr) == expected(folded(the_log), pr), [direction, element, meddle])
    await other.close()


@contract("strikes.unconnected", "C16", ["docket.strikelist:StrikeList.send_instruction"])
async def unconnected(c):
    from docket.strikelist import Strike, StrikeList
    env = await Env.make(c, strikes=False)
    for f in (k, k2): env.docket.register(f)
    pr = probes(env.docket)
    sl = StrikeList()
    pre = await env.snap()
    try:
        await sl.send_instruction(Strike("k", None, "==", None))
        refused = False
    except RuntimeError: refused = True
    p = lambda clause, cond, d="": c.prove(f"strikes.unconnected/{clause}", cond, "C16", d)
    p("refused", refused)
    p("no-effect", verdicts(sl, pr) == expected((), pr))
    await sl.wait_for_strikes_loaded()      # a list of its own waits for nothing
