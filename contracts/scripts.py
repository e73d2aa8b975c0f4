"""Contracts of the script-call layer (C24): what each declared name holds when the script runs."""
from __future__ import annotations

import importlib
import inspect
import pkgutil
from datetime import timedelta
from typing import get_args, get_type_hints

from .world import *
from engine.env import Env
from .registry import contract

LUA = ["docket._lua:" + f for f in ("redis_script", "_generate_preamble", "_decode_for", "_encode_scalar", "_expand_args", "_annotation_for")]
TYPES = ("str", "bytes", "int", "float", "bool")
BIG = 2**53


def probe(params):
    """a script body that writes down what every declared name holds"""
    out = []
    first = next(n for n, k, ty in params if k == "key")
    put = lambda field, value: out.append(f"redis.call('HSET', {first}, '{field}', {value})")
    for n, kind, ty in params:
        if kind == "key": put(f"{n}", n)
        elif kind == "args":
            put(f"{n}:count", f"#ARGV - {n}_start + 1")
            out.append(f"for i = {n}_start, #ARGV do redis.call('HSET', {first}, '{n}:' .. (i - {n}_start), ARGV[i]) end")
        elif ty is bool:
            put(f"{n}:type", f"type({n})")
            put(n, f"tostring({n})")
        else:
            put(f"{n}:type", f"type({n})")
            put(n, n)
    return "\n".join(out) + "\nreturn 'OK'"


def declare(params, body=None):
    """the real decorator on a function declaring these parameters, in this order"""
    from docket._lua import Arg, Args, Key, redis_script
    from docket._redis import RedisClient
    sig = ", ".join(f"{n}: {'Key' if k == 'key' else 'Args' if k == 'args' else 'Arg'}[{ty.__name__}]" for n, k, ty in params)
    doc = body if body is not None else probe(params)
    ns = {"Arg": Arg, "Args": Args, "Key": Key, "RedisClient": RedisClient, "__name__": "declared"}
    exec(f"async def declared(redis: RedisClient, *, {sig}) -> bytes:\n    {doc!r}\n    ...\n", ns)
    return redis_script(ns["declared"])


def sample(c, name, ty):
    """any value of the type"""
    if ty is int: return c.int(name, -BIG, BIG)
    if ty is float: return c.real(name, -10**15, 10**15)
    if ty is bool: return c.pick(True, False) if name.endswith("0") or not name.startswith("arg") else name.endswith("1")
    if ty is bytes: return c.pick(b"", b"\xff\x00\x80\n") if name.endswith("0") else b"\xc3\xa9'\""
    return c.pick("", "1", "true", "a b\n\"é'") if name.endswith("0") else "txt\u20ac" + name


def element(c, i): return [c.int(f"e{i}", -BIG, BIG), True, b"\xff\x00", "", False, c.real(f"r{i}", -10**9, 10**9), "é"][i % 7]


def as_text(v):
    if isinstance(v, bool): return "1" if v else "0"
    if isinstance(v, bytes): return t(v)
    return v if isinstance(v, str) else str(v)


def arrived(got, v):
    """the value seen on the server is the value given"""
    if got is None: return False
    if isinstance(v, (bool, bytes, str)): return got == as_text(v)
    n = parse_num(got)
    if n is None: return False
    if type(n) is Sym or type(v) is Sym: return n == v
    return float(n) == float(v)


def holds(w, params, values, h, name="arrives"):
    for n, kind, ty in params:
        v = values[n]
        if kind == "key": w.p(f"{name}/key", arrived(h.get(n), v), "C24", [n, v, h])
        elif kind == "args":
            flat = [x for kv in v.items() for x in kv] if isinstance(v, dict) else list(v)
            w.p(f"{name}/all-of-it", arrived(h.get(f"{n}:count"), len(flat)) if "count" in str(list(h)) else False, "C24", [n, v, h])
            w.p(f"{name}/in-order", land(*[arrived(h.get(f"{n}:{i}"), x) for i, x in enumerate(flat)]), "C24", [n, v, h])
        else:
            kind_of = "boolean" if ty is bool else "number" if ty in (int, float) else "string"
            w.p(f"{name}/as-its-type", h.get(f"{n}:type") == kind_of, "C24", [n, ty, h])
            want = ("true" if v else "false") if ty is bool else v
            w.p(f"{name}/the-value", arrived(h.get(n), want), "C24", [n, v, h])


@contract("scripts.call", "C24", LUA, weight=12, sweep_factor=2)
async def call(c):
    """any declaration, any values: every name holds exactly what was passed for it"""
    env = await Env.make(c, scopes=None)
    w = W(env, "scripts.call")
    nk, na = c.choose(3) + 1, c.choose(4)
    tys = [c.pick(str, bytes, int, float, bool) for _ in range(na)]
    variadic = c.pick(None, dict, list, tuple)
    keys = [(f"key_{i}", "key", str if i != 1 else bytes) for i in range(nk)]
    args = [(f"arg_{i}", "arg", ty) for i, ty in enumerate(tys)]
    # keys and arguments may be declared in any order relative to each other
    params = [x for pair in zip(keys[::-1] if nk == 2 else keys, args) for x in pair[::-1 if na == 2 else 1]]
    params += [x for x in keys + args if x not in params]
    if variadic: params.append(("rest", "args", variadic))
    fn = declare(params)
    values = {n: f"{n}:é" if ty is str else f"{n}:\udcff".encode("utf-8", "surrogateescape") for n, k, ty in keys}
    for n, k, ty in args: values[n] = sample(c, n, ty)
    if variadic is dict: values["rest"] = {f"f{i}": element(c, i) for i in range([0, 1, 3][c.choose(3)])}
    elif variadic: values["rest"] = variadic(element(c, i) for i in range([0, 1, 7][c.choose(3)]))
    n0 = len(env.steps)
    if nk == 1 and na == 2: values = dict(reversed(values.items()))     # passed by name: the order of passing is of no account
    r = await fn(env.client, **values)
    w.p("returns-what-the-script-does", r == b"OK", "C24", r)
    first = next(values[n] for n, k, ty in params if k == "key")
    holds(w, params, values, (await env.snap()).hash(t(first) if isinstance(first, bytes) else first))


@contract("scripts.again", "C24", LUA)
async def again(c):
    """two scripts called in turn, each with new values and after the server forgot its scripts"""
    env = await Env.make(c, scopes=None)
    w = W(env, "scripts.again")
    p1 = [("a", "key", str), ("x", "arg", int), ("y", "arg", bool)]
    p2 = [("x", "arg", float), ("a", "key", str), ("y", "arg", str), ("more", "args", list)]
    f1, f2 = declare(p1), declare(p2)
    for i, which in enumerate((c.choose(2), c.choose(2), c.choose(2))):
        p, f = ((p1, f1), (p2, f2))[which]
        v = {"a": f"k{i}", "x": c.int(f"x{i}", -BIG, BIG) if which == 0 else c.real(f"x{i}", -10**9, 10**9),
             "y": c.pick(True, False) if which == 0 else f"text{i}"}
        if which: v["more"] = list(range(i))
        if c.symbolic and c.choose(2): env.client.scripts.clear()
        await f(env.client, **v)
        holds(w, p, v, (await env.snap()).hash(f"k{i}"))


@contract("scripts.refused", "C24", LUA)
async def refused(c):
    """a value that cannot be represented: refused before anything is sent"""
    env = await Env.make(c, scopes=None)
    w = W(env, "scripts.refused")
    variadic = c.pick(None, dict, list, tuple)
    ty = c.pick(str, bytes, int, float, bool)
    params = [("a", "key", str), ("x", "arg", ty), ("y", "arg", str)] + ([("rest", "args", variadic)] if variadic else [])
    fn = declare(params)
    bad = c.pick(None, object(), ["x"], {"x": 1}, timedelta(1), 1j, ("x",), {"s"})
    v = {"a": "k", "x": sample(c, "x1", ty), "y": "why"}
    if variadic:
        where = c.choose(3)
        if variadic is dict: v["rest"] = {"f0": 1, "f1": bad if where else 1, "f2": "z"} if where != 2 or not isinstance(bad, (type(None), tuple)) else {"f0": 1, bad: "z"}
        else: v["rest"] = variadic([bad, 1, 2][-where:] + [bad, 1, 2][:-where] if where else [bad])
        if where == 0 or variadic is not dict: pass
        if variadic is dict and not where: v["x"] = bad
    else: v["y" if c.choose(2) else "x"] = bad
    pre, n0 = await env.snap(), len(env.steps)
    try:
        await fn(env.client, **v)
        said = None
    except Exception as e: said = e
    w.p("refused", isinstance(said, (TypeError, ValueError)), "C24", [v, said])
    w.p("nothing-sent", len(env.steps) == n0, "C24", env.steps[n0:])
    w.unchanged(pre, await env.snap(), "nothing-changed", "C24")


@contract("scripts.declaration", "C24", LUA)
async def declaration(c):
    """a declaration whose names could not all be told apart is refused outright"""
    what = c.pick("after variadic", "after variadic and key", "two variadics")
    params = [("a", "key", str), ("rest", "args", c.pick(dict, list, tuple))]
    if what == "after variadic": params.append(("x", "arg", c.pick(str, int, bool)))
    elif what == "after variadic and key": params += [("b", "key", str), ("x", "arg", float)]
    else: params.append(("more", "args", list))
    env = await Env.make(c, scopes=None)
    w = W(env, "scripts.declaration")
    try:
        declare(params)
        said = None
    except Exception as e: said = e
    w.p("refused", isinstance(said, TypeError), "C24", [what, said])


def declared():
    """every script wrapper of the package, by name"""
    import docket
    found = {}
    for m in pkgutil.walk_packages(docket.__path__, "docket."):
        if m.name.endswith("__main__"): continue
        try: mod = importlib.import_module(m.name)
        except ImportError: continue
        for name, f in vars(mod).items():
            raw = getattr(f, "__wrapped__", None)
            if raw is not None and inspect.iscoroutinefunction(raw) and isinstance(getattr(f, "__lua__", None), str):
                found[f"{raw.__module__}.{raw.__qualname__}"] = raw
    return [found[k] for k in sorted(found)]


@contract("scripts.declared", "C24", LUA + ["every @redis_script of the package: its declaration, with a body that writes down each name"])
async def of_the_package(c):
    """every script of the package, as declared there: each name holds what is passed for it"""
    from docket._lua import redis_script
    env = await Env.make(c, scopes=None)
    w = W(env, "scripts.declared")
    raws = declared()
    if not raws: return
    raw = raws[c.choose(len(raws))]
    hints = get_type_hints(raw, include_extras=True)
    params = []
    for n in inspect.signature(raw).parameters:
        kinds = {m.__name__: m for m in getattr(hints.get(n), "__metadata__", ())}
        if not kinds: continue
        kind = {"_Key": "key", "_Arg": "arg", "_Args": "args"}[next(iter(kinds))]
        ty = get_args(hints[n])[0]
        params.append((n, kind, getattr(ty, "__origin__", ty)))
    import types
    again_ = types.FunctionType(raw.__code__, raw.__globals__, raw.__name__, raw.__defaults__, raw.__closure__)
    again_.__kwdefaults__, again_.__annotations__, again_.__doc__ = raw.__kwdefaults__, raw.__annotations__, probe(params)
    fn = redis_script(again_)
    v = {}
    for i, (n, kind, ty) in enumerate(params):
        if kind == "key": v[n] = f"K{i}"
        elif kind == "args": v[n] = {f"f{j}": element(c, j) for j in range(3)} if ty is dict else [element(c, j) for j in range(7)]
        else: v[n] = c.int(n, -BIG, BIG) if ty is int else c.real(n, -10**15, 10**15) if ty is float else c.pick(True, False) if ty is bool else f"value of {n}"
    await fn(env.client, **v)
    first = next(v[n] for n, k, ty in params if k == "key")
    holds(w, params, v, (await env.snap()).hash(first), f"{raw.__module__.rsplit('.', 1)[-1]}.{raw.__name__}")
