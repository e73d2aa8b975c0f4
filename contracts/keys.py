"""Contract of generated keys (C23)."""
from __future__ import annotations

import os
import uuid

from .world import *
from .transfer import HI
from engine.env import Env
from engine.shims import Bytes
from .registry import contract

UUID = ["docket._uuid7:_vendored_uuid7"]
NS_LO, NS_HI = 1_500_000_000 * 10**9, 16_000_000_000 * 10**9


def sources(c):
    """the clock and the random bytes the next keys are made of: set(ns)"""
    at, n = [0], [0]

    def urandom(k):
        n[0] += 1
        v = c.int(f"rand{n[0]}", 0, 2**(8 * k) - 1)
        if not c.symbolic: return v.to_bytes(k, "big")
        x = Bytes(k)
        x.number = v
        return x
    c.hooks["time_ns"], c.hooks["urandom"] = (lambda: at[0]), urandom
    return lambda ns: at.__setitem__(0, ns)


def well_formed(w, u, ns, name):
    i = u.int
    w.p(f"{name}/in-range", land(0 <= i, i < 2**128), "C23", i)
    w.p(f"{name}/version-7", (i >> 76) & 15 == 7, "C23", i)
    w.p(f"{name}/variant", (i >> 62) & 3 == 2, "C23", i)
    # 36 bits of seconds and 24 of fractions (or the 48 bits of milliseconds of RFC 9562)
    sixty = ((i >> 80) << 12) + ((i >> 64) & 4095)
    draft = land(sixty * 10**9 <= ns << 24, (sixty + 1) * 10**9 > ns << 24)
    ms = (i >> 80)
    w.p(f"{name}/carries-the-time", lor(draft, land(ms * 10**6 <= ns, (ms + 1) * 10**6 > ns)), "C23", [i, ns])


def counter():
    """where the implementation counts the keys of one clock tick, if it does so in the open"""
    from docket import _uuid7
    x = getattr(_uuid7, "_last", None)
    return x if isinstance(x, list) and len(x) == 4 else None


@contract("keys", "C23", UUID, weight=5)
async def keys(c):
    """successive keys, the clock standing still or advancing by any amount, after any number of keys of the same tick"""
    from docket._uuid7 import uuid7
    env = await Env.make(c)
    w = W(env, "keys")
    clock, state = sources(c), counter()
    ns = c.int("ns0", NS_LO, NS_HI)
    clock(ns)
    before = list(state) if state else None
    if state: state[:] = [0, 0, 0, c.int("left_over", 0, 0x3FFF)]       # whatever an earlier tick left
    try:
        prev = uuid7()
        well_formed(w, prev, ns, "first")
        if state and c.choose(2, "many of the same tick"):
            # as many have been made since: their counter is that far on
            many = c.int("many", 0, 0x3FFF - 3)
            state[3] = many
            prev = uuid7()
            w.p("counted", (prev.int >> 48) & 0x3FFF == many + 1, "C23", [prev.int, many])
        for k in (1, 2):
            then = c.int(f"ns{k}", ns, NS_HI)
            clock(then)
            u = uuid7()
            well_formed(w, u, then, "next")
            w.p("increasing", u.int > prev.int, "C23", [prev.int, u.int])
            w.p("unique", lnot(u.int == prev.int), "C23", "")
            ns, prev = then, u
    finally:
        if state: state[:] = before


@contract("keys.given", "C23 C02", UUID + ["docket.docket:Docket.add", "docket.agenda:Agenda.scatter"])
async def given(c):
    """tasks added without a key get such keys, in the order of their adding"""
    from docket.agenda import Agenda
    env = await Env.make(c)
    w = W(env, "keys.given")
    env.docket.register(job)
    at = 1_700_000_000_123_456_789
    c.hooks["time_ns"] = lambda: at
    n = 3
    if c.choose(2, "scattered"):
        a = Agenda()
        for i in range(n): a.add(job)(i)
        es = await a.scatter(env.docket, delta(10**9), start=dt(HI + 10**14))
    else: es = [await env.docket.add(job, when=dt(HI + 10**14))(i) for i in range(n)]
    ids = [uuid.UUID(e.key) for e in es]
    for u in ids: well_formed(w, u, at, "key")
    w.p("in-order", [u.int for u in ids] == sorted({u.int for u in ids}) and [e.key for e in es] == sorted(e.key for e in es), "C23", [e.key for e in es])
    post = await env.snap()
    w.p("each-its-own-task", set(post.zset(w.queue)) == {e.key for e in es}, "C23 C02", [e.key for e in es])
