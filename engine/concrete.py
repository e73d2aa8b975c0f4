"""Concrete runs of the contract harnesses: the real code on the real in-memory Redis server.

Used to replay a counterexample found by the verifier, to cross-check the Redis axioms, and as
the (labelled) bounded stand-in when a function is outside the verifier's reach."""
from __future__ import annotations

import asyncio
import random
import time
import traceback
import warnings

from . import core, shims
from .core import Ctx, Failure, PathEnd, _props


class ConcreteCtx(Ctx):
    symbolic = False

    def __init__(self, wanted, harness, choices, values, seed=0, explore=None):
        super().__init__(wanted, harness)
        self.choices, self.values = list(choices), dict(values)
        self.trail: list[int] = []
        self.explore = explore
        self.rng = random.Random(seed)
        self.used: dict[str, object] = {}
        self.failures: list[Failure] = []
        self.checked: dict[str, int] = {}

    def choose(self, n, label=""):
        if n <= 0: raise PathEnd("no choice")
        if n == 1: return 0
        i = len(self.trail)
        k = self.choices[i] if i < len(self.choices) else 0
        if i >= len(self.choices) and self.explore is not None:
            for j in range(n - 1, 0, -1):
                self.explore.append(self.trail + [j])
        if k >= n: k = 0
        self.trail.append(k)
        return k

    def _num(self, name, lo, hi, integer):
        if name in self.used: return self.used[name]
        if name in self.values:
            v = self.values[name]
        else:
            r = self.rng
            near = [x for x in self.used.values() if type(x) in (int, float)
                    and (lo is None or x >= lo) and (hi is None or x <= hi)]
            if near and r.random() < 0.5:
                v = r.choice(near) + r.choice([0, 0, 1, -1])
            elif r.random() < 0.5 and lo is not None:
                v = lo + r.choice([0, 1, 2, 3, 5])
            else:
                a = lo if lo is not None else -1000
                b = hi if hi is not None else a + 10**6
                v = r.randint(int(a), int(b)) if integer else r.uniform(a, b)
            if lo is not None: v = max(v, lo)
            if hi is not None: v = min(v, hi)
        v = int(v) if integer else float(v)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None): return self._num(name, lo, hi, True)
    def real(self, name, lo=None, hi=None): return self._num(name, lo, hi, False)

    def bool(self, name):
        if name not in self.used:
            self.used[name] = bool(self.values.get(name, self.rng.random() < 0.5))
        return self.used[name]

    def assume(self, cond):
        if not cond: raise PathEnd("assumption false")

    def prove(self, name, cond, props, detail=""):
        props = _props(props)
        if not self.wants(props): return
        self.checked[name] = self.checked.get(name, 0) + 1
        if not cond:
            self.failures.append(Failure(self.harness, name, props, list(self.trail), dict(self.used),
                                         str(detail)[:2000]))


def run_once(name, fn, wanted, choices, values, seed=0, explore=None, timeout=20):
    """-> (ctx, error or None); error is (type, text, traceback)"""
    c = ConcreteCtx(wanted, name, choices, values, seed, explore)
    core.CURRENT = c
    shims.enter(c)
    err = None

    async def main():
        try:
            await asyncio.wait_for(fn(c), timeout)
        finally:
            for x in getattr(c, "closers", []):
                try: await x()
                except Exception: pass
            me = asyncio.current_task()
            rest = [t for t in asyncio.all_tasks() if t is not me]
            for t in rest: t.cancel()
            if rest: await asyncio.wait(rest, timeout=1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with core.watch(timeout + 10):
                asyncio.run(main())
    except core.TakesTooLong as e:
        err = ("Unsupported", str(e), "")
        c.slow = True
    except PathEnd:
        c.ended = True
    except core.Unsupported as e:
        err = ("Unsupported", str(e), "")
    except KeyboardInterrupt:
        raise
    except MemoryError:
        err = ("Unsupported", "takes too much memory", "")
        c.slow = True
    except BaseException as e:
        err = (type(e).__name__, str(e), traceback.format_exc())
    finally:
        shims.leave()
        core.CURRENT = None
    return c, err


class SweepResult:
    def __init__(self):
        self.runs = 0
        self.checked: dict[str, int] = {}
        self.failures: list[Failure] = []
        self.errors: list[tuple[str, Failure]] = []
        self.ended = 0


def sweep(name, fn, wanted, seeds, deadline, max_runs=400):
    """Depth-first over the case splits, with sampled values: bounded, never counted as proved."""
    res = SweepResult()
    for seed in seeds:
        stack = [[]]
        while stack and res.runs < max_runs and time.time() < deadline:
            choices = stack.pop()
            c, err = run_once(name, fn, wanted, choices, {}, seed=hash((seed, tuple(choices))) & 0xffffff, explore=stack)
            res.runs += 1
            res.ended += getattr(c, "ended", False)
            for k, v in c.checked.items():
                res.checked[k] = res.checked.get(k, 0) + v
            res.failures += c.failures[:3]
            if getattr(c, "slow", False): return res
            if err and err[0] != "Unsupported":
                res.errors.append((f"{err[0]}: {err[1]}",
                                   Failure(name, "no-unexpected-exception", (), list(c.trail), dict(c.used), err[1], err[2])))
            if len(res.failures) + len(res.errors) > 20:
                return res
    return res
