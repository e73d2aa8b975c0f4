"""Verification-condition generator: exhaustive path exploration of the real code.

A *contract harness* is an ``async def h(c)``.  It sets up a pre-state satisfying the
contract's precondition from symbolic values (``c.int``, ``c.real``...) and finite case
splits (``c.choose``), calls the real function from /repo, and states the postcondition
with ``c.prove``.  In symbolic mode the harness is re-executed once per path; every
branch whose condition is symbolic is decided by z3 and both feasible sides are explored,
so the set of paths covers *all* values.  Every ``c.prove`` on every path is an obligation
that z3 must show valid under the path condition.

The same harness also runs in concrete mode (see concrete.py) against the real code on a
real in-memory Redis (burner_redis): that is how counterexamples are replayed.
"""
from __future__ import annotations

import time as _time
import contextlib
import signal
import threading
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

import z3

CURRENT: "Ctx | None" = None  # the context of the run in progress (symbolic or concrete)


class Unsupported(Exception):
    """The code used something the symbolic back end does not model."""


class PathEnd(BaseException):
    """Abandon the current path (infeasible assumption, or cut at a loop head)."""


def ctx() -> "Ctx":
    if CURRENT is None:
        raise Unsupported("symbolic value used outside a run")
    return CURRENT


@dataclass
class Obligation:
    name: str
    props: tuple[str, ...]
    paths: int = 0          # instances (one per path reaching it)
    trivial: int = 0        # instances decided by evaluation alone
    discharged: int = 0     # instances accepted (z3 unsat, or evaluation)
    undecided: int = 0      # z3 said unknown
    failures: list = field(default_factory=list)
    seconds: float = 0.0


@dataclass
class Failure:
    harness: str
    obligation: str
    props: tuple[str, ...]
    choices: list[int]
    values: dict[str, Any]
    detail: str
    trace: str = ""


class Ctx:
    """Common interface of the symbolic and the concrete run context."""

    symbolic: bool

    def __init__(self, wanted: set[str] | None, harness: str):
        self.wanted = wanted
        self.harness = harness
        self.notes: list[str] = []
        self.step_hooks: list[Callable[[str], Any]] = []
        self.log: list[str] = []
        self.frozen = None      # set to hold the clock still
        self.now_n = self.mono_n = 0
        self.nows: list = []        # readings of the wall clock
        self.monos: list = []       # readings of the monotonic clock
        self.cancelling = 0         # requests to cancel the task running the code
        self.last_now = self.last_mono = self.first_now = None
        self.env: Any = None

    # ---- clock: successive readings never decrease --------------------------
    def now_us(self):
        """one reading of the wall clock, microseconds since the epoch"""
        from .shims import NOW_HI, NOW_LO
        if self.frozen is not None:
            return self.frozen
        i = self.now_n
        self.now_n += 1
        lo = NOW_LO if self.last_now is None else self.last_now
        v = self.int(f"now{i}", NOW_LO, NOW_HI)
        if self.last_now is not None:
            if self.symbolic:
                self.assume(v >= self.last_now)
            elif v < self.last_now:
                v = self.last_now
        self.last_now = v
        self.nows.append(v)
        if self.first_now is None: self.first_now = v
        return v

    def first_after(self, n):
        """the first reading of the wall clock after the first n"""
        return self.nows[n] if self.frozen is None else self.frozen

    def mono(self):
        i = self.mono_n
        self.mono_n += 1
        v = self.real(f"mono{i}", 0, 10**7)
        if self.last_mono is not None:
            if self.symbolic:
                self.assume(v >= self.last_mono)
            elif v < self.last_mono:
                v = self.last_mono
        self.last_mono = v
        self.monos.append(v)
        return v

    def wants(self, props) -> bool:
        return self.wanted is None or any(p in self.wanted for p in _props(props))

    def pick(self, *options):
        """Case split over Python values."""
        return options[self.choose(len(options), "")]

    # provided by the subclasses
    def choose(self, n: int, label: str = "") -> int: raise NotImplementedError
    def int(self, name, lo=None, hi=None): raise NotImplementedError
    def real(self, name, lo=None, hi=None): raise NotImplementedError
    def bool(self, name): raise NotImplementedError
    def assume(self, cond): raise NotImplementedError
    def prove(self, name, cond, props, detail=""): raise NotImplementedError


def _props(props) -> tuple[str, ...]:
    return tuple(props.replace(",", " ").split()) if isinstance(props, str) else tuple(props)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, explorer: "Explorer", prefix: list, wanted, harness):
        super().__init__(wanted, harness)
        self.ex = explorer
        self.prefix = prefix            # decisions to replay
        self.trail: list = []           # decisions taken: ("b", bool) or ("c", i, n)
        self.solver = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
        self.solver.set("timeout", explorer.timeout_ms)
        self.vars: dict[str, Any] = {}
        self.fresh_n = 0
        self.tokens: dict[str, Any] = {}
        self.token_of: dict[Any, str] = {}
        self.pc_len = 0

    # ---- symbols -------------------------------------------------------
    def _decl(self, name, sort):
        if name in self.vars:
            return self.vars[name]
        v = z3.Const(name, sort)
        self.vars[name] = v
        return v

    def fresh(self, base, sort):
        self.fresh_n += 1
        return self._decl(f"{base}!{self.fresh_n}", sort)

    def int(self, name, lo=None, hi=None):
        from .sym import Sym
        v = self._decl(name, z3.IntSort())
        self._range(v, lo, hi)
        return Sym(v)

    def real(self, name, lo=None, hi=None):
        from .sym import Sym
        v = self._decl(name, z3.RealSort())
        self._range(v, lo, hi)
        return Sym(v)

    def bool(self, name):
        from .sym import SymBool
        return SymBool(self._decl(name, z3.BoolSort()))

    def _range(self, v, lo, hi):
        from .sym import unwrap
        if lo is not None:
            self.add(v >= unwrap(lo))
        if hi is not None:
            self.add(v <= unwrap(hi))

    def add(self, f):
        self.solver.add(f)
        self.pc_len += 1

    # ---- decisions -----------------------------------------------------
    def branch(self, cond) -> bool:
        """Decide a symbolic condition; explore both sides when both are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            kind, value = self.prefix[i][0], self.prefix[i][1]
            if kind != "b":
                raise RuntimeError("non-deterministic harness (expected a branch)")
            self.trail.append(self.prefix[i])
            self.add(cond if value else z3.Not(cond))
            return value
        can_true = self._sat(cond)
        # the path condition is satisfiable: if one side is not, the other is
        can_false = self._sat(z3.Not(cond)) if can_true else True
        if can_true and can_false:
            self.ex.push(self.trail + [("b", False)])
            value = True
        else:
            value = can_true
        # a forced branch is recorded as well, so that replays stay aligned
        self.trail.append(("b", value))
        self.add(cond if value else z3.Not(cond))
        return value

    def choose(self, n, label=""):
        if n <= 0:
            raise PathEnd("no choice")
        if n == 1:
            value = 0
            return value
        i = len(self.trail)
        if i < len(self.prefix):
            kind, value = self.prefix[i][0], self.prefix[i][1]
            if kind != "c":
                raise RuntimeError("non-deterministic harness (expected a choice)")
            self.trail.append(self.prefix[i])
            return value
        for k in range(n - 1, 0, -1):
            self.ex.push(self.trail + [("c", k)])
        self.trail.append(("c", 0))
        return 0

    def _sat(self, f) -> bool:
        t = _time.perf_counter()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.ex.solver_seconds += _time.perf_counter() - t
        self.ex.feasibility_queries += 1
        return r != z3.unsat  # unknown: keep the path (over-approximation)

    def assume(self, cond):
        from .sym import SymBool
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, z3.ExprRef):
            if not self._sat(cond):
                raise PathEnd("assumption infeasible")
            self.add(cond)
        elif not cond:
            raise PathEnd("assumption false")

    # ---- obligations ---------------------------------------------------
    def prove(self, name, cond, props, detail=""):
        from .sym import SymBool
        props = _props(props)
        if not self.wants(props):
            return
        ob = self.ex.obligation(name, props)
        ob.paths += 1
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, z3.ExprRef):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if not isinstance(cond, z3.ExprRef):
            ob.trivial += 1
            if cond:
                ob.discharged += 1
                return
            f = z3.BoolVal(True)
        else:
            f = z3.Not(cond)
        t = _time.perf_counter()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        dt = _time.perf_counter() - t
        ob.seconds += dt
        self.ex.solver_seconds += dt
        if r == z3.unsat:
            ob.discharged += 1
        elif r == z3.unknown:
            ob.undecided += 1
        else:
            ob.failures.append(
                Failure(self.harness, name, props,
                        [d[1] for d in self.trail if d[0] == "c"],
                        self._values(model), str(cond if isinstance(detail, str) and not detail else detail)[:2000])
            )

    def _values(self, model) -> dict[str, Any]:
        out: dict[str, Any] = {}
        for name, v in self.vars.items():
            if "!" in name:
                continue
            val = model.eval(v, model_completion=True)
            if z3.is_int_value(val):
                out[name] = val.as_long()
            elif z3.is_rational_value(val):
                out[name] = val.numerator_as_long() / val.denominator_as_long()
            elif z3.is_true(val) or z3.is_false(val):
                out[name] = z3.is_true(val)
            else:
                out[name] = None
        return out

    def model_now(self) -> dict[str, Any]:
        r = self.solver.check()
        return self._values(self.solver.model()) if r == z3.sat else {}

    # ---- tokens: symbolic numbers inside strings -------------------------
    def token(self, expr, kind) -> str:
        key = (kind, expr.get_id())
        if key in self.token_of:
            return self.token_of[key]
        t = f"@@{kind}{len(self.tokens)}@@"
        self.tokens[t] = expr
        self.token_of[key] = t
        self._keep = getattr(self, "_keep", [])
        self._keep.append(expr)
        return t


@dataclass
class HarnessResult:
    name: str
    paths: int = 0
    ended: int = 0
    obligations: dict[str, Obligation] = field(default_factory=dict)
    unsupported: list[str] = field(default_factory=list)
    errors: list[tuple[str, Failure]] = field(default_factory=list)
    notes: set[str] = field(default_factory=set)
    solver_seconds: float = 0.0
    feasibility_queries: int = 0
    truncated: bool = False
    seconds: float = 0.0


class Explorer:
    def __init__(self, name, fn, wanted, *, max_paths=20000, timeout_ms=4000, deadline=None):
        self.name, self.fn, self.wanted = name, fn, wanted
        self.max_paths, self.timeout_ms, self.deadline = max_paths, timeout_ms, deadline
        self.stack: list[list] = [[]]
        self.result = HarnessResult(name)
        self.solver_seconds = 0.0
        self.feasibility_queries = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def obligation(self, name, props) -> Obligation:
        obs = self.result.obligations
        if name not in obs:
            obs[name] = Obligation(name, props)
        return obs[name]

    def run(self) -> HarnessResult:
        global CURRENT
        from . import shims
        t0 = _time.time()
        res = self.result
        while self.stack:
            if res.paths >= self.max_paths or (self.deadline and _time.time() > self.deadline):
                res.truncated = True
                break
            prefix = self.stack.pop()
            c = SymCtx(self, prefix, self.wanted, self.name)
            CURRENT = c
            shims.enter(c)
            try:
                with watch(PATH_SECONDS):
                    coro = self.fn(c)
                    drive(coro)
                res.paths += 1
            except PathEnd:
                res.ended += 1
            except TakesTooLong as e:
                res.unsupported.append(f"{e} @ {_where(e)}")
                if len(res.unsupported) > 400 or sum("too long" in u for u in res.unsupported) > 1:
                    res.truncated = True
                    break
            except Unsupported as e:
                res.unsupported.append(f"{e} @ {_where(e)}")
            except KeyboardInterrupt:
                raise
            except MemoryError:
                coro = c = None
                res.unsupported.append("takes too much memory")
                res.truncated = True
                break
            except BaseException as e:  # unexpected exception: an obligation of its own
                f = Failure(self.name, "no-unexpected-exception", (),
                            [d[1] for d in c.trail if d[0] == "c"], c.model_now(),
                            f"{type(e).__name__}: {e}", traceback.format_exc())
                res.errors.append((f"{type(e).__name__}: {e}", f))
                if len(res.errors) > 40:
                    res.truncated = True
                    break
            finally:
                shims.leave()
                CURRENT = None
                if c is not None: res.notes.update(c.notes)
        res.solver_seconds = self.solver_seconds
        res.feasibility_queries = self.feasibility_queries
        res.seconds = _time.time() - t0
        return res


def _where(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/docket/" in fr.filename or "/contracts/" in fr.filename:
            return f"{fr.filename.rsplit('/', 1)[1]}:{fr.lineno}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"


class TakesTooLong(BaseException):
    """a path or run that does not end"""


PATH_SECONDS = 40


@contextlib.contextmanager
def watch(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def over(*a): raise TakesTooLong(f"takes too long: more than {seconds} s")
    was = signal.signal(signal.SIGALRM, over)
    # again and again: code that swallows it once is stopped by the next
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, was)


def drive(coro):
    """Run a coroutine whose awaits never really suspend."""
    try:
        y = coro.send(None)
    except StopIteration as s:
        return s.value
    coro.close()
    raise Unsupported(f"coroutine suspended on {y!r}")
