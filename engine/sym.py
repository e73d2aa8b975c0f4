"""Symbolic numbers, booleans, datetimes and timedeltas that flow through the real code."""
from __future__ import annotations

import datetime as _dt
import re
from fractions import Fraction
from typing import Any

import z3

from . import core
from .core import Unsupported

EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
TOKEN = re.compile(r"@@([irdt])(\d+)@@")


def unwrap(x) -> Any:
    if isinstance(x, (Sym, SymBool)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x in (float("inf"), float("-inf")) or x != x:
            raise Unsupported("non-finite float in arithmetic")
        f = Fraction(x).limit_denominator(10**9)
        if float(f) != x:
            f = Fraction(x)
        return z3.RealVal(str(f))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def is_num(x) -> bool:
    t = type(x)
    return t is Sym or t is int or t is float or t is Fraction or t is bool or issubclass(t, (int, float))


def _unpickled(n): return core.ctx().pickled[n]


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.ctx().branch(self.e)

    @property
    def __class__(self):
        return bool

    def __and__(self, o): return SymBool(z3.And(self.e, unwrap(o)))
    def __or__(self, o): return SymBool(z3.Or(self.e, unwrap(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, bool):
            return SymBool(self.e == unwrap(o))
        return NotImplemented

    __hash__ = None

    def __int__(self): return 1 if self else 0          # a truth value as a number: 0 or 1
    __index__ = __float__ = __int__
    def __add__(self, o): return int(self) + o
    def __radd__(self, o): return o + int(self)
    def __sub__(self, o): return int(self) - o
    def __rsub__(self, o): return o - int(self)
    def __mul__(self, o): return int(self) * o
    def __rmul__(self, o): return o * int(self)

    def __repr__(self):
        return f"SymBool({self.e})"


def _coerce(a, b):
    if a.is_int() and b.is_real():
        a = z3.ToReal(a)
    elif a.is_real() and b.is_int():
        b = z3.ToReal(b)
    return a, b


def micro(e):
    """the integer number of millionths a real term denotes, if it plainly is one"""
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        return z3.IntVal(n * (10**6 // d)) if 10**6 % d == 0 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_DIV and z3.is_to_real(e.arg(0)) and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 10**6:
        return e.arg(0).arg(0)
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_rational_value(e.arg(0)) and z3.is_to_real(e.arg(1)) \
            and e.arg(0).as_fraction() == Fraction(1, 10**6):
        return e.arg(1).arg(0)
    return None


def monomial(e):
    """(fraction, integer term) whose product the real term plainly is"""
    if z3.is_to_real(e): return Fraction(1), e.arg(0)
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_rational_value(e.arg(0)):
        m = monomial(e.arg(1))
        return None if m is None else (m[0] * e.arg(0).as_fraction(), m[1])
    if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() != 0:
        m = monomial(e.arg(0))
        return None if m is None else (m[0] / e.arg(1).as_fraction(), m[1])
    return None


def summands(e):
    """the integer term as [(coefficient, term)], a constant being (n, None)"""
    e = z3.simplify(e)
    out = []
    for x in (e.children() if z3.is_add(e) else [e]):
        if z3.is_int_value(x): out.append((x.as_long(), None))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)): out.append((x.arg(0).as_long(), x.arg(1)))
        else: out.append((1, x))
    return out


def divide(e, n):
    """quotient and remainder by a positive constant, as terms linear in fresh integers"""
    c = core.ctx()
    memo = c.__dict__.setdefault("divided", {})
    e = z3.simplify(e)
    if z3.is_int_value(e): return z3.IntVal(e.as_long() // n), z3.IntVal(e.as_long() % n)
    key = (e.get_id(), n)
    if key in memo: return memo[key][1]
    # what is a multiple of n goes to the quotient as it is
    high = low = z3.IntVal(0)
    for k, x in summands(e):
        q, r = (k // n, k % n) if x is None else (k // n, 0) if k % n == 0 else (0, k)
        if x is None: high, low = high + q, low + r
        else: high, low = high + q * x, low + r * x
    high, low = z3.simplify(high), z3.simplify(low)
    if z3.is_int_value(low) and 0 <= low.as_long() < n or not c._sat(z3.Not(z3.And(low >= 0, low < n))): out = high, low
    else:
        q, r = c.fresh("quotient", z3.IntSort()), c.fresh("remainder", z3.IntSort())
        c.add(z3.And(low == q * n + r, r >= 0, r < n))
        out = z3.simplify(high + q), r
    memo[key] = (e, out)
    return out


class Sym:
    """A symbolic int (z3 Int) or float, treated as a mathematical real (z3 Real)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int if self.e.is_int() else float

    def __reduce_ex__(self, protocol):
        kept = core.ctx().__dict__.setdefault("pickled", {})
        kept[self.e.get_id()] = self
        return _unpickled, (self.e.get_id(),)

    def _bin(self, o, f, swap=False):
        if not is_num(o):
            return NotImplemented
        if type(o) is float and (o in (float("inf"), float("-inf"))):
            raise Unsupported("arithmetic with infinity")
        a, b = _coerce(self.e, unwrap(int(o) if type(o) is bool else o))
        if swap:
            a, b = b, a
        return Sym(z3.simplify(f(a, b)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        _nonzero(o)
        return self._bin(o, lambda a, b: _real(a) / _real(b))

    def __rtruediv__(self, o):
        _nonzero(self)
        return self._bin(o, lambda a, b: _real(a) / _real(b), True)

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __divmod__(self, o):
        o = unwrap(o)
        if self.e.is_int() and o.is_int() and z3.is_int_value(o) and o.as_long() > 0:
            return tuple(map(Sym, divide(self.e, o.as_long())))
        raise Unsupported("divmod on reals or non-constant divisor")

    def __lshift__(self, n):
        if type(n) is int:
            return Sym(z3.simplify(self.e * z3.IntVal(1 << n)))
        raise Unsupported("symbolic shift")

    def __rshift__(self, n):
        if type(n) is int and self.e.is_int(): return Sym(divide(self.e, 1 << n)[0])
        raise Unsupported("symbolic shift")

    def __and__(self, m):
        """with a constant mask: the sum of its runs of ones, each a quotient and a remainder"""
        if type(m) is not int or m < 0 or not self.e.is_int(): raise Unsupported("bitwise and")
        out, lo = z3.IntVal(0), 0
        while m >> lo:
            if not (m >> lo) & 1:
                lo += 1
                continue
            n = 0
            while (m >> (lo + n)) & 1: n += 1
            out = out + divide(divide(self.e, 1 << lo)[0], 1 << n)[1] * z3.IntVal(1 << lo)
            lo += n
        return Sym(z3.simplify(out))

    __rand__ = __and__

    def __or__(self, o):
        """of numbers without a bit in common: their sum"""
        c = core.ctx()
        if type(o) is Sym and o.e.is_int() and self.e.is_int():
            for k in (8, 12, 14, 16, 20, 24, 32, 48, 62, 64, 76, 80, 92, 96):
                for a, z in ((self, o), (o, self)):
                    below = z3.And(a.e >= 0, a.e < (1 << k), z.e >= 0, divide(z.e, 1 << k)[1] == 0)
                    if not c._sat(z3.Not(below)): return Sym(z3.simplify(a.e + z.e))
            raise Unsupported("bitwise or of overlapping numbers")
        if type(o) is not int or o < 0 or not self.e.is_int(): raise Unsupported("bitwise or")
        return Sym(z3.simplify(self.e + o - (self & o).e))

    __ror__ = __or__

    def __rpow__(self, base):
        # base ** symbolic: an uninterpreted power with the facts the contracts need
        c = core.ctx()
        if type(base) is int and base == 2:
            return Sym(pow2(c, self.e))
        raise Unsupported("symbolic exponent")

    def __neg__(self): return Sym(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f, inf):
        if not is_num(o):
            return NotImplemented
        if type(o) is float and o in (float("inf"), float("-inf")):
            return inf(o > 0)
        x, y = self.e, unwrap(int(o) if type(o) is bool else o)
        if x.is_real() and y.is_real():
            i, j = micro(x), micro(y)
            if i is not None and j is not None:
                return SymBool(f(i, j))
        a, b = _coerce(x, y)
        return SymBool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda p: p)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda p: p)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda p: not p)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda p: not p)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda p: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda p: True)
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self):
        return core.ctx().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic value used as an index")

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside instrumented code")

    __float__ = __int__

    def trunc(self):
        e = self.e
        if e.is_int():
            return self
        m = monomial(e)
        if m is not None and m[0] > 0:      # a fraction of an integer: integer division
            (f, i) = m
            n, d = f.numerator * i, f.denominator
            return Sym(z3.simplify(z3.If(i >= 0, n / d, -(-n / d))))
        return Sym(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __trunc__(self): return self.trunc()

    def __floor__(self):
        m = None if self.e.is_int() else monomial(self.e)
        if m is not None and m[0] > 0:
            return Sym(z3.simplify((m[0].numerator * m[1]) / z3.IntVal(m[0].denominator)))
        return self if self.e.is_int() else Sym(z3.ToInt(self.e))

    def __ceil__(self): return -((-self).__floor__()) if self.e.is_int() or monomial(self.e) is None else self._up()

    def _up(self):
        f, i = monomial(self.e)
        return Sym(z3.simplify(-((-f.numerator * i) / z3.IntVal(f.denominator))))

    def __round__(self, n=None):
        if self.e.is_int() and (n is None or n >= 0): return self
        p = z3.RealVal(10 ** (n or 0)) if (n or 0) >= 0 else z3.RealVal(1) / z3.RealVal(10 ** -n)
        c = core.ctx()
        k = c.fresh("rounded", z3.IntSort())
        r = _real(self.e) * p                   # a tie: the even neighbour
        c.add(z3.And(2 * (z3.ToReal(k) - r) <= 1, 2 * (r - z3.ToReal(k)) <= 1,
                     z3.Implies(z3.Or(2 * (z3.ToReal(k) - r) == 1, 2 * (r - z3.ToReal(k)) == 1), k % 2 == 0)))
        return Sym(k) if n is None else Sym(z3.simplify(z3.ToReal(k) / p))

    def to_real(self):
        return Sym(_real(self.e))

    def __str__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return str(v.as_long())
        return core.ctx().token(v, "i" if self.e.is_int() else "r")

    def __repr__(self):
        return str(self)

    def __format__(self, spec):
        if spec in ("", "d", "s"): return str(self)
        c = core.ctx()
        m = re.fullmatch(r"\.(\d+)f", spec)
        if m and int(m.group(1)) <= 12:         # rounded to so many digits (a tie: either neighbour)
            p = 10 ** int(m.group(1))
            k = c.fresh("fmt", z3.IntSort())
            r = _real(self.e) * p
            c.add(z3.And(2 * (z3.ToReal(k) - r) <= 1, 2 * (r - z3.ToReal(k)) <= 1))
            return c.token(z3.ToReal(k) / z3.RealVal(p), "r")
        return c.token(c.fresh("fmt", z3.RealSort()), "r")      # some number: nothing is known of it

    def bit_length(self):
        raise Unsupported("bit_length")


def _real(e):
    return z3.ToReal(e) if e.is_int() else e


def _nonzero(o):
    if isinstance(o, Sym):
        if core.ctx().branch(o.e == 0):
            raise ZeroDivisionError("division by zero")
    elif o == 0:
        raise ZeroDivisionError("division by zero")


_POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(c, n):
    t = _POW2(n)
    c.add(z3.Implies(n >= 0, t >= 1))
    c.add(z3.Implies(n == 0, t == 1))
    c.add(z3.Implies(n >= 1, t == 2 * _POW2(n - 1)))
    c.add(z3.Implies(n >= 1, _POW2(n - 1) >= 1))
    return t


# --------------------------------------------------------------------------- time

def td_us(x):
    """microseconds of a (real or symbolic) timedelta, as int or z3"""
    if type(x) is SymTimedelta:
        return x.us
    if isinstance(x, _dt.timedelta):
        return (x.days * 86400 + x.seconds) * 10**6 + x.microseconds
    raise TypeError(f"not a timedelta: {type(x)}")


def dt_us(x):
    if type(x) is SymDatetime:
        return x.us
    if isinstance(x, _dt.datetime):
        if x.tzinfo is None:
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        d = x - EPOCH
        return td_us(d)
    raise TypeError(f"not a datetime: {type(x)}")


def _is_td(x): return type(x) is SymTimedelta or isinstance(x, _dt.timedelta)
def _is_dt(x): return type(x) is SymDatetime or isinstance(x, _dt.datetime)


TD_MAX = 999999999 * 86400 * 10**6 + 86400 * 10**6 - 1


class SymTimedelta:
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us  # z3 Int

    @property
    def __class__(self):
        return _dt.timedelta

    def total_seconds(self):
        return Sym(z3.ToReal(self.us) / z3.RealVal(10**6))

    @property
    def days(self): return Sym(z3.simplify(self.us / z3.IntVal(86400 * 10**6)))
    @property
    def seconds(self): return Sym(z3.simplify((self.us % z3.IntVal(86400 * 10**6)) / z3.IntVal(10**6)))
    @property
    def microseconds(self): return Sym(z3.simplify(self.us % z3.IntVal(10**6)))

    def __add__(self, o):
        if _is_td(o): return SymTimedelta(z3.simplify(self.us + td_us(o)))
        if _is_dt(o): return SymDatetime(z3.simplify(self.us + dt_us(o)))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return SymTimedelta(z3.simplify(self.us - td_us(o))) if _is_td(o) else NotImplemented

    def __rsub__(self, o):
        if _is_td(o): return SymTimedelta(z3.simplify(td_us(o) - self.us))
        if _is_dt(o): return SymDatetime(z3.simplify(dt_us(o) - self.us))
        return NotImplemented

    def __neg__(self): return SymTimedelta(-self.us)

    def __mul__(self, o):
        if type(o) is Sym and o.e.is_int() or type(o) is int:
            us = z3.simplify(self.us * unwrap(o))
            if core.ctx().branch(z3.Or(us > TD_MAX, us < -TD_MAX)):
                raise OverflowError("Python int too large to convert to C int")
            return SymTimedelta(us)
        if type(o) in (Sym, float):
            return SymTimedelta(_round(z3.ToReal(self.us) * unwrap(o)))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_num(o):
            _nonzero(o)
            return SymTimedelta(_round(z3.ToReal(self.us) / _real(unwrap(o))))
        if _is_td(o):
            d = td_us(o)
            return Sym(z3.ToReal(self.us) / (z3.ToReal(d) if not isinstance(d, int) else z3.RealVal(d)))
        return NotImplemented

    def __lt__(self, o): return SymBool(self.us < td_us(o)) if _is_td(o) else NotImplemented
    def __le__(self, o): return SymBool(self.us <= td_us(o)) if _is_td(o) else NotImplemented
    def __gt__(self, o): return SymBool(self.us > td_us(o)) if _is_td(o) else NotImplemented
    def __ge__(self, o): return SymBool(self.us >= td_us(o)) if _is_td(o) else NotImplemented
    def __eq__(self, o): return SymBool(self.us == td_us(o)) if _is_td(o) else False
    def __ne__(self, o): return SymBool(self.us != td_us(o)) if _is_td(o) else True
    __hash__ = None

    def __bool__(self):
        return core.ctx().branch(self.us != 0)

    def __str__(self):
        return core.ctx().token(self.us, "t")

    __repr__ = __str__


def _round(r):
    """timedelta arithmetic rounds to the nearest microsecond (ties: to even; modelled as an
    arbitrary one of the two neighbours at a tie)"""
    c = core.ctx()
    k = c.fresh("round", z3.IntSort())
    c.add(z3.And(2 * (z3.ToReal(k) - r) <= 1, 2 * (r - z3.ToReal(k)) <= 1))
    return k


class SymDatetime:
    """A timezone-aware instant: microseconds since the epoch; the zone is carried along."""

    __slots__ = ("us", "tzinfo")

    def __init__(self, us, zone=_dt.timezone.utc):
        self.us, self.tzinfo = us, zone

    @property
    def __class__(self):
        return _dt.datetime

    def timestamp(self):
        return Sym(z3.ToReal(self.us) / z3.RealVal(10**6))

    def isoformat(self, *a, **k):
        return core.ctx().token(self.us, "d")

    def astimezone(self, tz=None):
        return SymDatetime(self.us, tz or _dt.timezone.utc)

    def __add__(self, o):
        return SymDatetime(z3.simplify(self.us + td_us(o)), self.tzinfo) if _is_td(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if _is_td(o): return SymDatetime(z3.simplify(self.us - td_us(o)), self.tzinfo)
        if _is_dt(o): return SymTimedelta(z3.simplify(self.us - dt_us(o)))
        return NotImplemented

    def __rsub__(self, o):
        return SymTimedelta(z3.simplify(dt_us(o) - self.us)) if _is_dt(o) else NotImplemented

    def __lt__(self, o): return SymBool(self.us < dt_us(o)) if _is_dt(o) else NotImplemented
    def __le__(self, o): return SymBool(self.us <= dt_us(o)) if _is_dt(o) else NotImplemented
    def __gt__(self, o): return SymBool(self.us > dt_us(o)) if _is_dt(o) else NotImplemented
    def __ge__(self, o): return SymBool(self.us >= dt_us(o)) if _is_dt(o) else NotImplemented
    def __eq__(self, o): return SymBool(self.us == dt_us(o)) if _is_dt(o) else False
    def __ne__(self, o): return SymBool(self.us != dt_us(o)) if _is_dt(o) else True
    __hash__ = None

    def __str__(self):
        return self.isoformat()

    __repr__ = __str__
    def __format__(self, spec): return self.isoformat()


# --------------------------------------------------------------------- strings <-> numbers

def text(x) -> str:
    return x.decode("utf-8", "surrogateescape") if isinstance(x, (bytes, bytearray)) else x


def parse_num(s):
    """Parse text (possibly one token) as a number; None when it is not one."""
    s = text(s)
    m = TOKEN.fullmatch(s.strip())
    if m:
        e = core.ctx().tokens[m.group(0)]
        if m.group(1) in "ir":
            return Sym(e)
        return None
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return None


def str_eq(a, b):
    """Equality of two texts that may contain tokens: bool or SymBool."""
    if a is None or b is None or a is False or b is False:
        return a is b
    a, b = text(a), text(b)
    if a == b:
        return True
    if "@@" not in a and "@@" not in b:
        return False
    pa, pb = TOKEN.split(a), TOKEN.split(b)
    la, lb = pa[0::3], pb[0::3]
    ta = list(zip(pa[1::3], pa[2::3]))
    tb = list(zip(pb[1::3], pb[2::3]))
    c = core.ctx()
    if la == lb:
        conj = []
        for (ka, na), (kb, nb) in zip(ta, tb):
            ea, eb = c.tokens[f"@@{ka}{na}@@"], c.tokens[f"@@{kb}{nb}@@"]
            if ka != kb and not {ka, kb} <= {"i", "r"}:
                return False
            ea, eb = _coerce(ea, eb)
            conj.append(ea == eb)
        return SymBool(z3.And(*conj))
    # one token against a literal number
    for x, y, tx in ((a, b, ta), (b, a, tb)):
        if TOKEN.fullmatch(x) and "@@" not in y:
            v = parse_num(y)
            if v is None:
                return False
            return Sym(c.tokens[x]) == v
    if ("@@" in a) != ("@@" in b):
        # token-bearing text vs literal with a different skeleton
        lit = b if "@@" in a else a
        sk = TOKEN.split(a if "@@" in a else b)[0::3]
        pat = "(-?[0-9.:T+-]+)".join(re.escape(p) for p in sk)
        if re.fullmatch(pat, lit):
            raise Unsupported(f"comparing {a!r} with {b!r}")
        return False
    if la[0][:4] != lb[0][:4] and (la[0] and lb[0]) and not (la[0].startswith(lb[0]) or lb[0].startswith(la[0])):
        return False
    if len(la) != len(lb) or la != lb:
        # same number of tokens but different literal parts: different texts (assumed: digits
        # of a number never make up for different separators)
        return False
    raise Unsupported(f"comparing {a!r} with {b!r}")
