"""Axiomatic model of the Redis commands docket uses (trusted; cross-checked against the
burner_redis server by the concrete runs of every harness).

All texts are ``str`` (bytes decoded with surrogateescape) and may contain tokens standing
for symbolic numbers.  A command is one atomic step.
"""
from __future__ import annotations

from . import core
from .core import Unsupported
from .sym import Sym, is_num, parse_num, str_eq, text, unwrap


class RedisError(Exception):
    pass


class Hash(dict):
    pass


class ZSet(dict):       # member -> score
    rest = None         # further members, any number of them (see Rest)


class Rest:
    """Any number of further sorted-set members with integer scores, known only through
    count(x): how many of them have a score of at most x."""

    def __init__(self, name="rest"):
        import z3
        self.C = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.N = z3.Int(name + "_n")
        core.ctx().add(self.N >= 0)
        self.xs: list = []
        self.floor = None           # everything up to here has been removed

    @staticmethod
    def whole(x):
        import z3
        x = x.e if type(x) is Sym else z3.IntVal(x) if type(x) is int else x
        if not z3.is_expr(x): raise Unsupported("score bound")
        if not x.is_int():
            x = z3.ToInt(x)         # as many integers are <= x as are <= floor(x)
        return z3.simplify(x)

    def count(self, x):
        import z3
        c, x = core.ctx(), self.whole(x)
        k = self.C(x)
        if not any(x.eq(y) for y in self.xs):
            c.add(z3.And(k >= 0, k <= self.N))
            for y in self.xs:
                c.add(z3.Implies(x <= y, k <= self.C(y)))
                c.add(z3.Implies(y <= x, self.C(y) <= k))
            self.xs.append(x)
        return k

    def above(self, x):
        """how many have a score greater than x"""
        import z3
        return Sym(z3.simplify(self.N - self.count(x)))

    def size(self):
        return Sym(self.N) if self.floor is None else self.above(Sym(self.floor))

    def remove_upto(self, hi):
        import z3
        before, hi = self.size(), self.whole(hi)
        self.floor = hi if self.floor is None else z3.simplify(z3.If(hi >= self.floor, hi, self.floor))
        return before - self.size()

    def least(self, floor=None):
        """the least score above the floor, given that there is one"""
        import z3
        c = core.ctx()
        floor = self.floor if floor is None else self.whole(floor)
        m = c.fresh("least", z3.IntSort())
        base = self.count(floor) if floor is not None else z3.IntVal(0)
        if floor is not None: c.add(m > floor)
        c.add(z3.And(self.count(m) > base, self.count(m - 1) == base))
        return Sym(m)


class Live:
    """Any number of further sorted-set members, all with a score above ``bound``."""

    def __init__(self, n, bound):
        self.n, self.bound = n, bound

    def size(self): return self.n

    def below(self, hi):
        """none of them has a score of at most hi"""
        cond = hi <= self.bound
        return cond is True or type(cond) is not bool and not core.ctx()._sat(__import__("z3").Not(cond.e))


class SetV(dict):       # member -> True
    pass


class Str:
    def __init__(self, v): self.v = v


class Stream:
    def __init__(self):
        self.entries: list[tuple[str, list[str]]] = []      # id -> flat fields
        self.groups: dict[str, Group] = {}
        self.last = 0


class Group:
    def __init__(self):
        self.last = 0                        # last delivered sequence
        self.pel: dict[str, dict] = {}       # id -> {consumer, idle(ms), count}
        self.consumers: set[str] = set()


def seq(i: str) -> int:
    return int(i.split("-")[0])


def t(x) -> str:
    if isinstance(x, (bytes, bytearray)):
        return x.decode("utf-8", "surrogateescape")
    if type(x) is str:
        return x
    if type(x) is bool:
        return "1" if x else "0"
    return str(x)


def num(x):
    if is_num(x):
        return x
    s = t(x)
    if s in ("+inf", "inf"):
        return float("inf")
    if s == "-inf":
        return float("-inf")
    v = parse_num(s)
    if v is None:
        raise RedisError("ERR value is not a valid float")
    return v


def same(a, b) -> bool:
    return bool(str_eq(a, b))


class Data(dict):
    """the keys of the server; remembers which ones a command looked at"""
    touched: set | None = None

    def _note(self, k):
        if self.touched is not None: self.touched.add(k)

    def get(self, k, d=None):
        self._note(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self._note(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self._note(k)
        return dict.__contains__(self, k)

    def __setitem__(self, k, v):
        self._note(k)
        dict.__setitem__(self, k, v)

    def pop(self, k, *d):
        self._note(k)
        return dict.pop(self, k, *d)


class Store:
    def __init__(self):
        self.data: dict[str, object] = Data()
        self.ttl: dict[str, object] = {}         # ms, counted from the command that set it
        self.ttl_at: dict[str, int] = {}         # which command that was
        self.commands = 0
        self.published: list[tuple[str, str]] = []
        self.reads: set[str] = set()
        self.writes: set[str] = set()
        self.n = 0

    # ---- helpers -------------------------------------------------------
    def get(self, key, kind):
        v = self.data.get(key)
        if v is not None and not isinstance(v, kind):
            raise RedisError("WRONGTYPE Operation against a key holding the wrong kind of value")
        return v

    def need(self, key, kind):
        v = self.get(key, kind)
        if v is None:
            v = self.data[key] = kind()
        return v

    def drop(self, key):
        self.ttl.pop(key, None)
        return self.data.pop(key, None) is not None

    def gc(self, key):
        v = self.data.get(key)
        if isinstance(v, (Hash, ZSet, SetV)) and not v:
            if isinstance(v, ZSet) and v.rest is not None and v.rest.size() > 0: return
            self.drop(key)

    @staticmethod
    def find(mapping, member):
        """the stored member equal to ``member`` (tokens compared semantically)"""
        if member in mapping:
            return member
        if any("@@" in m for m in mapping) or "@@" in member:
            for m in mapping:
                if same(m, member):
                    return m
        return None

    @staticmethod
    def ordered(z: "ZSet"):
        if z.rest is not None and type(z.rest) is not Live: raise Unsupported("listing an unknown number of members")
        out: list[tuple[str, object]] = []
        for m, s in z.items():
            i = 0
            while i < len(out):
                ms, ss = out[i]
                if type(s) is not Sym and type(ss) is not Sym:
                    before = (s, m) < (ss, ms)
                elif s < ss:
                    before = True
                elif s == ss:
                    before = m < ms
                else:
                    before = False
                if before:
                    break
                i += 1
            out.insert(i, (m, s))
        return out

    @staticmethod
    def bound(b):
        b = b if is_num(b) else t(b)
        if isinstance(b, str) and b.startswith("("):
            return num(b[1:]), True
        return num(b), False

    def between(self, z, lo, hi):
        (lo, xlo), (hi, xhi) = self.bound(lo), self.bound(hi)
        if z.rest is not None and not (type(z.rest) is Live and z.rest.below(hi)):
            raise Unsupported("listing an unknown number of members")
        out = []
        for m, s in self.ordered(z):
            if (s > lo if xlo else s >= lo) and (s < hi if xhi else s <= hi):
                out.append((m, s))
        return out

    # ---- dispatch ------------------------------------------------------
    def cmd(self, name, *a):
        f = getattr(self, "c_" + name.lower(), None)
        if f is None:
            raise Unsupported(f"redis command {name}")
        self.commands += 1
        if a:
            self.reads.add(t(a[0]))
        return f(*a)

    # ---- keys
    def c_del(self, *keys): return sum(self.drop(t(k)) for k in keys)
    c_unlink = c_del
    def c_exists(self, *keys): return sum(t(k) in self.data for k in keys)

    def c_type(self, k):
        return {Hash: "hash", ZSet: "zset", SetV: "set", Str: "string", Stream: "stream",
                type(None): "none"}[type(self.data.get(t(k)))]

    def c_expire(self, k, s):
        return self.c_pexpire(k, num(s) * 1000)

    def c_pexpire(self, k, ms):
        k, ms = t(k), num(ms)
        if k not in self.data:
            return 0
        if ms <= 0:
            self.drop(k)
        else:
            self.ttl[k], self.ttl_at[k] = ms, self.commands
        return 1

    def c_persist(self, k):
        return 1 if self.ttl.pop(t(k), None) is not None else 0

    def c_pttl(self, k):
        k = t(k)
        return -2 if k not in self.data else self.ttl.get(k, -1)

    def c_ttl(self, k):
        v = self.c_pttl(k)
        return v if v == -1 or v == -2 else (v / 1000 if type(v) is Sym else v // 1000)

    # ---- strings
    def c_get(self, k):
        v = self.get(t(k), Str)
        return v.v if v else None

    def c_set(self, k, v, *opts):
        k = t(k)
        opts = [t(o) if isinstance(o, (str, bytes)) else o for o in opts]
        i, nx, xx, ttl, get, at = 0, False, False, None, False, self.commands
        while i < len(opts):
            o = str(opts[i]).upper()
            if o == "NX": nx = True
            elif o == "XX": xx = True
            elif o == "GET": get = True
            elif o == "EX": ttl = num(opts[i + 1]) * 1000; i += 1
            elif o == "PX": ttl = num(opts[i + 1]); i += 1
            elif o == "KEEPTTL": ttl, at = self.ttl.get(k), self.ttl_at.get(k)
            else: raise Unsupported(f"SET {o}")
            i += 1
        if ttl is not None and ttl <= 0:
            raise RedisError("ERR invalid expire time in 'set' command")
        if (nx and k in self.data) or (xx and k not in self.data):
            return None
        self.drop(k)
        self.data[k] = Str(t(v))
        if ttl is not None:
            self.ttl[k], self.ttl_at[k] = ttl, at
        return Ok

    def c_setnx(self, k, v):
        return 1 if self.c_set(k, v, "NX") is Ok else 0

    def c_setex(self, k, s, v): return self.c_set(k, v, "EX", s)
    def c_psetex(self, k, ms, v): return self.c_set(k, v, "PX", ms)

    def c_incrby(self, k, n=1):
        k = t(k)
        v = self.get(k, Str)
        x = (num(v.v) if v else 0) + num(n)
        if v: v.v = t(x)
        else: self.data[k] = Str(t(x))
        return x

    def c_incr(self, k): return self.c_incrby(k, 1)
    def c_decr(self, k): return self.c_incrby(k, -1)
    def c_mget(self, *ks): return [self.c_get(k) for k in ks]

    # ---- hashes
    def c_hset(self, k, *fv):
        if len(fv) % 2 or not fv:
            raise RedisError("ERR wrong number of arguments for 'hset' command")
        h = self.need(t(k), Hash)
        new = 0
        for f, v in zip(fv[::2], fv[1::2]):
            new += t(f) not in h
            h[t(f)] = t(v)
        return new

    def c_hmset(self, k, *fv):
        self.c_hset(k, *fv)
        return Ok

    def c_hsetnx(self, k, f, v):
        h = self.get(t(k), Hash)
        if h and t(f) in h:
            return 0
        self.c_hset(k, f, v)
        return 1

    def c_hget(self, k, f):
        h = self.get(t(k), Hash)
        return h.get(t(f)) if h else None

    def c_hmget(self, k, *fs): return [self.c_hget(k, f) for f in fs]

    def c_hgetall(self, k):
        h = self.get(t(k), Hash) or {}
        return [x for fv in h.items() for x in fv]

    def c_hkeys(self, k): return list(self.get(t(k), Hash) or {})
    def c_hvals(self, k): return list((self.get(t(k), Hash) or {}).values())
    def c_hlen(self, k): return len(self.get(t(k), Hash) or {})

    def c_hexists(self, k, f):
        h = self.get(t(k), Hash)
        return 1 if h and t(f) in h else 0

    def c_hdel(self, k, *fs):
        h = self.get(t(k), Hash)
        if not h:
            return 0
        n = sum(h.pop(t(f), None) is not None for f in fs)
        self.gc(t(k))
        return n

    def c_hincrby(self, k, f, n):
        h = self.need(t(k), Hash)
        old = h.get(t(f), "0")
        v = parse_num(old)
        if v is None or type(v) is float:
            raise RedisError("ERR hash value is not an integer")
        v = v + num(n)
        h[t(f)] = t(v)
        return v

    # ---- sets
    def c_sadd(self, k, *ms):
        s = self.need(t(k), SetV)
        n = 0
        for m in ms:
            n += t(m) not in s
            s[t(m)] = True
        return n

    def c_srem(self, k, *ms):
        s = self.get(t(k), SetV)
        if not s: return 0
        n = sum(s.pop(t(m), None) is not None for m in ms)
        self.gc(t(k))
        return n

    def c_smembers(self, k): return list(self.get(t(k), SetV) or {})
    def c_scard(self, k): return len(self.get(t(k), SetV) or {})
    def c_sismember(self, k, m): return 1 if t(m) in (self.get(t(k), SetV) or {}) else 0

    # ---- sorted sets
    def c_zadd(self, k, *a):
        a = list(a)
        nx = xx = gt = lt = False
        while a and isinstance(a[0], (str, bytes)) and t(a[0]).upper() in ("NX", "XX", "GT", "LT", "CH"):
            o = t(a.pop(0)).upper()
            nx, xx, gt, lt = nx or o == "NX", xx or o == "XX", gt or o == "GT", lt or o == "LT"
        if len(a) % 2 or not a:
            raise RedisError("ERR syntax error")
        z = self.need(t(k), ZSet)
        new = 0
        for s, m in zip(a[::2], a[1::2]):
            s, m = num(s), t(m)
            old = self.find(z, m)
            if old is None:
                if xx: continue
                z[m] = s
                new += 1
            else:
                if nx: continue
                if gt and not s > z[old]: continue
                if lt and not s < z[old]: continue
                z[old] = s
        self.gc(t(k))
        return new

    def c_zrem(self, k, *ms):
        z = self.get(t(k), ZSet)
        if not z: return 0
        n = 0
        for m in ms:
            f = self.find(z, t(m))
            if f is not None:
                del z[f]
                n += 1
        self.gc(t(k))
        return n

    def c_zcard(self, k):
        z = self.get(t(k), ZSet)
        if z is None: return 0
        return len(z) + z.rest.size() if z.rest is not None else len(z)

    def c_zscore(self, k, m):
        z = self.get(t(k), ZSet)
        if not z: return None
        f = self.find(z, t(m))
        return None if f is None else t(z[f])

    def _emit(self, pairs, withscores):
        return [x for m, s in pairs for x in ((m, t(s)) if withscores else (m,))]

    def c_zrangebyscore(self, k, lo, hi, *opts, rev=False):
        z = self.get(t(k), ZSet) or ZSet()
        pairs = self.between(z, lo, hi)
        if rev: pairs = pairs[::-1]
        opts = [t(o) for o in opts]
        ws = False
        i = 0
        while i < len(opts):
            o = opts[i].upper()
            if o == "WITHSCORES": ws = True
            elif o == "LIMIT":
                off, cnt = int(opts[i + 1]), int(opts[i + 2])
                pairs = pairs[off:] if cnt < 0 else pairs[off:off + cnt]
                i += 2
            else: raise Unsupported(f"ZRANGEBYSCORE {o}")
            i += 1
        return self._emit(pairs, ws)

    def c_zrevrangebyscore(self, k, hi, lo, *opts): return self.c_zrangebyscore(k, lo, hi, *opts, rev=True)

    def c_zrange(self, k, a, b, *opts):
        opts = [t(o).upper() for o in opts]
        if "BYSCORE" in opts:
            rest = [o for o in opts if o not in ("BYSCORE", "REV")]
            if "REV" in opts: return self.c_zrangebyscore(k, b, a, *rest, rev=True)
            return self.c_zrangebyscore(k, a, b, *rest)
        z = self.get(t(k), ZSet)
        if z is None: z = ZSet()
        if type(z.rest) is Live: raise Unsupported("ZRANGE over an unknown number of members")
        rest, z.rest = z.rest, None
        try: pairs = self.ordered(z)
        finally: z.rest = rest
        a, b = int(t(a)), int(t(b))
        if rest is not None:
            if (a, b) != (0, 0) or "REV" in opts: raise Unsupported("ZRANGE over an unknown number of members")
            if rest.size() > 0:
                m = rest.least()
                if not pairs or m < pairs[0][1]: pairs = [("@another", m)]
        if "REV" in opts: pairs = pairs[::-1]
        n = len(pairs)
        a = max(a + n, 0) if a < 0 else a
        b = b + n if b < 0 else b
        return self._emit(pairs[a:b + 1], "WITHSCORES" in opts)

    def c_zrevrange(self, k, a, b, *opts): return self.c_zrange(k, a, b, "REV", *opts)

    def c_zcount(self, k, lo, hi):
        z = self.get(t(k), ZSet)
        if z is not None and type(z.rest) is Live: return len(self.between(z, lo, hi))
        if z is not None and z.rest is not None:
            (lo, xlo), (hi, xhi) = self.bound(lo), self.bound(hi)
            if type(hi) is not float or hi != float("inf"): raise Unsupported("ZCOUNT up to a bound")
            if type(lo) is float and lo == float("-inf"): return len(z) + z.rest.size()
            n = sum(1 for m, s in z.items() if (s > lo if xlo else s >= lo))
            if not xlo: lo = lo - 1
            if z.rest.floor is not None and Sym(z.rest.floor) > lo: lo = Sym(z.rest.floor)
            return n + z.rest.above(lo)
        return len(self.between(self.get(t(k), ZSet) or ZSet(), lo, hi))

    def c_zremrangebyscore(self, k, lo, hi):
        z = self.get(t(k), ZSet)
        if z is None: return 0
        rest, extra = z.rest, 0
        if type(rest) is Live: self.between(z, lo, hi)
        elif rest is not None:
            (l, _), (h, xh) = self.bound(lo), self.bound(hi)
            if type(l) is not float or l != float("-inf") or type(h) is float: raise Unsupported("ZREMRANGEBYSCORE from a bound")
            if xh and type(h) is Sym and not h.e.is_int(): raise Unsupported("fractional exclusive bound")
            extra = rest.remove_upto(h - 1 if xh else h)
            z.rest = None
        out = self.between(z, lo, hi)
        for m, _ in out:
            del z[m]
        z.rest = rest
        self.gc(t(k))
        return len(out) + extra

    def c_zremrangebyrank(self, k, a, b):
        ms = self.c_zrange(k, a, b)
        return self.c_zrem(k, *ms) if ms else 0

    def c_zincrby(self, k, n, m):
        z = self.need(t(k), ZSet)
        f = self.find(z, t(m)) or t(m)
        z[f] = z.get(f, 0) + num(n)
        return t(z[f])

    # ---- streams
    def c_xadd(self, k, *a):
        a = list(a)
        mk, maxlen = True, None
        while True:
            o = t(a[0]).upper()
            if o == "NOMKSTREAM": mk = False; a.pop(0)
            elif o == "MAXLEN":
                a.pop(0)
                if t(a[0]) in ("~", "="): a.pop(0)
                maxlen = int(t(a.pop(0)))
            else: break
        ident, fields = t(a[0]), [t(x) for x in a[1:]]
        if not fields or len(fields) % 2:
            raise RedisError("ERR wrong number of arguments for 'xadd' command")
        if not mk and t(k) not in self.data:
            return None
        s = self.need(t(k), Stream)
        if ident == "*":
            self.n = max(self.n, s.last) + 1
            ident = f"{self.n}-0"
        elif seq(ident) <= s.last:
            raise RedisError("ERR The ID specified in XADD is equal or smaller than the target stream top item")
        s.last = seq(ident)
        s.entries.append((ident, fields))
        if maxlen is not None:
            del s.entries[:max(0, len(s.entries) - maxlen)]
        return ident

    def c_xlen(self, k):
        s = self.get(t(k), Stream)
        return len(s.entries) if s else 0

    def c_xdel(self, k, *ids):
        s = self.get(t(k), Stream)
        if not s: return 0
        ids = {t(i) for i in ids}
        for i in ids:
            if not i or not i.split("-")[0].isdigit():
                raise RedisError("ERR Invalid stream ID specified as stream command argument")
        n = len(s.entries)
        s.entries = [e for e in s.entries if e[0] not in ids]
        return n - len(s.entries)

    def c_xack(self, k, g, *ids):
        s = self.get(t(k), Stream)
        if not s or t(g) not in s.groups: return 0
        for i in ids:
            if not t(i) or not t(i).split("-")[0].isdigit():
                raise RedisError("ERR Invalid stream ID specified as stream command argument")
        return sum(s.groups[t(g)].pel.pop(t(i), None) is not None for i in ids)

    def c_xtrim(self, k, *a):
        s = self.get(t(k), Stream)
        a = [t(x) for x in a if t(x) not in ("~", "=")]
        if a[0].upper() != "MAXLEN": raise Unsupported("XTRIM " + a[0])
        if not s: return 0
        cut = max(0, len(s.entries) - int(a[1]))
        del s.entries[:cut]
        return cut

    def _range(self, k, lo, hi, rev=False, count=None):
        s = self.get(t(k), Stream)
        out = []
        lo, hi = t(lo), t(hi)
        xlo, xhi = lo.startswith("("), hi.startswith("(")
        lo, hi = lo.lstrip("("), hi.lstrip("(")
        a = 0 if lo == "-" else seq(lo) + xlo
        b = 10**18 if hi == "+" else seq(hi) - xhi
        entries = s.entries if s else []
        for i, f in (reversed(entries) if rev else entries):
            if count is not None and out and type(count) is Sym and not (count > len(out)):
                break
            if count is not None and (not (count > len(out))):
                break
            if a <= seq(i) <= b:
                out.append([i, list(f)])
        return out

    def c_xrange(self, k, lo, hi, *opts):
        count = num(opts[1]) if opts else None
        if count is not None and count < 0:
            count = None       # Redis: a negative COUNT is no limit
        elif count is not None and count == 0:
            return []
        return self._range(k, lo, hi, False, count)

    def c_xrevrange(self, k, hi, lo, *opts):
        return self._range(k, lo, hi, True, num(opts[1]) if opts else None)

    def c_xgroup(self, sub, k, g, ident, *opts):
        if t(sub).upper() != "CREATE": raise Unsupported("XGROUP " + t(sub))
        if t(k) not in self.data and not any(t(o).upper() == "MKSTREAM" for o in opts):
            raise RedisError("ERR The XGROUP subcommand requires the key to exist")
        s = self.need(t(k), Stream)
        if t(g) in s.groups:
            raise RedisError("BUSYGROUP Consumer Group name already exists")
        s.groups[t(g)] = Group()
        s.groups[t(g)].last = s.last if t(ident) == "$" else (seq(t(ident)))
        return Ok

    def group(self, k, g):
        s = self.get(t(k), Stream)
        if not s or t(g) not in s.groups:
            raise RedisError(f"NOGROUP No such key '{t(k)}' or consumer group '{t(g)}'")
        return s, s.groups[t(g)]

    def readgroup(self, k, g, consumer, count):
        s, gr = self.group(k, g)
        gr.consumers.add(t(consumer))
        out = []
        for i, f in s.entries:
            if seq(i) > gr.last:
                if count is not None and not (count > len(out)):
                    break
                gr.last = seq(i)
                gr.pel[i] = {"consumer": t(consumer), "idle": 0, "count": 1}
                out.append([i, list(f)])
        return out

    def autoclaim(self, k, g, consumer, min_idle, start, count):
        s, gr = self.group(k, g)
        ents = dict(s.entries)
        out, dead = [], []
        for i in sorted(gr.pel, key=seq):
            p = gr.pel[i]
            if not (count is None or count > len(out)):
                break
            if seq(i) < seq(t(start)) or not (p["idle"] >= min_idle):
                continue
            if i not in ents:
                dead.append(i)
                continue
            p.update(consumer=t(consumer), idle=0, count=p["count"] + 1)
            out.append([i, list(ents[i])])
        for i in dead:
            del gr.pel[i]
        return ["0-0", out, dead]

    def claim(self, k, g, consumer, min_idle, ids, idle=0):
        s, gr = self.group(k, g)
        ents = dict(s.entries)
        out = []
        for i in ids:
            i = t(i)
            p = gr.pel.get(i)
            if p is None or not (p["idle"] >= min_idle):
                continue
            if i not in ents:
                del gr.pel[i]
                continue
            p.update(consumer=t(consumer), idle=idle, count=p["count"] + 1)
            out.append([i, list(ents[i])])
        return out

    def pending(self, k, g, count=None):
        s, gr = self.group(k, g)
        return [(i, gr.pel[i]) for i in sorted(gr.pel, key=seq)][:count]

    # ---- pub/sub
    def c_publish(self, ch, payload):
        self.published.append((t(ch), t(payload)))
        return 1

    def c_time(self):
        raise Unsupported("TIME")


class _Ok:
    def __repr__(self): return "OK"


Ok = _Ok()
