"""A Lua 5.1 interpreter (the subset Redis scripts use) over concrete and symbolic values.

The script text is taken from the real ``@redis_script`` wrapper on every run (preamble
generated by /repo's own code included); nothing is transcribed by hand.
"""
from __future__ import annotations

import re
from functools import lru_cache

from . import core
from .core import Unsupported
from .sym import Sym, SymBool, parse_num, str_eq

TOK = re.compile(r"""
  (?P<ws>\s+|--\[(?P<ceq>=*)\[.*?\](?P=ceq)\]|--[^\n]*)
 |(?P<num>0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)
 |(?P<name>[A-Za-z_]\w*)
 |(?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
 |(?P<lstr>\[(?P<leq>=*)\[.*?\](?P=leq)\])
 |(?P<op>\.\.\.|\.\.|==|~=|<=|>=|::|[-+*/%^\#<>=(){}\[\];:,.])
""", re.X | re.S)
KW = {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "if", "in",
      "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}


class LuaError(Exception):
    pass


def _unescape(s):
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch != "\\":
            out.append(ch); i += 1; continue
        i += 1
        ch = s[i]
        m = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "a": "\a",
             "b": "\b", "f": "\f", "v": "\v", "\n": "\n"}
        if ch in m:
            out.append(m[ch]); i += 1
        elif ch.isdigit():
            j = i
            while j < len(s) and j < i + 3 and s[j].isdigit():
                j += 1
            out.append(chr(int(s[i:j]))); i = j
        else:
            out.append(ch); i += 1
    return "".join(out)


def tokenize(src):
    pos, toks = 0, []
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise LuaError(f"syntax error near {src[pos:pos+20]!r}")
        pos = m.end()
        k = m.lastgroup
        if m.group("ws") is not None:
            continue
        line = src.count("\n", 0, m.start()) + 1
        if m.group("num") is not None:
            t = m.group("num")
            toks.append(("num", int(t, 16) if t[:2] in ("0x", "0X") else (int(t) if t.isdigit() else float(t)), line))
        elif m.group("name") is not None:
            t = m.group("name")
            toks.append(("kw" if t in KW else "name", t, line))
        elif m.group("str") is not None:
            toks.append(("str", _unescape(m.group("str")[1:-1]), line))
        elif m.group("lstr") is not None:
            n = len(m.group("leq")) + 2
            t = m.group("lstr")[n:-n]
            toks.append(("str", t[1:] if t.startswith("\n") else t, line))
        else:
            toks.append(("op", m.group("op"), line))
    toks.append(("eof", None, 0))
    return toks


class Parser:
    PREC = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3),
            "~=": (3, 3), "==": (3, 3), "..": (9, 8), "+": (10, 10), "-": (10, 10),
            "*": (11, 11), "/": (11, 11), "%": (11, 11), "^": (14, 13)}

    def __init__(self, src):
        self.t = tokenize(src)
        self.i = 0

    def peek(self): return self.t[self.i]
    def at(self, v): return self.t[self.i][0] in ("op", "kw") and self.t[self.i][1] == v

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise LuaError(f"expected {v!r} near {self.peek()}")

    def name(self):
        k, v, _ = self.next()
        if k != "name":
            raise LuaError(f"expected name, got {v!r}")
        return v

    def block(self, *ends):
        body = []
        while True:
            k, v, line = self.peek()
            if k == "eof" or (k == "kw" and v in ends):
                return body
            if self.accept(";"):
                continue
            if k == "kw" and v == "return":
                self.next()
                exprs = []
                if not (self.peek()[0] == "eof" or self.at("end") or self.at("else") or self.at("elseif") or self.at("until") or self.at(";")):
                    exprs = self.exprlist()
                self.accept(";")
                body.append(("return", exprs, line))
                return body
            body.append(self.statement())

    def statement(self):
        k, v, line = self.peek()
        if k == "kw":
            if v == "if":
                self.next()
                clauses, orelse = [], None
                c = self.expr(); self.expect("then")
                clauses.append((c, self.block("elseif", "else", "end")))
                while True:
                    if self.accept("elseif"):
                        c = self.expr(); self.expect("then")
                        clauses.append((c, self.block("elseif", "else", "end")))
                    elif self.accept("else"):
                        orelse = self.block("end"); self.expect("end"); break
                    else:
                        self.expect("end"); break
                return ("if", clauses, orelse)
            if v == "while":
                self.next(); c = self.expr(); self.expect("do")
                b = self.block("end"); self.expect("end")
                return ("while", c, b)
            if v == "repeat":
                self.next(); b = self.block("until"); self.expect("until")
                return ("repeat", b, self.expr())
            if v == "do":
                self.next(); b = self.block("end"); self.expect("end")
                return ("do", b)
            if v == "for":
                self.next()
                names = [self.name()]
                if self.accept("="):
                    a = self.expr(); self.expect(","); b = self.expr()
                    s = self.expr() if self.accept(",") else ("num", 1)
                    self.expect("do"); body = self.block("end"); self.expect("end")
                    return ("fornum", names[0], a, b, s, body)
                while self.accept(","):
                    names.append(self.name())
                self.expect("in"); ex = self.exprlist(); self.expect("do")
                body = self.block("end"); self.expect("end")
                return ("forin", names, ex, body)
            if v == "local":
                self.next()
                if self.accept("function"):
                    n = self.name()
                    return ("localfn", n, self.funcbody())
                names = [self.name()]
                while self.accept(","):
                    names.append(self.name())
                ex = self.exprlist() if self.accept("=") else []
                return ("local", names, ex)
            if v == "function":
                self.next(); n = self.name()
                return ("assign", [("var", n)], [self.funcbody()])
            if v == "break":
                self.next()
                return ("break",)
        e = self.suffixed()
        if self.at("=") or self.at(","):
            targets = [e]
            while self.accept(","):
                targets.append(self.suffixed())
            self.expect("=")
            return ("assign", targets, self.exprlist())
        if e[0] not in ("call", "method"):
            raise LuaError(f"unexpected expression statement near line {line}")
        return ("callstat", e)

    def funcbody(self):
        self.expect("(")
        params = []
        while not self.at(")"):
            if self.accept("..."):
                params.append("...")
            else:
                params.append(self.name())
            if not self.accept(","):
                break
        self.expect(")")
        b = self.block("end"); self.expect("end")
        return ("function", params, b)

    def exprlist(self):
        out = [self.expr()]
        while self.accept(","):
            out.append(self.expr())
        return out

    def primary(self):
        k, v, line = self.next()
        if k == "name":
            return ("var", v)
        if (k, v) == ("op", "("):
            e = self.expr(); self.expect(")")
            return ("paren", e)
        raise LuaError(f"unexpected {v!r} at line {line}")

    def suffixed(self):
        e = self.primary()
        while True:
            if self.accept("."):
                e = ("index", e, ("str", self.name()))
            elif self.accept("["):
                i = self.expr(); self.expect("]")
                e = ("index", e, i)
            elif self.accept(":"):
                n = self.name()
                e = ("method", e, n, self.args())
            elif self.at("(") or self.at("{") or self.peek()[0] == "str":
                e = ("call", e, self.args())
            else:
                return e

    def args(self):
        if self.peek()[0] == "str":
            return [("str", self.next()[1])]
        if self.at("{"):
            return [self.table()]
        self.expect("(")
        a = [] if self.at(")") else self.exprlist()
        self.expect(")")
        return a

    def table(self):
        self.expect("{")
        items = []
        while not self.at("}"):
            if self.accept("["):
                k = self.expr(); self.expect("]"); self.expect("=")
                items.append((k, self.expr()))
            elif self.peek()[0] == "name" and self.t[self.i + 1][:2] == ("op", "="):
                k = ("str", self.name()); self.expect("=")
                items.append((k, self.expr()))
            else:
                items.append((None, self.expr()))
            if not (self.accept(",") or self.accept(";")):
                break
        self.expect("}")
        return ("table", items)

    def expr(self, limit=0):
        k, v, line = self.peek()
        if (k, v) in (("kw", "not"), ("op", "-"), ("op", "#")):
            self.next()
            e = ("unop", v, self.expr(12))
        elif k == "num":
            self.next(); e = ("num", v)
        elif k == "str":
            self.next(); e = ("str", v)
        elif k == "kw" and v in ("nil", "true", "false"):
            self.next(); e = ("const", {"nil": None, "true": True, "false": False}[v])
        elif k == "kw" and v == "function":
            self.next(); e = self.funcbody()
        elif (k, v) == ("op", "{"):
            e = self.table()
        elif (k, v) == ("op", "..."):
            self.next(); e = ("vararg",)
        else:
            e = self.suffixed()
        while True:
            k, v, _ = self.peek()
            if k not in ("op", "kw") or v not in self.PREC or self.PREC[v][0] <= limit:
                return e
            self.next()
            e = ("binop", v, e, self.expr(self.PREC[v][1]))


@lru_cache(maxsize=None)
def parse(src):
    p = Parser(src)
    b = p.block()
    if p.peek()[0] != "eof":
        raise LuaError(f"unexpected {p.peek()}")
    return b


class Table:
    __slots__ = ("arr", "hash")

    def __init__(self, arr=None):
        self.arr = list(arr) if arr is not None else []
        self.hash = {}

    def get(self, k):
        if type(k) is float and k.is_integer():
            k = int(k)
        if type(k) is int:
            if 1 <= k <= len(self.arr):
                return self.arr[k - 1]
            return self.hash.get(k)
        if type(k) is Sym:
            raise Unsupported("table index is symbolic")
        return self.hash.get(k)

    def set(self, k, v):
        if type(k) is float and k.is_integer():
            k = int(k)
        if k is None:
            raise LuaError("table index is nil")
        if type(k) is Sym:
            raise Unsupported("table index is symbolic")
        if type(k) is int:
            n = len(self.arr)
            if 1 <= k <= n:
                if v is None and k == n:
                    self.arr.pop()
                else:
                    self.arr[k - 1] = v
                return
            if k == n + 1 and v is not None:
                self.arr.append(v)
                while (x := self.hash.pop(len(self.arr) + 1, None)) is not None:
                    self.arr.append(x)
                return
        if v is None:
            self.hash.pop(k, None)
        else:
            self.hash[k] = v


class Env:
    __slots__ = ("vars", "up")

    def __init__(self, up=None):
        self.vars = {}
        self.up = up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.up
        return None


class _Break(Exception): pass


class _Return(Exception):
    def __init__(self, vals): self.vals = vals


class Function:
    def __init__(self, interp, params, body, env):
        self.interp, self.params, self.body, self.env = interp, params, body, env

    def __call__(self, *args):
        e = Env(self.env)
        va = []
        for i, p in enumerate(self.params):
            if p == "...":
                va = list(args[i:])
            else:
                e.vars[p] = args[i] if i < len(args) else None
        e.vars["..."] = va
        try:
            self.interp.block(self.body, e)
        except _Return as r:
            return r.vals
        return []


def truthy(v):
    return v is not None and v is not False and (bool(v) if type(v) is SymBool else True)


def tostring(v):
    if v is None: return "nil"
    if v is True: return "true"
    if v is False: return "false"
    if type(v) is SymBool: return "true" if bool(v) else "false"
    if isinstance(v, str): return v
    if type(v) is Sym: return str(v)
    if type(v) is int: return str(v)
    if type(v) is float:
        return str(int(v)) if v.is_integer() and abs(v) < 1e15 else repr(v)
    return f"table: {id(v):x}"


def tonumber(v, base=None):
    if base not in (None, 10):
        try: return int(v, base)
        except (ValueError, TypeError): return None
    if type(v) in (int, float, Sym): return v
    if isinstance(v, str): return parse_num(v)
    return None


def arith_operand(v):
    n = tonumber(v) if isinstance(v, str) else v
    if type(n) in (int, float, Sym):
        return n
    raise LuaError(f"attempt to perform arithmetic on a {ltype(v)} value")


def ltype(v):
    if v is None: return "nil"
    if type(v) in (bool, SymBool): return "boolean"
    if isinstance(v, str): return "string"
    if type(v) in (int, float, Sym): return "number"
    if isinstance(v, Table): return "table"
    return "function"


def equal(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(a, b)
    ta, tb = ltype(a), ltype(b)
    if ta != tb:
        return False
    if ta == "table" or ta == "function":
        return a is b
    return a == b


_MAGIC = set("^$()%.[]*+-?")


def _pattern(p):
    out, i = [], 0
    cls = {"a": "A-Za-z", "d": "0-9", "s": r"\s", "w": "A-Za-z0-9", "l": "a-z", "u": "A-Z", "x": "0-9A-Fa-f"}
    while i < len(p):
        ch = p[i]
        if ch == "%":
            i += 1
            n = p[i]
            if n in cls: out.append(f"[{cls[n]}]")
            elif n.lower() in cls: out.append(f"[^{cls[n.lower()]}]")
            else: out.append(re.escape(n))
        elif ch == "[":
            j = p.index("]", i + 2)
            out.append("[" + p[i + 1:j].replace("\\", "\\\\").replace("%", "\\") + "]"); i = j
        elif ch == "-": out.append("*?")
        elif ch in "^$()*+?.": out.append(ch)
        else: out.append(re.escape(ch))
        i += 1
    return re.compile("".join(out), re.S)


class Interp:
    """Runs one script. ``call(name, args)`` performs a Redis command and returns a Lua value."""

    MAX_STEPS = 200_000

    def __init__(self, call, loop_hook=None):
        self.call = call
        self.loop_hook = loop_hook
        self.steps = 0
        self.globals = Env()
        g = self.globals.vars
        R = Table(); S = Table(); T = Table(); M = Table()
        g["redis"], g["string"], g["table"], g["math"] = R, S, T, M
        R.hash["call"] = lambda *a: [self.redis_call(a)]
        R.hash["pcall"] = lambda *a: [self.redis_call(a)]
        R.hash["sha1hex"] = self._unsupported("redis.sha1hex")
        g["tonumber"] = lambda v=None, b=None: [tonumber(v, b)]
        g["tostring"] = lambda v=None: [tostring(v)]
        g["type"] = lambda v=None: [ltype(v)]
        g["ipairs"] = lambda t: [("ipairs", self._tab(t, "ipairs"))]
        g["pairs"] = lambda t: [("pairs", self._tab(t, "pairs"))]
        unpack = lambda t, i=1, j=None: [t.get(k) for k in range(i, (len(t.arr) if j is None else j) + 1)]
        g["unpack"] = unpack
        g["error"] = self._error
        g["assert"] = lambda v=None, m=None, *a: [v] if truthy(v) else self._error(m or "assertion failed!")
        g["select"] = lambda n, *a: [len(a)] if n == "#" else list(a[int(n) - 1:])
        T.hash["insert"] = self._insert
        T.hash["remove"] = self._remove
        T.hash["concat"] = lambda t, sep="", i=1, j=None: [sep.join(tostring(x) for x in unpack(t, i, j))]
        T.hash["unpack"] = unpack
        M.hash["floor"] = lambda x: [self._floor(x)]
        M.hash["ceil"] = lambda x: [-self._floor(-x)]
        M.hash["max"] = lambda *a: [self._ext(a, True)]
        M.hash["min"] = lambda *a: [self._ext(a, False)]
        M.hash["abs"] = lambda x: [abs(x)]
        M.hash["huge"] = float("inf")
        S.hash.update({
            "gsub": self._gsub, "format": self._format, "len": lambda s: [len(s)],
            "lower": lambda s: [s.lower()], "upper": lambda s: [s.upper()],
            "sub": lambda s, i=1, j=-1: [self._sub(s, i, j)],
            "rep": lambda s, n: [s * n], "find": self._find, "match": self._match,
            "byte": self._unsupported("string.byte"), "char": self._unsupported("string.char"),
        })

    # -- library ------------------------------------------------------------
    def _unsupported(self, what):
        def f(*a): raise Unsupported(what)
        return f

    def _tab(self, t, f):
        if not isinstance(t, Table):
            raise LuaError(f"bad argument #1 to '{f}' (table expected, got {ltype(t)})")
        return t

    def _error(self, m=None, *a):
        raise LuaError(tostring(m))

    def _insert(self, t, a, b=None):
        if b is None: t.set(len(t.arr) + 1, a)
        else: t.arr.insert(a - 1, b)
        return []

    def _remove(self, t, i=None):
        if not t.arr: return [None]
        return [t.arr.pop() if i is None else t.arr.pop(i - 1)]

    def _floor(self, x):
        import math
        x = arith_operand(x)
        if type(x) is Sym:
            import z3
            return x if x.e.is_int() else Sym(z3.ToInt(x.e))
        return math.floor(x)

    def _ext(self, a, biggest):
        m = a[0]
        for x in a[1:]:
            if truthy(x > m if biggest else x < m):
                m = x
        return m

    def _sub(self, s, i, j):
        n = len(s)
        i = max(n + i + 1, 1) if i < 0 else max(i, 1)
        j = n + j + 1 if j < 0 else min(j, n)
        return s[i - 1:j]

    def _plain(self, s):
        if "@@" in s: raise Unsupported("string library on a symbolic string")
        return s

    def _gsub(self, s, pat, rep, n=None):
        s = tostring(s)
        if "@@" in s:
            if set(pat) & set("0123456789.-+T:@idrt"):
                raise Unsupported("gsub on symbolic text")
        if isinstance(rep, str):
            r = rep.replace("%%", "%")
            f = lambda m: r if "%" not in rep else r
            if re.search(r"%\d", rep):
                f = lambda m: re.sub(r"%(\d)", lambda q: m.group(int(q.group(1))), rep)
        elif isinstance(rep, Table):
            f = lambda m: rep.get(m.group(m.lastindex or 0)) or m.group(0)
        else:
            f = lambda m: tostring(rep(m.group(m.lastindex or 0))[0])
        out, k = _pattern(pat).subn(f, s, count=n or 0)
        return [out, k]

    def _find(self, s, pat, init=1, plain=None):
        s = self._plain(s)
        m = (re.compile(re.escape(pat)) if truthy(plain) else _pattern(pat)).search(s, init - 1)
        return [m.start() + 1, m.end()] if m else [None]

    def _match(self, s, pat, init=1):
        m = _pattern(pat).search(self._plain(s), init - 1)
        if not m: return [None]
        return list(m.groups()) or [m.group(0)]

    def _format(self, f, *a):
        a = list(a)
        def sub(m):
            if m.group(0) == "%%": return "%"
            v = a.pop(0)
            if type(v) is Sym: return str(v)
            if m.group(0)[-1] == "d": return str(int(arith_operand(v)))
            if m.group(0)[-1] == "s": return tostring(v)
            return m.group(0) % arith_operand(v)
        return [re.sub(r"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%]", sub, f)]

    def redis_call(self, a):
        args = []
        for x in a:
            if isinstance(x, str): args.append(x)
            elif type(x) in (int, float, Sym):
                args.append(tostring(x))
            else:
                raise LuaError("Lua redis() command arguments must be strings or integers")
        return self.call(args[0].upper(), args[1:])

    # -- execution -------------------------------------------------------------
    def run(self, src, keys, argv):
        g = self.globals.vars
        g["KEYS"], g["ARGV"] = Table(keys), Table(argv)
        env = Env(self.globals)
        env.vars["..."] = []
        try:
            self.block(parse(src), env)
        except _Return as r:
            return r.vals[0] if r.vals else None
        return None

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("script ran too long")
        k = st[0]
        if k == "local":
            vals = self.exprs(st[2], env, len(st[1]))
            for n, v in zip(st[1], vals):
                env.vars[n] = v
        elif k == "assign":
            vals = self.exprs(st[2], env, len(st[1]))
            for t, v in zip(st[1], vals):
                self.assign(t, v, env)
        elif k == "callstat":
            self.multi(st[1], env)
        elif k == "if":
            for c, b in st[1]:
                if truthy(self.ev(c, env)):
                    self.block(b, Env(env))
                    return
            if st[2] is not None:
                self.block(st[2], Env(env))
        elif k == "return":
            raise _Return(self.exprs(st[1], env, None))
        elif k == "fornum":
            a, b, s = (arith_operand(self.ev(x, env)) for x in st[2:5])
            i = a
            if type(s) is Sym:
                raise Unsupported("symbolic loop step")
            while truthy(i <= b if s > 0 else i >= b):
                self.steps += 1
                if self.steps > self.MAX_STEPS or (type(b) is Sym and self.steps > 5000):
                    raise Unsupported("loop bound not found")
                e = Env(env); e.vars[st[1]] = i
                try: self.block(st[5], e)
                except _Break: break
                i = i + s
        elif k == "forin":
            it = self.exprs(st[2], env, 1)[0]
            if not isinstance(it, tuple):
                raise Unsupported("generic for over an iterator function")
            kind, t = it
            if kind == "ipairs":
                i = 1
                while (v := t.get(i)) is not None:
                    e = Env(env)
                    for n, x in zip(st[1], [i, v] + [None] * len(st[1])):
                        e.vars[n] = x
                    if self.loop_hook: self.loop_hook("begin", v)
                    try: self.block(st[3], e)
                    except _Break: break
                    finally:
                        if self.loop_hook: self.loop_hook("end", v)
                    i += 1
            else:
                items = [(i + 1, v) for i, v in enumerate(t.arr)] + list(t.hash.items())
                for a in items:
                    e = Env(env)
                    for n, x in zip(st[1], list(a) + [None] * len(st[1])):
                        e.vars[n] = x
                    try: self.block(st[3], e)
                    except _Break: break
        elif k == "while":
            while truthy(self.ev(st[1], env)):
                self.steps += 1
                if self.steps > 20000: raise Unsupported("while loop bound not found")
                try: self.block(st[2], Env(env))
                except _Break: break
        elif k == "repeat":
            while True:
                e = Env(env)
                self.steps += 1
                if self.steps > 20000: raise Unsupported("repeat loop bound not found")
                try: self.block(st[1], e)
                except _Break: break
                if truthy(self.ev(st[2], e)): break
        elif k == "do":
            self.block(st[1], Env(env))
        elif k == "localfn":
            env.vars[st[1]] = None
            env.vars[st[1]] = Function(self, st[2][1], st[2][2], env)
        elif k == "break":
            raise _Break()
        else:
            raise Unsupported(f"Lua statement {k}")

    def assign(self, t, v, env):
        if t[0] == "var":
            e = env.find(t[1])
            (e if e is not None else self.globals).vars[t[1]] = v
        elif t[0] == "index":
            tab = self.ev(t[1], env)
            if not isinstance(tab, Table):
                raise LuaError(f"attempt to index a {ltype(tab)} value")
            tab.set(self.ev(t[2], env), v)
        else:
            raise LuaError("cannot assign")

    def exprs(self, es, env, n):
        out = []
        for i, e in enumerate(es):
            if i == len(es) - 1 and e[0] in ("call", "method", "vararg"):
                out.extend(self.multi(e, env))
            else:
                out.append(self.ev(e, env))
        if n is not None:
            out = (out + [None] * n)[:n]
        return out

    def multi(self, e, env):
        if e[0] == "vararg":
            return list(env.find("...").vars["..."])
        if e[0] == "call":
            f = self.ev(e[1], env)
            args = self.exprs(e[2], env, None)
        else:
            obj = self.ev(e[1], env)
            if isinstance(obj, str):
                f = self.globals.vars["string"].get(e[2])
            elif isinstance(obj, Table):
                f = obj.get(e[2])
            else:
                raise LuaError(f"attempt to index a {ltype(obj)} value")
            args = [obj] + self.exprs(e[3], env, None)
        if f is None or not callable(f):
            raise LuaError(f"attempt to call a {ltype(f)} value")
        return f(*args)

    def ev(self, e, env):
        k = e[0]
        if k == "var":
            s = env.find(e[1])
            return s.vars[e[1]] if s is not None else None
        if k == "str" or k == "num" or k == "const":
            return e[1]
        if k == "index":
            t = self.ev(e[1], env)
            i = self.ev(e[2], env)
            if isinstance(t, Table):
                return t.get(i)
            if isinstance(t, str):
                return self.globals.vars["string"].get(i)
            raise LuaError(f"attempt to index a {ltype(t)} value (field '{i}')")
        if k in ("call", "method", "vararg"):
            r = self.multi(e, env)
            return r[0] if r else None
        if k == "paren":
            return self.ev(e[1], env)
        if k == "binop":
            op = e[1]
            if op == "and":
                a = self.ev(e[2], env)
                return self.ev(e[3], env) if truthy(a) else (False if type(a) is SymBool else a)
            if op == "or":
                a = self.ev(e[2], env)
                return (True if type(a) is SymBool else a) if truthy(a) else self.ev(e[3], env)
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if op == "==": return equal(a, b)
            if op == "~=":
                r = equal(a, b)
                return ~r if type(r) is SymBool else not r
            if op == "..":
                for x in (a, b):
                    if not (isinstance(x, str) or type(x) in (int, float, Sym)):
                        raise LuaError(f"attempt to concatenate a {ltype(x)} value")
                return tostring(a) + tostring(b)
            if op in ("<", "<=", ">", ">="):
                if ltype(a) != ltype(b) or ltype(a) not in ("number", "string"):
                    raise LuaError(f"attempt to compare {ltype(a)} with {ltype(b)}")
                if isinstance(a, str):
                    self._plain(a + b)
                return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
            a, b = arith_operand(a), arith_operand(b)
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/":
                r = a / b
                return r
            if op == "%": return a % b
            if op == "^": return a ** b
        if k == "unop":
            v = self.ev(e[2], env)
            if e[1] == "not": return not truthy(v)
            if e[1] == "-": return -arith_operand(v)
            if isinstance(v, Table): return len(v.arr)
            if isinstance(v, str): return len(self._plain(v))
            raise LuaError(f"attempt to get length of a {ltype(v)} value")
        if k == "table":
            t = Table()
            for i, (kk, vv) in enumerate(e[1]):
                if kk is None:
                    if i == len(e[1]) - 1 and vv[0] in ("call", "method", "vararg"):
                        t.arr.extend(x for x in self.multi(vv, env))
                    else:
                        v = self.ev(vv, env)
                        t.set(len(t.arr) + 1, v)
                else:
                    t.set(self.ev(kk, env), self.ev(vv, env))
            return t
        if k == "function":
            return Function(self, e[1], e[2], env)
        raise Unsupported(f"Lua expression {k}")
