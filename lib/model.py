"""Reference model of Legacy BASIC: an independent executable specification.

It reads the same program text and the same typed session as the interpreter and
says what must appear on standard output, which errors must be reported and which
files must be written.  Strings are Python str of characters 1..255 (latin-1).
"""
import ctypes
import math
import re

_libm = ctypes.CDLL("libm.so.6")


def _fn(name, n=1):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


c_pow = _fn("pow", 2)
c_sin, c_cos, c_tan, c_atan, c_exp, c_log, c_sqrt, c_floor, c_fabs = (
    _fn(n) for n in "sin cos tan atan exp log sqrt floor fabs".split())

INF = float("inf")
NUM_STACK, STR_STACK, GOSUB_MAX, FOR_MAX = 16, 8, 8, 8
FIELD = 8
MAX_WORD = 127          # longest name, number or string literal
MAX_STRING = 255
MAX_ELEMENTS = 65536
INPUT_BUF = 128
PAGE = 23

KEYWORDS = ("AND CLEAR CLS DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR "
            "PRINT RANDOMIZE READ REM RESTORE RETURN STEP STOP THEN TO").split()
KEYSET = set(KEYWORDS)
# name: (type or None if not implemented, argument types)
BUILTINS = {
    "ABS": ("n", "n"), "ASC": ("n", "s"), "ATN": ("n", "n"), "CHR$": ("s", "n"), "COS": ("n", "n"),
    "EXP": ("n", "n"), "FIX": None, "GET$": None, "HEX$": None, "INKEY$": None, "INT": ("n", "n"),
    "LEFT$": ("s", "sn"), "LEN": ("n", "s"), "LOG": ("n", "n"), "MID$": ("s", "snn"),
    "RIGHT$": ("s", "sn"), "RND": ("n", "d"), "SGN": ("n", "n"), "SIN": ("n", "n"), "SPACE$": None,
    "SQR": ("n", "n"), "STR$": ("s", "n"), "TAN": ("n", "n"), "TIME$": ("s", "d"), "USR": None,
    "VAL": ("n", "s"),
}


class SyntaxErr(Exception):
    """A malformed line: index of the line in the source."""


class RunErr(Exception):
    pass


class Limit(Exception):
    """The model gave up: too many steps or too much output. The case is not judged."""


class Unsure(Exception):
    """The model does not say what must happen here. The case is not judged."""


def fmt(x):
    """%g"""
    if x != x:
        return "-nan" if math.copysign(1, x) < 0 else "nan"
    return "%g" % x


NUMTEXT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def convert(s, i=0):
    """Number text at s[i:]: (value, index after it and its trailing blanks) or None."""
    n = len(s)
    while i < n and s[i] in " \t":
        i += 1
    if i < n and (s[i].isdigit() and s[i].isascii() or s[i] in ".-+"):
        if re.match(r"[+-]?(0[xX]|[iInN])", s[i:]):
            raise Unsure("hex, inf or nan text")
        m = NUMTEXT.match(s, i)
        if m is None:
            x = 0.0
        else:
            x = float(m.group())
            i = m.end()
        while i < n and s[i] in " \t":
            i += 1
        return x, i
    return None


def isalpha(c):
    return c.isascii() and c.isalpha()


def isdigit(c):
    return c.isascii() and c.isdigit()


def isalnum(c):
    return isalpha(c) or isdigit(c)


EOL = "\n"


class Lexer:
    """Tokens: ('id', text) ('num', value) ('str', text) ('kw', NAME) ('op', text) ('eol',) ('err',)"""

    def __init__(self, text, crunch):
        self.t = text
        self.p = 0
        self.crunch = crunch
        self.start = 0
        self.tok = None
        self.next()

    def ch(self):
        if self.p >= len(self.t):
            return EOL
        c = self.t[self.p]
        if ord(c) >= 127:
            raise SyntaxErr
        return c

    def get(self):
        c = self.ch()
        if self.p < len(self.t):
            self.p += 1
        return c

    def keyword_here(self, p):
        for k in KEYWORDS:
            if self.t[p:p + len(k)].upper() == k:
                return k
        return None

    def next(self):
        self.tok = self.scan()
        return self.tok

    def scan(self):
        while True:
            self.start = self.p
            c = self.ch()
            if c in " \t\r":
                self.p += 1
                continue
            break
        t = self.t
        if isalpha(c):
            if self.crunch:
                k = self.keyword_here(self.p)
                if k:
                    self.p += len(k)
                    return ("kw", k)
                q = self.p
                self.p += 1
                while isalnum(self.ch()):
                    if isalpha(self.ch()) and self.keyword_here(self.p):
                        return ("id", t[q:self.p])
                    if self.p - q + 2 >= MAX_WORD + 1:
                        return ("err",)
                    self.p += 1
                if self.ch() == "$":
                    self.p += 1
                return ("id", t[q:self.p])
            q = self.p
            self.p += 1
            while isalnum(self.ch()):
                if self.p - q + 2 >= MAX_WORD + 1:
                    return ("err",)
                self.p += 1
            if self.ch() == "$":
                self.p += 1
            w = t[q:self.p]
            if w.upper() in KEYSET:
                return ("kw", w.upper())
            return ("id", w)
        if isdigit(c) or c == ".":
            q = self.p
            while isdigit(self.ch()):
                self.p += 1
            if self.ch() == ".":
                self.p += 1
                while isdigit(self.ch()):
                    self.p += 1
            if self.ch() in "eE" and not (self.crunch and self.keyword_here(self.p)):
                self.p += 1
                if self.ch() in "+-":
                    self.p += 1
                while isdigit(self.ch()):
                    self.p += 1
            w = t[q:self.p]
            if len(w) > MAX_WORD:
                return ("err",)
            if not NUMTEXT.fullmatch(w):
                return ("err",)
            return ("num", float(w))
        if c == '"':
            self.p += 1
            q = self.p
            while self.ch() not in '"\n':
                self.p += 1
                if self.p - q > MAX_WORD:
                    return ("err",)
            w = t[q:self.p]
            if self.ch() != '"':
                return ("err",)
            self.p += 1
            return ("str", w)
        if c == EOL:
            self.p = min(self.p + 1, len(t)) if self.p < len(t) else self.p
            return ("eol",)
        self.p += 1
        if c == "<" and self.ch() in ">=":
            return ("op", c + self.get())
        if c == ">" and self.ch() == "=":
            return ("op", c + self.get())
        return ("op", c)

    def data(self):
        """One DATA item, from the current position."""
        while self.ch() in " \t" and self.p < len(self.t):
            self.p += 1
        q = self.p
        if self.ch() == '"':
            self.p += 1
            q = self.p
            while self.ch() not in '"\n':
                self.p += 1
                if self.p - q > MAX_WORD:
                    raise SyntaxErr
            if self.ch() != '"':
                raise SyntaxErr
            w = self.t[q:self.p]
            self.p += 1
            return w
        while self.ch() not in '",:\n':
            self.p += 1
            if self.p - q > MAX_WORD:
                raise SyntaxErr
        return self.t[q:self.p].rstrip(" \t\r")

    def discard(self):
        self.p = len(self.t)
        self.tok = ("eol",)


class Sym:
    __slots__ = ("name", "kind", "type", "val", "defined")

    def __init__(self, name, kind, type_):
        self.name = name
        self.kind = kind      # var arr def unk
        self.type = type_     # n s
        self.val = None
        self.defined = False


class Code:
    """ops: flat list of (opcode, ...). where: line number -> op index."""

    def __init__(self, lines):
        self.lines = lines    # [(num, text)]
        self.ops = []
        self.where = {}
        self.has_data = False


class Def:
    def __init__(self, param, expr, lines, line):
        self.param = param
        self.expr = expr
        self.lines = lines    # None in immediate mode
        self.line = line


class Array:
    __slots__ = ("maxs", "cells", "default")

    def __init__(self, maxs, default):
        n = 1
        for m in maxs:
            if m >= MAX_ELEMENTS // n:
                raise ValueError
            n *= m + 1
        self.maxs = maxs
        self.cells = {}
        self.default = default


# ---------------------------------------------------------------- parser

class Parser:
    def __init__(self, names, crunch):
        self.names = names      # (NAME, paren) -> Sym
        self.crunch = crunch
        self.undo = []

    def program(self, lines):
        code = Code(lines)
        self.ops = code.ops
        self.code = code
        self.undo = []
        try:
            for i, (num, text) in enumerate(lines):
                self.bad = i
                code.where[num] = len(code.ops)
                code.ops.append(("LINE", i))
                self.line(text)
        except SyntaxErr as e:
            for f in reversed(self.undo):
                f()
            raise SyntaxErr(self.bad) from e
        # IF without ELSE and the end of a THEN part go to the next line
        end = len(code.ops)
        nextline = end
        for i in range(len(code.ops) - 1, -1, -1):
            op = code.ops[i]
            if op[0] == "LINE":
                nextline = i
            elif op[0] == "ELSE":
                code.ops[i] = ("ELSE", nextline)
            elif op[0] == "IF" and op[2] is None:
                code.ops[i] = ("IF", op[1], nextline)
        return code

    def fail(self):
        raise SyntaxErr

    @property
    def tok(self):
        return self.lx.tok

    def kw(self, name):
        return self.lx.tok == ("kw", name)

    def op(self, s):
        return self.lx.tok == ("op", s)

    def want_kw(self, name):
        if not self.kw(name):
            self.fail()
        self.lx.next()

    def want(self, s):
        if not self.op(s):
            self.fail()
        self.lx.next()

    def eos(self):
        return self.tok[0] == "eol" or self.op(":") or self.kw("ELSE")

    def line(self, text):
        self.lx = Lexer(text, self.crunch)
        self.pending = None          # index of the IF awaiting an ELSE
        self.goto_if = False
        self.complete()
        while self.op(":"):
            self.lx.next()
            self.complete()
        if self.tok[0] != "eol":
            self.fail()

    def complete(self):
        while self.statement():
            pass

    def emit(self, *op):
        self.ops.append(op)
        return len(self.ops) - 1

    def statement(self):
        k, *v = self.tok
        cont = False
        self.goto_if = False
        if k == "kw":
            m = getattr(self, "st_" + v[0].lower(), None)
            if m is None:
                self.fail()
            cont = m()
        elif k == "id":
            self.assignment()
        elif self.op("?"):
            self.st_print()
        elif k == "eol" or self.op(":"):
            pass
        else:
            self.fail()
        if self.kw("ELSE"):
            cont = self.else_clause()
        return bool(cont)

    def else_clause(self):
        if self.goto_if:
            self.goto_if = False
            self.lx.next()
            self.emit("GOTO", self.lineno())
            return False
        if self.pending is None:
            self.fail()
        self.lx.next()
        self.emit("ELSE", None)
        i = self.pending
        self.ops[i] = ("IF", self.ops[i][1], len(self.ops))
        self.pending = None
        return True

    def st_if(self):
        self.lx.next()
        e = self.numeric()
        self.want_kw("THEN")
        if self.tok[0] == "num":
            n = self.lineno()
            self.emit("GOTRUE", e, n)
            if not self.kw("ELSE"):
                self.emit("ELSE", None)
            else:
                self.goto_if = True
            self.pending = None
            return False
        self.pending = self.emit("IF", e, None)
        return True

    def lineno(self):
        if self.tok[0] != "num":
            self.fail()
        x = self.tok[1]
        if not (0 < x <= 65535 and x == int(x)):
            self.fail()
        self.lx.next()
        return int(x)

    def st_clear(self):
        self.lx.next()
        self.emit("CLEAR")

    def st_cls(self):
        self.lx.next()
        self.emit("CLS")

    def st_data(self):
        self.code.has_data = True
        self.emit("DATA", self.lx.data())
        while self.lx.next() == ("op", ","):
            self.emit("DATA", self.lx.data())

    def st_read(self):
        self.lx.next()
        while True:
            self.emit("READ", self.lvalue())
            if not self.op(","):
                break
            self.lx.next()

    def st_restore(self):
        self.lx.next()
        self.emit("RESTORE", self.lineno() if self.tok[0] == "num" else None)

    def st_def(self):
        if self.lx.next()[0] != "id":
            self.fail()
        name = self.tok[1]
        if name.upper() in BUILTINS:
            self.fail()
        sym = self.names.get((name.upper(), True))
        if sym is None:
            sym = self.new_sym(name, True, "def")
        elif sym.kind == "unk":
            self.set_kind(sym, "def")
        elif sym.kind != "def":
            self.fail()
        self.lx.next()
        i = self.emit("DEF", sym)
        self.want("(")
        p = self.numvar()
        self.want(")")
        self.want("=")
        e = self.string() if sym.type == "s" else self.numeric()
        self.ops[i] = ("DEF", sym, p, e)

    def st_dim(self):
        self.lx.next()
        while True:
            sym, subs = self.ident("arr")
            if not subs:
                self.fail()
            self.emit("DIM", sym, subs)
            if not self.op(","):
                break
            self.lx.next()

    def st_end(self):
        self.lx.next()
        self.emit("END")

    def st_for(self):
        self.lx.next()
        v = self.numvar()
        self.want("=")
        e = self.numeric()
        self.want_kw("TO")
        e = e + self.numeric()
        if self.kw("STEP"):
            self.lx.next()
            e = e + self.numeric()
        else:
            e = e + [("num", 1.0)]
        self.emit("FOR", v, e)

    def st_next(self):
        self.lx.next()
        if self.tok[0] != "id":
            self.emit("NEXT", None)
            return
        while True:
            self.emit("NEXT", self.numvar())
            if not self.op(","):
                break
            self.lx.next()

    def st_goto(self):
        self.lx.next()
        self.emit("GOTO", self.lineno())

    def st_gosub(self):
        self.lx.next()
        self.emit("GOSUB", self.lineno())

    def st_on(self):
        self.lx.next()
        e = self.numeric()
        if not (self.kw("GOTO") or self.kw("GOSUB")):
            self.fail()
        sub = self.kw("GOSUB")
        ls = []
        while True:
            self.lx.next()
            ls.append(self.lineno())
            if not self.op(","):
                break
        self.emit("ON", e, sub, ls)

    def st_return(self):
        self.lx.next()
        self.emit("RETURN")

    def st_stop(self):
        self.lx.next()
        self.emit("STOP")

    def st_rem(self):
        self.lx.discard()

    def st_randomize(self):
        self.lx.next()
        self.emit("SEED", None if self.eos() else self.numeric())

    def st_let(self):
        self.lx.next()
        self.assignment()

    def assignment(self):
        sym, subs = self.ident("arr")
        self.want("=")
        t, e = self.expr()
        if t != sym.type:
            self.fail()
        self.emit("LET", sym, subs, e)

    def prompt(self):
        s = None
        if self.tok[0] == "str":
            s = self.tok[1]
            self.lx.next()
            if self.op(";") or self.op(","):
                self.lx.next()
        return s

    def lvalue(self):
        return self.ident("arr")

    def st_input(self):
        self.lx.next()
        i = self.emit("INPUT", self.prompt())
        self.emit("ITEM", self.lvalue(), i)
        while self.op(","):
            self.lx.next()
            self.emit("ISEP", i)
            self.emit("ITEM", self.lvalue(), i)
        self.emit("IEND")

    def st_line(self):
        self.lx.next()
        self.want_kw("INPUT")
        self.emit("INPUT", self.prompt())
        sym, subs = self.lvalue()
        if sym.type != "s":
            self.fail()
        self.emit("LINEITEM", (sym, subs))

    def st_print(self):
        self.lx.next()
        newline = True
        while not self.eos():
            newline = True
            if self.tok[0] == "id" and self.tok[1].upper() in ("SPC", "TAB"):
                what = self.tok[1].upper()
                self.lx.next()
                self.want("(")
                e = self.numeric()
                self.want(")")
                self.emit("P" + what, e)
            elif self.op(";"):
                self.lx.next()
                newline = False
            elif self.op(","):
                self.lx.next()
                self.emit("PCOMMA")
                newline = False
            else:
                t, e = self.expr()
                self.emit("PNUM" if t == "n" else "PSTR", e)
        if newline:
            self.emit("PLN")

    # expressions: lists of postfix items

    def numeric(self):
        t, e = self.expr()
        if t != "n":
            self.fail()
        return e

    def string(self):
        t, e = self.expr()
        if t != "s":
            self.fail()
        return e

    def numvar(self):
        sym, subs = self.ident("unk")
        if sym.kind != "var" or sym.type != "n":
            self.fail()
        return sym

    def new_sym(self, name, paren, kind):
        key = (name.upper(), paren)
        sym = Sym(name, kind, "s" if name.endswith("$") else "n")
        self.names[key] = sym
        self.undo.append(lambda: self.names.pop(key))
        return sym

    def set_kind(self, sym, kind):
        old = sym.kind
        sym.kind = kind
        self.undo.append(lambda: setattr(sym, "kind", old))

    def ident(self, kind):
        """A variable or an element: (symbol, [subscript code])"""
        if self.tok[0] != "id":
            self.fail()
        name = self.tok[1]
        self.lx.next()
        subs = []
        if self.op("("):
            while True:
                self.lx.next()
                subs.append(self.numeric())
                if len(subs) > 2:
                    self.fail()
                if not self.op(","):
                    break
            self.want(")")
        if name.upper() in BUILTINS:
            self.fail()
        sym = self.names.get((name.upper(), bool(subs)))
        if sym is None:
            sym = self.new_sym(name, bool(subs), kind if subs else "var")
        elif subs:
            if sym.kind == "unk":
                self.set_kind(sym, kind)
            elif kind != "unk" and sym.kind != kind:
                self.fail()
        return sym, subs

    def expr(self):
        t, e = self.e_and()
        while self.kw("OR"):
            self.lx.next()
            t2, e2 = self.e_and()
            self.both(t, t2)
            e = e + e2 + [("or",)]
        return t, e

    def both(self, t1, t2):
        if t1 != "n" or t2 != "n":
            self.fail()

    def e_and(self):
        t, e = self.e_not()
        while self.kw("AND"):
            self.lx.next()
            t2, e2 = self.e_not()
            self.both(t, t2)
            e = e + e2 + [("and",)]
        return t, e

    def e_not(self):
        n = 0
        while self.kw("NOT"):
            n += 1
            self.lx.next()
        t, e = self.e_rel()
        if n and t != "n":
            self.fail()
        return t, e + [("not",)] * n

    def e_rel(self):
        t, e = self.e_add()
        if self.tok[0] == "op" and self.tok[1] in ("=", "<", ">", "<>", "<=", ">="):
            o = self.tok[1]
            self.lx.next()
            t2, e2 = self.e_add()
            if t != t2:
                self.fail()
            return "n", e + e2 + [("s" + o if t == "s" else o,)]
        return t, e

    def e_add(self):
        t, e = self.e_mul()
        while self.op("+") or (t == "n" and self.op("-")):
            o = self.tok[1]
            self.lx.next()
            t2, e2 = self.e_mul()
            if t != t2:
                self.fail()
            e = e + e2 + [("cat",) if t == "s" else (o,)]
        return t, e

    def e_mul(self):
        t, e = self.e_neg()
        while self.op("*") or self.op("/"):
            o = self.tok[1]
            self.lx.next()
            t2, e2 = self.e_neg()
            self.both(t, t2)
            e = e + e2 + [(o,)]
        return t, e

    def e_neg(self):
        n = 0
        while self.op("-"):
            n += 1
            self.lx.next()
        t, e = self.e_pow()
        if n and t != "n":
            self.fail()
        return t, e + [("neg",)] * (n % 2)

    def e_pow(self):
        t, e = self.primary()
        if t == "n" and self.op("^"):
            self.lx.next()
            t2, e2 = self.e_pow()
            self.both(t, t2)
            e = e + e2 + [("^",)]
        return t, e

    def primary(self):
        k = self.tok[0]
        if k == "num":
            e = [("num", self.tok[1])]
            self.lx.next()
            return "n", e
        if k == "str":
            e = [("str", self.tok[1])]
            self.lx.next()
            return "s", e
        if k == "id":
            name = self.tok[1].upper()
            if name in BUILTINS:
                b = BUILTINS[name]
                if b is None:
                    self.fail()
                self.lx.next()
                e = []
                if b[1] == "d":
                    if self.op("("):
                        self.lx.next()
                        if not self.op(")"):
                            t, e = self.expr()
                            e = e + [("drop" + t,)]
                        self.want(")")
                else:
                    sep = "("
                    for a in b[1]:
                        self.want(sep)
                        e = e + (self.numeric() if a == "n" else self.string())
                        sep = ","
                    self.want(")")
                return b[0], e + [("fn", name)]
            sym, subs = self.ident("unk")
            if subs:
                e = [x for s in subs for x in s]
                return sym.type, e + [("paren", sym, len(subs))]
            return sym.type, [("var", sym)]
        if self.op("("):
            self.lx.next()
            t, e = self.expr()
            self.want(")")
            return t, e
        self.fail()


# ---------------------------------------------------------------- random numbers

class Rand:
    """glibc rand()"""

    def __init__(self, seed=1):
        self.seed(seed)

    def seed(self, seed):
        if seed == 0:
            seed = 1
        if seed >= 1 << 31:
            seed -= 1 << 32
        r = [seed]
        w = seed
        for _ in range(30):
            hi = int(w / 127773)
            lo = w - hi * 127773
            w = 16807 * lo - 2836 * hi
            if w < 0:
                w += 2147483647
            r.append(w)
        r = [x & 0xffffffff for x in r]
        self.r = r
        self.f, self.b = 3, 0
        for _ in range(310):
            self.rand()

    def rand(self):
        r = self.r
        v = (r[self.f] + r[self.b]) & 0xffffffff
        r[self.f] = v
        self.f = (self.f + 1) % 31
        self.b = (self.b + 1) % 31
        return v >> 1

    def rnd(self):
        while True:
            x = self.rand() / 2147483647.0
            if x < 1:
                return x


# ---------------------------------------------------------------- machine

class State:
    __slots__ = ("code", "line", "pc")

    def __init__(self, code=None, line=0, pc=0):
        self.code, self.line, self.pc = code, line, pc

    def copy(self):
        return State(self.code, self.line, self.pc)


class Machine:
    def __init__(self, stdin="", crunch=False, trace=False, max_ops=60000, max_out=200000):
        self.crunch = crunch
        self.trace = trace
        self.out = []
        self.outlen = 0
        self.err = []            # ('run', line text) ('syntax', line text) ('io', text)
        self.stdin = stdin
        self.inpos = 0
        self.eof = False
        self.max_ops = max_ops
        self.max_out = max_out
        self.ops_done = 0
        self.nan = False
        self.lines_run = []
        self.source = None       # list of (num, text) or None
        self.prog = None         # compiled
        self.imm = None
        self.names = {}
        self.ns = []
        self.ss = []
        self.rand = Rand()
        self.col = 1
        self.state = State()
        self.stats = {}
        self.fn = None
        self.stopped = False
        self.stopped_at = None
        self.ret = []
        self.fors = []
        self.pdata = 0
        self.idata = 0
        self.buf = ""
        self.bp = 0

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    # ---- output and input

    def write(self, s):
        self.out.append(s)
        self.outlen += len(s)
        if self.outlen > self.max_out:
            raise Limit("output")

    def fgets(self, size):
        """fgets(): None at end of input"""
        s = self.stdin
        if self.inpos >= len(s):
            self.eof = True
            return None
        j = s.find("\n", self.inpos)
        end = len(s) if j < 0 else j + 1
        if end > self.inpos + size - 1:
            end = self.inpos + size - 1
        elif j < 0:
            self.eof = True
        r = s[self.inpos:end]
        self.inpos = end
        return r

    def skip_line(self):
        j = self.stdin.find("\n", self.inpos)
        if j < 0:
            self.inpos = len(self.stdin)
            self.eof = True
        else:
            self.inpos = j + 1

    # ---- program maintenance

    def changed(self):
        self.prog = None

    def clear_names(self):
        self.names.clear()

    def clear_values(self):
        for s in self.names.values():
            s.val = None
            s.defined = False

    def reset_control(self):
        self.ns.clear()
        self.ss.clear()
        self.state = State()
        self.fn = None
        self.stopped_at = None
        self.ret = []
        self.fors = []
        self.col = 1
        self.pdata = self.idata = 0

    def compile(self):
        """True if the stored program is compiled now"""
        if self.source is not None and self.prog is None:
            self.clear_names()
            try:
                self.prog = Parser(self.names, self.crunch).program(list(self.source))
            except SyntaxErr as e:
                num, text = self.source[e.args[0]]
                self.err.append(("syntax", "%d %s" % (num, text)))
                self.clear_names()
                self.count("syntax error")
                return False
            self.reset_control()
        return True

    def run_program(self):
        if self.source is None:
            return
        if self.compile():
            self.reset_control()
            self.state = State(self.prog, 0, 0)
            self.run()

    def immediate(self, text):
        self.imm = None
        if not self.compile():
            return
        try:
            self.imm = Parser(self.names, False).program([(0, text)])
        except SyntaxErr:
            self.err.append(("syntax", text))
            self.count("syntax error")
            return
        self.idata = 0
        self.state = State(self.imm, 0, 0)
        self.run()
        if any(s.code is not self.prog for s in self.ret) or any(f[0].code is not self.prog for f in self.fors):
            self.reset_control()

    def cont(self):
        if self.stopped_at is None or self.prog is None or self.stopped_at.code is not self.prog:
            return False
        self.state = self.stopped_at.copy()
        self.buf, self.bp = self.stopped_input
        self.run()
        return True

    # ---- execution

    def line_text(self, lines, i):
        return "%d %s" % lines[i]

    def run(self):
        self.stopped = False
        err = False
        try:
            while self.state.pc < len(self.state.code.ops) and not self.stopped:
                self.step()
        except RunErr:
            err = True
            st = self.state
            if self.fn:
                d, saved = self.fn
                where = None if d.lines is None else self.line_text(d.lines, d.line)
                self.restore_param()
            else:
                where = self.line_text(st.code.lines, st.line)
            self.err.append(("run", where))
            self.count("runtime error")
            self.ns.clear()
            self.ss.clear()
        if self.stopped:
            self.write(self.line_text(self.state.code.lines, self.state.line) + "\nStopped\n")
            self.count("stop")
        if self.state.code is self.prog and self.prog is not None:
            self.stopped_at = self.state.copy() if self.stopped else None
            self.stopped_input = self.buf, self.bp
        return not err

    def step(self):
        self.ops_done += 1
        if self.ops_done > self.max_ops:
            raise Limit("steps")
        st = self.state
        op = st.code.ops[st.pc]
        self.stats[op[0]] = self.stats.get(op[0], 0) + 1
        getattr(self, "x_" + op[0])(st, op)

    def fail(self, why):
        self.count("E:" + why)
        raise RunErr(why)

    def goto(self, n):
        if self.prog is None or n not in self.prog.where:
            self.fail("no line")
        st = self.state
        st.code = self.prog
        st.pc = self.prog.where[n]

    def x_LINE(self, st, op):
        st.line = op[1]
        if len(self.lines_run) < 5000:
            self.lines_run.append(st.code.lines[op[1]][0])
        if self.trace:
            self.write("[%d]" % st.code.lines[op[1]][0])
        st.pc += 1

    def x_CLEAR(self, st, op):
        self.clear_values()
        st.pc += 1

    def x_CLS(self, st, op):
        raise Unsure("CLS")

    def x_DATA(self, st, op):
        st.pc += 1

    def x_LET(self, st, op):
        _, sym, subs, e = op
        for s in subs:
            self.eval(s)
        self.eval(e)
        self.assign(sym, len(subs), self.ns.pop() if sym.type == "n" else self.ss.pop())
        st.pc += 1

    def assign(self, sym, ndim, val):
        if ndim == 0:
            sym.val = val
            sym.defined = True
            return
        if sym.type == "s":
            self.ss.append(val)   # room is there: it was just popped, or INPUT/READ at rest
        arr, key = self.element(sym, ndim)
        if sym.type == "s":
            self.ss.pop()
        arr.cells[key] = val

    def subscripts(self, ndim):
        r = []
        for _ in range(ndim):
            x = self.ns.pop()
            if not (x >= 0 and c_floor(x) == x):
                self.fail("bad subscript")
            if x > 4294967295:
                self.fail("bad subscript")
            r.append(int(x))
        r.reverse()
        return tuple(r)

    def dimension(self, sym, maxs):
        try:
            a = Array(maxs, 0.0 if sym.type == "n" else "")
        except ValueError:
            self.fail("bad dimensions")
        sym.val = a
        sym.defined = True

    def element(self, sym, ndim):
        key = self.subscripts(ndim)
        if not sym.defined:
            self.dimension_auto(sym, key)
        a = sym.val
        if len(a.maxs) != ndim or any(k > m for k, m in zip(key, a.maxs)):
            self.fail("subscript out of range")
        return a, key

    def dimension_auto(self, sym, key):
        # the size check multiplies the last dimension first
        self.dimension(sym, tuple(max(10, k) for k in key))

    def x_DIM(self, st, op):
        _, sym, subs = op
        for s in subs:
            self.eval(s)
        self.dimension(sym, self.subscripts(len(subs)))
        st.pc += 1

    def x_DEF(self, st, op):
        _, sym, p, e = op
        lines, line = (st.code.lines, st.line) if st.code is self.prog else (None, 0)
        sym.val = Def(p, e, lines, line)
        sym.defined = True
        st.pc += 1

    def x_END(self, st, op):
        st.pc = len(st.code.ops)

    def x_STOP(self, st, op):
        self.stopped = True
        st.pc += 1

    def x_GOTO(self, st, op):
        self.goto(op[1])

    def truth(self, e):
        self.eval(e)
        return self.ns.pop() != 0

    def x_GOTRUE(self, st, op):
        if self.truth(op[1]):
            self.goto(op[2])
        else:
            st.pc += 1

    def x_IF(self, st, op):
        if self.truth(op[1]):
            st.pc += 1
        else:
            st.pc = op[2]

    def x_ELSE(self, st, op):
        st.pc = op[1]

    def push_return(self, pc):
        if len(self.ret) >= GOSUB_MAX:
            self.fail("gosub depth")
        s = self.state.copy()
        s.pc = pc
        self.ret.append(s)

    def x_GOSUB(self, st, op):
        self.push_return(st.pc + 1)
        self.goto(op[1])

    def x_RETURN(self, st, op):
        if not self.ret:
            self.fail("return without gosub")
        self.state = self.ret.pop()

    def x_ON(self, st, op):
        _, e, sub, ls = op
        self.eval(e)
        x = self.ns.pop()
        if x != c_floor(x):
            self.fail("on value")
        if x < 1 or x > len(ls):
            st.pc += 1
            return
        n = ls[int(x) - 1]
        if sub:
            self.push_return(st.pc + 1)
        self.goto(n)

    def x_FOR(self, st, op):
        _, sym, e = op
        self.eval(e)
        k = [i for i, f in enumerate(self.fors) if f[1] is sym]
        if k:
            self.fors.append(self.fors.pop(k[0]))
        else:
            if len(self.fors) >= FOR_MAX:
                self.fail("for depth")
            self.fors.append(None)
        step, limit, start = self.ns.pop(), self.ns.pop(), self.ns.pop()
        self.fors[-1] = (State(st.code, st.line, st.pc + 1), sym, step, limit)
        sym.val = start
        sym.defined = True
        st.pc += 1

    def x_NEXT(self, st, op):
        if not self.fors:
            self.fail("next without for")
        if op[1] is None:
            i = len(self.fors) - 1
        else:
            k = [i for i, f in enumerate(self.fors) if f[1] is op[1]]
            if not k:
                self.fail("next without for")
            i = k[0]
        where, sym, step, limit = self.fors[i]
        x = (sym.val if sym.val is not None else 0.0) + step
        if step > 0 and x > limit or step < 0 and x < limit:
            self.fors.pop(i)
            st.pc += 1
        else:
            sym.val = x
            self.state = where.copy()

    # output

    def x_PLN(self, st, op):
        self.write("\n")
        self.col = 1
        st.pc += 1

    def pop_unsigned(self):
        x = self.ns.pop()
        if not (x >= 0 and c_floor(x) == x) or x > 4294967295:
            self.fail("non-negative integer expected")
        return int(x)

    def x_PSPC(self, st, op):
        self.eval(op[1])
        k = self.pop_unsigned()
        if k > self.max_out:
            raise Limit("output")
        self.write(" " * k)
        self.col += k
        st.pc += 1

    def x_PTAB(self, st, op):
        self.eval(op[1])
        k = self.pop_unsigned()
        if k > self.max_out:
            raise Limit("output")
        if k < self.col:
            self.write("\n")
            self.col = 1
        if k > self.col:
            self.write(" " * (k - self.col))
            self.col = k
        st.pc += 1

    def x_PCOMMA(self, st, op):
        n = FIELD - (self.col - 1) % FIELD
        self.write(" " * n)
        self.col += n
        st.pc += 1

    def x_PNUM(self, st, op):
        self.eval(op[1])
        x = self.ns.pop()
        if x != x:
            self.nan = True
        s = " " + fmt(x) + " "
        self.write(s)
        self.col += len(s)
        st.pc += 1

    def x_PSTR(self, st, op):
        self.eval(op[1])
        s = self.ss.pop()
        self.write(s)
        i = s.rfind("\n")
        self.col = self.col + len(s) if i < 0 else len(s) - i
        st.pc += 1

    # input

    def x_INPUT(self, st, op):
        if op[1] is not None:
            self.write(op[1])
        self.write("? ")
        r = self.fgets(INPUT_BUF)
        self.count("reply")
        if r is None:
            self.fail("end of input")
        if "\n" not in r and not self.eof:
            if self.inpos >= len(self.stdin) or self.stdin[self.inpos] == "\n":
                raise Unsure("reply of exactly 127 characters")
            self.skip_line()
            self.write("* Extra input was discarded *\n")
        self.buf = r
        self.bp = 0
        st.pc += 1

    def x_ITEM(self, st, op):
        (sym, subs), start = op[1], op[2]
        for s in subs:
            self.eval(s)
        if sym.type == "n":
            r = convert(self.buf, self.bp)
            if r is None or not (r[1] >= len(self.buf) or self.buf[r[1]] in "\n,"):
                self.write("* Invalid input *\n")
                self.count("bad reply")
                del self.ns[len(self.ns) - len(subs):]
                st.pc = start
                return
            self.bp = r[1]
            self.assign(sym, len(subs), r[0])
        else:
            j = self.bp
            while j < len(self.buf) and self.buf[j] not in "\n,":
                j += 1
            v = self.buf[self.bp:j]
            self.bp = j
            self.assign(sym, len(subs), v)
        st.pc += 1

    def x_ISEP(self, st, op):
        while self.bp < len(self.buf) and self.buf[self.bp] in " \t":
            self.bp += 1
        if self.bp < len(self.buf) and self.buf[self.bp] == ",":
            self.bp += 1
            st.pc += 1
        else:
            self.write("* More input items are expected *\n")
            self.count("short reply")
            st.pc = op[1]

    def x_IEND(self, st, op):
        if self.buf[self.bp:].strip(" \t\n\r"):
            self.write("* Extra input was discarded *\n")
            self.count("long reply")
        st.pc += 1

    def x_LINEITEM(self, st, op):
        sym, subs = op[1]
        for s in subs:
            self.eval(s)
        self.assign(sym, len(subs), self.buf.split("\n")[0])
        st.pc += 1

    # data

    def x_READ(self, st, op):
        sym, subs = op[1]
        for s in subs:
            self.eval(s)
        imm = st.code is self.imm and self.imm.has_data
        code = self.imm if imm else self.prog
        if code is None or not code.has_data:
            self.fail("no data")
        p = self.idata if imm else self.pdata
        while p < len(code.ops) and code.ops[p][0] != "DATA":
            p += 1
        if p >= len(code.ops):
            self.fail("out of data")
        text = code.ops[p][1]
        if imm:
            self.idata = p + 1
        else:
            self.pdata = p + 1
        if sym.type == "n":
            r = convert(text)
            if r is None or r[1] != len(text):
                self.fail("numeric data expected")
            self.assign(sym, len(subs), r[0])
        else:
            self.assign(sym, len(subs), text)
        st.pc += 1

    def x_RESTORE(self, st, op):
        if op[1] is None:
            self.pdata = self.idata = 0
        else:
            if self.prog is None or op[1] not in self.prog.where:
                self.fail("no line")
            self.pdata = self.prog.where[op[1]]
        st.pc += 1

    def x_SEED(self, st, op):
        if op[1] is None:
            raise Unsure("RANDOMIZE from the clock")
        self.eval(op[1])
        self.rand.seed(self.pop_unsigned())
        st.pc += 1

    # expressions

    def pushn(self, x):
        if len(self.ns) >= NUM_STACK:
            self.fail("expression too deep")
        self.ns.append(x)

    def pushs(self, s):
        if len(self.ss) >= STR_STACK:
            self.fail("expression too deep")
        self.ss.append(s)

    def logic(self):
        x = self.ns.pop()
        if not (-2147483648 <= x <= 2147483647 and x == c_floor(x)):
            self.fail("logical value")
        return int(x)

    def eval(self, items):
        ns, ss = self.ns, self.ss
        for it in items:
            o = it[0]
            if o == "fn":
                self.stats["f:" + it[1]] = self.stats.get("f:" + it[1], 0) + 1
            elif o != "num":
                self.stats["e:" + o] = self.stats.get("e:" + o, 0) + 1
            if o == "num":
                self.pushn(it[1])
            elif o == "var":
                v = it[1].val
                if it[1].type == "n":
                    self.pushn(0.0 if v is None else v)
                else:
                    self.pushs("" if v is None else v)
            elif o == "str":
                self.pushs(it[1])
            elif o == "+":
                y = ns.pop()
                ns[-1] += y
            elif o == "-":
                y = ns.pop()
                ns[-1] -= y
            elif o == "*":
                y = ns.pop()
                ns[-1] *= y
            elif o == "/":
                y = ns.pop()
                ns[-1] = divide(ns[-1], y)
            elif o == "^":
                y = ns.pop()
                ns[-1] = c_pow(ns[-1], y)
            elif o == "neg":
                ns[-1] = -ns[-1]
            elif o == "fn":
                self.builtin(it[1])
            elif o == "paren":
                self.paren(it[1], it[2])
            elif o == "cat":
                t = ss.pop()
                if len(ss[-1]) + len(t) > MAX_STRING:
                    self.fail("string too long")
                ss[-1] += t
            elif o in REL:
                y = ns.pop()
                ns[-1] = -1.0 if REL[o](ns[-1], y) else 0.0
            elif o[0] == "s" and o[1:] in REL:
                t = ss.pop()
                s = ss.pop()
                self.pushn(-1.0 if REL[o[1:]](s, t) else 0.0)
            elif o == "or":
                y = self.logic()
                ns.append(float(self.logic() | y))
            elif o == "and":
                y = self.logic()
                ns.append(float(self.logic() & y))
            elif o == "not":
                ns.append(float(~self.logic()))
            elif o == "dropn":
                ns.pop()
            elif o == "drops":
                ss.pop()
            else:
                raise AssertionError(o)

    def paren(self, sym, n):
        if sym.kind == "unk":
            sym.kind = "arr"
        if sym.kind == "arr":
            a, key = self.element(sym, n)
            v = a.cells.get(key, a.default)
            if sym.type == "n":
                self.pushn(v)
            else:
                self.pushs(v)
            return
        if not sym.defined:
            self.fail("function not defined")
        if self.fn:
            self.fail("nested function call")
        if n != 1:
            self.fail("number of parameters")
        d = sym.val
        p = d.param
        self.count("call")
        self.fn = (d, (p.val, p.defined))
        p.val = self.ns.pop()
        p.defined = True
        self.eval(d.expr)
        self.restore_param()

    def restore_param(self):
        d, (v, df) = self.fn
        d.param.val = v
        d.param.defined = df
        self.fn = None

    def builtin(self, f):
        ns, ss = self.ns, self.ss
        if f == "ABS":
            ns[-1] = c_fabs(ns[-1])
        elif f == "INT":
            ns[-1] = c_floor(ns[-1])
        elif f == "SGN":
            x = ns[-1]
            ns[-1] = -1.0 if x < 0 else 1.0 if x > 0 else x
        elif f == "SQR":
            ns[-1] = c_sqrt(ns[-1])
        elif f == "SIN":
            ns[-1] = c_sin(ns[-1])
        elif f == "COS":
            ns[-1] = c_cos(ns[-1])
        elif f == "TAN":
            ns[-1] = c_tan(ns[-1])
        elif f == "ATN":
            ns[-1] = c_atan(ns[-1])
        elif f == "EXP":
            ns[-1] = c_exp(ns[-1])
        elif f == "LOG":
            if ns[-1] <= 0:
                self.fail("logarithm")
            ns[-1] = c_log(ns[-1])
        elif f == "RND":
            self.pushn(self.rand.rnd())
        elif f == "LEN":
            self.pushn(float(len(ss.pop())))
        elif f == "ASC":
            s = ss.pop()
            self.pushn(float(ord(s[0])) if s else 0.0)
        elif f == "CHR$":
            x = ns.pop()
            if not (0 <= x <= 255 and x == c_floor(x)):
                self.fail("character code")
            self.pushs(chr(int(x)) if x else "")
        elif f == "STR$":
            if ns[-1] != ns[-1]:
                self.nan = True
            self.pushs(fmt(ns.pop()))
        elif f == "VAL":
            s = ss.pop()
            r = convert(s)
            if r is None or r[1] != len(s):
                self.fail("invalid number")
            self.pushn(r[0])
        elif f == "LEFT$":
            u = self.pop_unsigned()
            ss[-1] = ss[-1][:u]
        elif f == "RIGHT$":
            u = self.pop_unsigned()
            s = ss[-1]
            ss[-1] = s[max(0, len(s) - u):]
        elif f == "MID$":
            v = self.pop_unsigned()
            u = self.pop_unsigned()
            s = ss[-1]
            if u < 1 or u > len(s):
                self.fail("string index")
            ss[-1] = s[u - 1:u - 1 + v]
        elif f == "TIME$":
            raise Unsure("TIME$")
        else:
            raise AssertionError(f)


REL = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b,
       ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def divide(x, y):
    if y != 0:
        try:
            return x / y
        except OverflowError:
            return math.copysign(INF, x) * math.copysign(1, y)
    if x != x:
        return x
    if x == 0:
        return float("-nan")
    return math.copysign(INF, x) * math.copysign(1, y)


# ---------------------------------------------------------------- files

class LoadErr(Exception):
    pass


def parse_file(text):
    """Program file text -> [(num, text)], or LoadErr"""
    r = []
    if text.endswith("\n"):
        text = text[:-1]
    elif text == "":
        return r
    for ln in text.split("\n"):
        if ln == "":
            raise LoadErr("empty")
        m = re.match(r"[0-9]+", ln)
        if not m:
            raise LoadErr("no line number")
        n = int(m.group())
        if n > 4294967295:
            raise LoadErr("too large")
        if n == 0:
            raise LoadErr("zero")
        if r and n <= r[-1][0]:
            raise LoadErr("order")
        rest = ln[m.end():]
        if rest.startswith(" "):
            rest = rest[1:]
        r.append((n, rest))
    return r


def file_text(lines):
    return "".join("%d %s\n" % l for l in lines)


class RenumErr(Exception):
    pass


def renum(lines, crunch, new=10, old=1, inc=10, warn=None):
    """Lines after RENUM new,old,inc, or RenumErr. SyntaxErr where the text cannot be scanned."""
    if new == 0 or inc == 0:
        raise RenumErr("bad")
    mp = {}
    n = new
    prev = 0
    for num, _ in lines:
        m = num
        if num >= old:
            if n <= prev or n > 65535:
                raise RenumErr("Cannot renumber line %d to %d after line %d" % (num, n, prev))
            m = n
            n += inc
        mp[num] = m
        prev = m
    return [(mp[num], renum_text(text, mp, crunch, warn)) for num, text in lines]


def renum_text(text, mp, crunch, warn=None):
    edits = []
    lx = Lexer(text, crunch)

    def ref():
        # current token is a number: maybe a line number
        x = lx.tok[1]
        if 0 < x <= 65535 and x == int(x) and int(x) in mp:
            edits.append((lx.start, lx.p, str(mp[int(x)])))
        lx.next()

    while lx.tok[0] != "eol" and lx.tok != ("kw", "REM"):
        t = lx.tok
        if t == ("err",) and warn is not None:
            warn.append(text)
        if t == ("kw", "DATA"):
            lx.data()
            while lx.next() == ("op", ","):
                lx.data()
        elif t[0] == "kw" and t[1] in ("GOTO", "GOSUB", "THEN", "ELSE", "RESTORE"):
            lst = t[1] in ("GOTO", "GOSUB")
            lx.next()
            if lx.tok[0] == "num":
                ref()
            while lst and lx.tok == ("op", ","):
                lx.next()
                if lx.tok[0] == "num":
                    ref()
        else:
            lx.next()
    for a, b, s in reversed(edits):
        text = text[:a] + s + text[b:]
    return text


# ---------------------------------------------------------------- session

COMMANDS = {"BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RENUMBER", "RUN", "SAVE"}
UINT_MAX = 4294967295
HELP_MARK = "\x00HELP\x00"   # stands for the help text


class Session(Machine):
    """The prompt. files: name -> text of files in the working directory.
    bad_names: file names that cannot be opened for writing."""

    def __init__(self, stdin, files=None, unwritable=(), **kw):
        super().__init__(stdin, **kw)
        self.files = dict(files or {})
        self.unwritable = set(unwritable)
        self.quit = False

    def go(self):
        while not self.quit:
            line = self.command_line()
            if line is None:
                break
            self.interpret(line)
        return self

    def command_line(self):
        while True:
            self.write("> ")
            s = self.fgets(128)
            if s is None:
                return None
            if s.endswith("\n"):
                return s[:-1]
            if self.eof:
                return s
            if self.inpos >= len(self.stdin):
                raise Unsure("command line of exactly 127 characters at the end")
            self.say("Command line too long")
            self.skip_line()

    def page_break(self):
        return False

    def say(self, s):
        self.write(s + "\n")
        self.count("say:" + s.split(" ")[0])

    def number(self, s):
        m = re.match(r"[0-9]+", s)
        n = int(m.group())
        # digits beyond the range
        if n > UINT_MAX:
            n = UINT_MAX
        return n, s[m.end():]

    def interpret(self, line):
        p = line.lstrip(" \t")
        if p[:1] and isdigit(p[0]):
            n, rest = self.number(p)
            if n == 0 or n == UINT_MAX:
                self.say("Invalid line number: %d" % n)
            elif rest == "":
                if self.source is not None and any(l[0] == n for l in self.source):
                    self.source = [l for l in self.source if l[0] != n]
                    self.changed()
                    self.count("delete line")
            else:
                if rest[0] == " ":
                    rest = rest[1:]
                src = dict(self.source or [])
                self.count("replace line" if n in src else "insert line")
                src[n] = rest
                self.source = sorted(src.items())
                self.changed()
        elif p[:1] == "*":
            self.shell(p[1:].lstrip(" \t"))
        elif p:
            m = re.match(r"[A-Za-z]+", p)
            if m and m.group().upper() in COMMANDS:
                self.count("cmd " + m.group().upper())
                self.command(m.group().upper(), p[m.end():])
            else:
                self.count("immediate")
                self.immediate(p)

    def shell(self, cmd):
        m = re.fullmatch(r"echo ([a-z0-9]+)", cmd)
        if m:
            self.write(m.group(1) + "\n")
        elif cmd not in ("true", "false", ""):
            raise Unsure("shell")

    def eol(self, rest):
        if rest.lstrip(" \t"):
            self.say("Command syntax error")
            return False
        return True

    def quoted(self, rest):
        rest = rest.lstrip(" \t")
        if not rest.startswith('"'):
            return None
        rest = rest[1:]
        name, q, tail = rest.partition('"')
        if not self.eol(tail):
            return None
        return name

    def command(self, c, rest):
        if c == "BYE":
            if self.eol(rest):
                self.quit = True
        elif c == "COMPILE":
            self.compile()
        elif c == "CONT":
            if not self.cont():
                self.say("Cannot continue")
        elif c == "HELP":
            self.write(HELP_MARK)
        elif c == "NEW":
            if self.eol(rest):
                if self.source is not None:
                    self.source = []
                self.changed()
                self.clear_names()
        elif c == "LIST":
            self.list(rest)
        elif c in ("LOAD", "SAVE"):
            name = self.quoted(rest)
            if name is None:
                self.say("Quoted file name expected")
            elif c == "LOAD":
                self.load(name)
            else:
                self.save(name)
        elif c in ("RENUM", "RENUMBER"):
            self.renum(rest)
        elif c == "RUN":
            self.clear_values()
            self.run_program()

    def list(self, rest):
        p = rest.lstrip(" \t")
        start, end = 0, UINT_MAX
        if p[:1] and isdigit(p[0]):
            start, p = self.number(p)
            p = p.lstrip(" \t")
        if p.startswith("-"):
            p = p[1:].lstrip(" \t")
            if p[:1] and isdigit(p[0]):
                end, p = self.number(p)
        p = p.lstrip(" \t")
        page = p[:1] in ("p", "P")
        if page:
            p = p[1:]
        if not self.eol(p):
            return
        src = self.source or []
        k = 0
        for i, (n, t) in enumerate(src):
            if n > end:
                break
            if n >= start:
                self.write("%d %s" % (n, t))
                k += 1
                if page and k % 24 == 23 and i + 1 < len(src):
                    self.skip_line()
                    self.count("page")
                    if self.page_break():
                        break
                else:
                    self.write("\n")

    def load(self, name):
        if name not in self.files:
            self.err.append(("io", name))
            return
        try:
            src = parse_file(self.files[name])
        except LoadErr as e:
            self.err.append(("load", name))
            self.count("load error")
            return
        self.source = src
        self.changed()

    def save(self, name):
        if self.source is None:
            self.err.append(("io", "no program"))
            return
        if name == "/dev/full" and not self.source:
            return      # nothing to write: nothing lost
        if name in self.unwritable or "/" in name or name == "":
            self.err.append(("io", name))
            return
        self.files[name] = file_text(self.source)

    def renum(self, rest):
        new, old, inc = 10, 1, 10
        p = rest.lstrip(" \t")
        if p[:1] and isdigit(p[0]):
            new, p = self.number(p)
            p = p.lstrip(" \t")
        if p[:1] == ",":
            p = p[1:].lstrip(" \t")
            if p[:1] and isdigit(p[0]):
                old, p = self.number(p)
        if p[:1] == ",":
            p = p[1:].lstrip(" \t")
            if p[:1] and isdigit(p[0]):
                inc, p = self.number(p)
        if not self.eol(p):
            return
        if new == 0 or inc == 0:
            self.say("Invalid line number or increment")
            return
        if self.source is None:
            return
        try:
            warn = []
            self.source = renum(self.source, self.crunch, new, old, inc, warn)
            if warn:
                self.err.append(("maybe", ""))   # it may say that a word or string is malformed
        except RenumErr as e:
            self.say(str(e))
            return
        except SyntaxErr:
            self.err.append(("lex", ""))
            return
        self.changed()


def run_batch(text, stdin="", **kw):
    """Run a program file: machine after the run, or LoadErr"""
    m = Machine(stdin, **kw)
    m.source = parse_file(text)
    m.run_program()
    return m
