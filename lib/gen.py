"""Random BASIC text."""
import random
import re

NUMVARS = ["A", "B", "C", "X", "Y", "Z1", "count", "Q9", "Total", "N"]
STRVARS = ["A$", "B$", "name$", "S1$", "X$", "Word$"]
NUMARRS = ["A", "V", "mat", "B2"]
STRARRS = ["A$", "L$", "names$"]
NUMFNS = ["FNA", "FNsq", "half"]
STRFNS = ["FNA$", "tail$"]
WORDS = ["", "A", "HELLO", "abc", "Z", "the cat", "0", "12", "-3.5", "x,y", " lead", "trail ", "a:b", "REM", "GOTO 10",
         "THEN", "\\", "!?", "1e3", "%d%s", "LONGER STRING OF TEXT", "aB", "ab", "aa", "SPC", "tab", "RND", "Print", "ELSE", "A$", "TAB(3)", "?"]
KEYWORDS = ("AND CLEAR CLS DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR "
            "PRINT RANDOMIZE READ REM RESTORE RETURN STEP STOP THEN TO").split()


def rcase(rng, s):
    k = rng.random()
    if k < 0.6:
        return s
    if k < 0.75:
        return s.upper()
    if k < 0.9:
        return s.lower()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def spoilt(r, l):
    """nearly the same line: perhaps no line of the language"""
    w = re.findall(r'"[^"]*"|[A-Za-z]+\$?|[0-9.]+|\s+|.', l)
    k = r.randrange(len(w))
    t = r.randrange(5)
    if t == 0:
        return l + r.choice([" ELSE PRINT \"x\"", " ELSE 10", ":ELSE PRINT 1", " THEN PRINT 1", ",10", " ELSE", " GOTO 10", ","])
    if t == 1:
        del w[k]
    elif t == 2:
        w.insert(k, r.choice([" ELSE ", " THEN ", ":", ",", " NOT ", " GOTO ", "0", " IF A "]))
    elif t == 3:
        w[k] = r.choice([" ELSE ", " THEN ", ":", ",", " ", "A$", "1.5", "GOTO", "70000", "0"])
    else:
        j = r.randrange(len(w))
        w[k], w[j] = w[j], w[k]
    return "".join(w).lstrip(" *") or "IF"


def lit(r):
    """a number from the dictionary of literals, as text, or None"""
    return r.literal() if hasattr(r, "literal") else None


def word(r):
    return r.word() if hasattr(r, "word") else None


class G:
    def __init__(self, rng, errors=0.03, depth=3, casing=True, nv=None):
        self.r = rng
        self.errors = errors
        self.depth = depth
        self.casing = casing
        self.numvars = NUMVARS[:nv] if nv else NUMVARS
        self.strvars = STRVARS
        self.fns = []          # numeric functions that may be called
        self.sfns = []
        self.numarrs = NUMARRS
        self.strarrs = STRARRS
        self.dims = {}         # name -> (max,...) known to be dimensioned
        self.rnd = True
        self.rndw = 0.3
        self.seeds = (0, 1, 2, 3, 4, 5)

    def name(self, s):
        return rcase(self.r, s) if self.casing else s

    def kw(self, s):
        return rcase(self.r, s) if self.casing and self.r.random() < 0.2 else s

    def err(self):
        return self.r.random() < self.errors

    def pick(self, *alts):
        """alts: (weight, function)"""
        t = sum(w for w, _ in alts)
        k = self.r.random() * t
        for w, f in alts:
            k -= w
            if k < 0:
                return f()
        return alts[-1][1]()

    # ---- numbers

    def int_lit(self, lo=0, hi=20):
        return str(self.r.randint(lo, hi))

    def num_lit(self):
        r = self.r
        x = lit(r)
        if x:
            return x
        k = r.randrange(12)
        if k < 5:
            return str(r.randint(0, 12))
        if k == 5:
            return str(r.randint(0, 100000))
        if k == 6:
            return "%d.%d" % (r.randint(0, 99), r.randint(0, 999))
        if k == 7:
            return ".%d" % r.randint(0, 99)
        if k == 8:
            return "%d." % r.randint(0, 99)
        if k == 9:
            return "%d%s%s%d" % (r.randint(1, 99), r.choice("eE"), r.choice(["", "-", "+"]), r.randint(0, 12))
        if k == 10:
            return r.choice(["32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295",
                             "999999", "1000000", "123456.7", "1234567", "0.1", "0.00001", "1e-5", "99999.95"])
        return repr(r.uniform(0, 100))

    def numvar(self):
        return self.name(self.r.choice(self.numvars))

    def strvar(self):
        return self.name(self.r.choice(self.strvars))

    def index(self, hi):
        """An expression with an integer value 0..hi"""
        r = self.r
        if self.err():
            return r.choice(["-1", "0.5", str(hi + 1), str(hi + 100), "1e10", "-1e10", "70000"])
        k = r.random()
        v = r.randint(0, hi)
        if k < 0.7:
            return str(v)
        if k < 0.8:
            a = r.randint(0, v)
            return "%d+%d" % (a, v - a)
        if k < 0.9:
            return "INT(%d.%d)" % (v, r.randint(0, 9))
        return "LEN(\"%s\")+%d" % ("x" * min(v, 5), v - min(v, 5))

    def subs(self, name):
        d = self.dims.get(name.upper())
        if d is None:
            d = (10,) if not name.upper().startswith("M") else (10, 10)
        if self.err() and self.r.random() < 0.3:
            d = d + (3,) if len(d) == 1 else d[:1]
        return "(" + ",".join(self.index(m) for m in d) + ")"

    def numelem(self):
        n = self.r.choice(self.numarrs)
        return self.name(n) + self.subs(n)

    def strelem(self):
        n = self.r.choice(self.strarrs)
        return self.name(n) + self.subs(n)

    def num(self, d=None):
        if d is None:
            d = self.depth
        r = self.r
        if d <= 0:
            return self.pick((4, self.num_lit), (4, self.numvar), (1, self.numelem), (self.rndw, self.rnd_call))
        return self.pick(
            (2, lambda: self.num(0)),
            (6, lambda: self.num(d - 1) + self.sp() + r.choice("+-*/") + self.sp() + self.num(d - 1)),
            (1, lambda: self.num(d - 1) + "^" + r.choice(["2", "3", "0.5", "(-1)", "0", "(-.5)", self.num(0)])),
            (1.5, lambda: "-" + self.sp() + self.num(d - 1)),
            (3, lambda: "(" + self.num(d - 1) + ")"),
            (2, lambda: "(" + self.num(d - 1) + self.rel() + self.num(d - 1) + ")"),
            (1, lambda: "(" + self.str(d - 1) + self.rel() + self.str(d - 1) + ")"),
            (1, lambda: self.logic(d)),
            (3, lambda: self.builtin(d)),
            (2 if self.fns else 0, lambda: self.call(d)),
        )

    def sp(self):
        return self.r.choice(["", "", " "])

    def rel(self):
        return self.sp() + self.r.choice(["=", "<>", "<", ">", "<=", ">="]) + self.sp()

    def rnd_call(self):
        if not self.rnd:
            return "7"
        return self.r.choice(["RND", "RND(1)", "RND(0)", "Rnd", "RND()", "rnd(X)"])

    def logic(self, d):
        r = self.r
        k = r.randrange(4)
        if self.err():
            a = self.num(d - 1)
        else:
            a = r.choice(["%d" % r.randint(-300, 300), "INT(%d.5)" % r.randint(0, 99), self.cond(d - 1)])
        if k == 0:
            return "(NOT " + a + ")"
        return "(" + a + r.choice([" AND ", " OR "]) + r.choice([str(r.randint(0, 255)), self.cond(d - 1)]) + ")"

    def cond(self, d=1):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            return "(" + self.num(max(0, d - 1)) + self.rel() + self.num(max(0, d - 1)) + ")"
        if k == 3:
            return "(" + self.str(max(0, d - 1)) + self.rel() + self.str(max(0, d - 1)) + ")"
        if k == 4:
            return "(NOT (" + self.num(0) + self.rel() + self.num(0) + "))"
        return "((%s%s%s) %s (%s%s%s))" % (self.num(0), self.rel(), self.num(0), r.choice(["AND", "OR"]),
                                           self.num(0), self.rel(), self.num(0))

    def builtin(self, d):
        r = self.r
        f = r.choice(["ABS", "INT", "SGN", "SQR", "SIN", "COS", "TAN", "ATN", "EXP", "LOG", "LEN", "ASC", "VAL",
                      "ABS", "INT", "SGN", "INT"])
        n = self.name(f)
        if f in ("LEN", "ASC"):
            return "%s(%s)" % (n, self.str(d - 1))
        if f == "VAL":
            if self.err():
                return "%s(%s)" % (n, self.str(d - 1))
            return "%s(%s)" % (n, r.choice(["STR$(%s)" % self.num(d - 1), '"%s"' % self.num_lit(),
                                            '" %s "' % r.randint(-99, 99)]))
        if f == "LOG" and not self.err():
            return "%s(1+ABS(%s))" % (n, self.num(d - 1))
        if f == "SQR" and not self.err():
            return "%s(ABS(%s))" % (n, self.num(d - 1))
        if f == "EXP":
            return "%s(%s)" % (n, r.choice([self.num(0), "-" + self.num(0), str(r.randint(-5, 5))]))
        return "%s(%s)" % (n, self.num(d - 1))

    def call(self, d):
        return "%s(%s)" % (self.name(self.r.choice(self.fns)), self.nofn().num(d - 1))

    def nofn(self):
        g = G.__new__(G)
        g.__dict__.update(self.__dict__)
        if not self.err():
            g.fns, g.sfns = [], []
        return g

    # ---- strings

    def str_lit(self):
        r = self.r
        w = word(r)
        if w:
            return '"%s"' % w
        k = r.random()
        if k < 0.7:
            return '"%s"' % r.choice(WORDS)
        return '"%s"' % "".join(r.choice("abcXYZ 019.,:;'()+-") for _ in range(r.randint(0, 12)))

    def str(self, d=None):
        if d is None:
            d = self.depth
        r = self.r
        if d <= 0:
            return self.pick((4, self.str_lit), (4, self.strvar), (1, self.strelem))
        return self.pick(
            (3, lambda: self.str(0)),
            (4, lambda: self.str(d - 1) + "+" + self.str(d - 1)),
            (1, lambda: "(" + self.str(d - 1) + ")"),
            (2, lambda: "%s(%s,%s)" % (self.name("LEFT$"), self.str(d - 1), self.index(6))),
            (2, lambda: "%s(%s,%s)" % (self.name("RIGHT$"), self.str(d - 1), self.index(6))),
            (2, lambda: "%s(\"x\"+%s,%s,%s)" % (self.name("MID$"), self.str(d - 1), r.choice(["1", "1", self.index(3)])
                                               if self.err() else "1", self.index(5))),
            (2, lambda: "%s(%s)" % (self.name("STR$"), self.num(d - 1))),
            (1, lambda: "%s(%d)" % (self.name("CHR$"), r.size([32, 65, 97, 48, 10, 34, 44, 126, r.randint(32, 126)]))),
            (1.5 if self.sfns else 0, lambda: "%s(%s)" % (self.name(r.choice(self.sfns)), self.nofn().num(d - 1))),
        )

    # ---- statements

    def lvalue(self):
        return self.pick((4, self.numvar), (4, self.strvar), (1.5, self.numelem), (1.5, self.strelem))

    def let(self):
        v = self.lvalue()
        e = self.str() if "$" in v.split("(")[0] else self.num()
        return (self.kw("LET") + " " if self.r.random() < 0.2 else "") + v + self.sp() + "=" + self.sp() + e

    def print_item(self):
        r = self.r
        return self.pick((4, self.num), (4, self.str),
                         (0.7, lambda: "%s(%s)" % (self.name("TAB"), self.index(40))),
                         (0.7, lambda: "%s(%s)" % (self.name("SPC"), self.index(9))))

    def print(self):
        r = self.r
        s = self.kw("PRINT") + " " if r.random() < 0.85 else "?"
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 5])
        for i in range(n):
            s += self.print_item()
            if i < n - 1:
                s += r.choice([";", ",", ";", "; ", " , ", ";;", ",,"])
        if n and r.random() < 0.25:
            s += r.choice([";", ",", ";,"])
        return s.rstrip() if n == 0 else s

    def dump(self):
        """Print every variable"""
        return 'PRINT %s' % ";".join(
            [v for v in self.numvars] + ['"["', ] + ';"|";'.join(self.strvars).split("@") + ['"]"'])


class Prog(G):
    """A whole program. Line numbers are symbolic until the end: @k@"""

    def __init__(self, rng, size=None, stdin=True, stops=0.0, loops=True, **kw):
        super().__init__(rng, **kw)
        self.size = size or rng.choice([3, 6, 10, 15, 25, 40])
        self.lines = []        # text with @k@ for the number of the k-th line
        self.replies = []
        self.use_stdin = stdin
        self.stops = stops
        self.loops = loops
        self.forvars = ["I", "J", "K", "I1", "j2", "L", "M", "P"]
        self.fordepth = 0
        self.subs_at = []      # indices of subroutine entry lines
        self.ndata = 0
        self.datanum = []
        self.text = None

    def add(self, s):
        self.lines.append(s)
        return len(self.lines) - 1

    def line_stmt(self, depth=0):
        """Simple statements for one line"""
        r = self.r
        k = r.choice([1, 1, 1, 2, 3])
        return self.join([self.simple(depth) for _ in range(k)])

    def join(self, parts):
        return self.r.choice([":", " : ", ":"]).join(parts)

    def simple(self, depth=0):
        r = self.r
        return self.pick(
            (5, self.let), (4, self.print),
            (0.6, self.read), (0.5 if self.use_stdin else 0, self.input),
            (0.2, lambda: self.kw("RESTORE")),
            (1.0 if self.subs_at or depth == 0 else 0, self.gosub),
            (self.rndw, lambda: "RANDOMIZE %d" % r.choice(self.seeds)),
            (0.1, lambda: self.kw("CLEAR")),
            (0.4, self.dim),
            (self.stops, lambda: "STOP"),
            (0.2, lambda: ""),
            (0.8, lambda: self.inline_for()),
        )

    def inline_for(self):
        if self.fordepth >= 5 or not self.loops:
            return self.print()
        v = self.forvars[self.fordepth]
        self.fordepth += 1
        b = self.r.choice([self.let, self.print])()
        self.fordepth -= 1
        return "%s:%s:%s" % (self.for_head(v), b, "NEXT" + self.r.choice(["", " " + v]))

    def for_head(self, v):
        r = self.r
        a = r.randint(-3, 5)
        k = r.randrange(6)
        if k < 3:
            return "%s %s=%d TO %d" % (self.kw("FOR"), v, a, a + r.randint(-1, 4))
        if k == 3:
            return "%s %s=%d TO %d STEP -1" % (self.kw("FOR"), v, a, a - r.randint(-1, 4))
        if k == 4:
            s = r.choice(["0.5", "2", "3", ".25", "1.5"])
            return "FOR %s=%d TO %d STEP %s" % (v, a, a + r.randint(0, 3), s)
        return "FOR %s=%d TO %s STEP %s" % (v, a, "%d+LEN(\"ab\")" % a, r.choice(["1", "-1", "2"]))

    def dim(self):
        r = self.r
        n = r.choice(self.numarrs + self.strarrs)
        d = tuple(r.randint(0, 12) for _ in range(r.choice([1, 1, 2])))
        old = self.dims.get(n.upper())
        self.dims[n.upper()] = d if old is None else (tuple(min(a, b) for a, b in zip(d, old)) if len(d) == len(old) else d)
        return "%s %s(%s)" % (self.kw("DIM"), n, ",".join(map(str, d)))

    def gosub(self):
        return "%s @S@" % self.kw("GOSUB")

    def read(self):
        r = self.r
        vs = []
        for _ in range(r.choice([1, 1, 2])):
            v = self.lvalue()
            vs.append(v)
            self.datanum.append("$" not in v.split("(")[0])
        return "%s %s" % (self.kw("READ"), ",".join(vs))

    def data_item(self, num):
        r = self.r
        w = None if num else word(r)
        if w:
            return r.choice(['"%s"' % w, w.replace(",", ".").replace(":", ".")])
        if num or r.random() < 0.4:
            return r.choice([str(r.randint(-50, 50)), self.num_lit(), "-" + self.num_lit(), "+3"])
        return r.choice([self.str_lit(), "plain text", "word", "  spaced  out ", "", "a'b", "REM", "12 x", "then"])

    def input(self):
        r = self.r
        vs = [self.lvalue() for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.25:
            v = self.r.choice([self.strvar, self.strelem])()
            self.replies.append(r.choice(["a,b,c", "line of text", '"q"', "", " 12"]))
            return "LINE INPUT %s%s" % (r.choice(["", '"say";', '"prompt ",', '"x"']), v)
        rep = []
        for v in vs:
            if "$" in v.split("(")[0]:
                rep.append(r.choice(["yes", "no way", "", "123", " pad "]))
            else:
                rep.append(r.choice([str(r.randint(-99, 99)), self.num_lit(), " 5 ", "-.5", "1e2"]))
        if r.random() < 0.15:
            self.replies.append(r.choice(["bad", "1", "1;2", "--1", ""]))
        if r.random() < 0.1:
            rep.append("extra")
        self.replies.append(",".join(rep))
        return "%s %s%s" % (self.kw("INPUT"), r.choice(["", "", '"how";', '"what",', '"?"']), ",".join(vs))

    def block(self, n, depth):
        """n or so lines of structured program"""
        r = self.r
        while n > 0:
            k = r.random()
            if k < 0.5 or depth > 3:
                self.add(self.line_stmt(depth))
                n -= 1
            elif k < 0.62 and self.fordepth < 6 and self.loops:
                v = self.forvars[self.fordepth]
                self.fordepth += 1
                self.add(self.for_head(v) + (":" + self.simple(1) if r.random() < 0.2 else ""))
                m = r.randint(1, max(1, n // 2))
                self.block(m, depth + 1)
                self.fordepth -= 1
                self.add(self.kw("NEXT") + r.choice(["", " " + v, " " + v]) + (":" + self.simple(1) if r.random() < 0.2 else ""))
                n -= m + 2
            elif k < 0.8:
                c = r.choice([self.cond(1), self.num(1), self.cond(2)])
                t = r.randrange(5)
                if t == 0:
                    i = self.add("")
                    m = r.randint(0, max(0, n // 2))
                    self.block(m, depth + 1)
                    self.lines[i] = "IF %s THEN @%d@" % (c, len(self.lines))
                    if r.random() < 0.3:
                        self.lines[i] += r.choice([" ELSE @%d@", ":PRINT \"X\"", " ELSE @%d@"]).replace("%d", str(i + 1))
                    n -= m + 1
                elif t == 1:
                    i = self.add("")
                    m = r.randint(0, max(0, n // 2))
                    self.block(m, depth + 1)
                    self.lines[i] = "IF %s THEN GOTO @%d@" % (c, len(self.lines))
                    n -= m + 1
                elif t == 2:
                    self.add("IF %s THEN %s" % (c, self.line_stmt(depth + 1)))
                    n -= 1
                elif t == 3:
                    self.add("IF %s THEN %s ELSE %s" % (c, self.line_stmt(depth + 1), self.line_stmt(depth + 1)))
                    n -= 1
                else:
                    self.add("IF %s THEN IF %s THEN %s ELSE %s" % (c, self.cond(1), self.simple(1), self.line_stmt(1)))
                    n -= 1
            elif k < 0.86:
                i = self.add("")
                m = r.randint(0, max(0, n // 2))
                self.block(m, depth + 1)
                self.lines[i] = "GOTO @%d@" % len(self.lines)
                n -= m + 1
            elif k < 0.93:
                i = self.add("")
                m = r.randint(1, 3)
                a = len(self.lines)
                self.block(m, depth + 1)
                b = len(self.lines)
                sel = r.choice([str(r.randint(-1, 4)), self.numvar(), "INT(%s)" % self.num(1)])
                if not self.err() and not sel[-1:] == ")" and not sel.lstrip("-").isdigit():
                    sel = "INT(%s)" % sel
                if r.random() < 0.5:
                    self.lines[i] = "ON %s GOTO %s" % (sel, ",".join("@%d@" % r.randint(a, b) for _ in range(r.randint(1, 4))))
                else:
                    self.lines[i] = "ON %s GOSUB @S@" % sel + ",@S@" * r.randint(0, 2)
                n -= m + 1
            else:
                self.add(r.choice(["REM " + self.r.choice(WORDS), "REM", "LET A=1:REM x:PRINT", "DATA @D@", "DATA @D@,@D@",
                                   ": :", "?"]))
                n -= 1

    def build(self):
        r = self.r
        nf = r.choice([0, 0, 1, 2])
        for f in r.sample(NUMFNS, nf):
            p = r.choice(["X", "A", "P", "N"])
            body = self.num(2).replace("@", "")
            if r.random() < 0.7:
                body = "%s+%s" % (p, body)
            self.add("DEF %s(%s)=%s" % (f, p, body))
        if r.random() < 0.3:
            f = r.choice(STRFNS)
            self.add("DEF %s(%s)=%s+STR$(X)" % (f, r.choice(["X", "A"]), self.str(1)))
            self.sfns = [f]
        self.fns = [l.split("(")[0][4:] for l in self.lines if l.startswith("DEF") and "$" not in l.split("(")[0]]
        if r.random() < 0.4:
            self.add(self.dim())
        self.block(self.size, 0)
        ns = r.choice([0, 1, 2, 3])
        self.add(r.choice(["END", "END", "STOP" if self.stops else "END"]) if ns or r.random() < .5 else "PRINT \"end\"")
        depth_fns = self.fns
        subs = []
        for k in range(ns):
            self.subs_at = subs[:]      # may call earlier ones: no recursion
            i = len(self.lines)
            fd = self.fordepth
            self.fordepth = 6
            self.block(r.randint(1, 3), 3)
            self.fordepth = fd
            self.lines[i:] = [l.replace("@S@", "@S%d@" % k) for l in self.lines[i:]]
            if r.random() < 0.3:
                self.lines[-1] += ":RETURN" if not self.lines[-1].startswith("REM") and "REM" not in self.lines[-1] else ""
            self.add("RETURN" + r.choice(["", "", ":PRINT 1"]))
            subs.append(i)
        if r.random() < 0.7 or self.datanum:
            items = [self.data_item(x) for x in self.datanum] + [self.data_item(False) for _ in range(r.choice([0, 2]))]
            while items:
                k = r.randint(1, 5)
                self.add("DATA " + r.choice([",", ", ", " , "]).join(items[:k]))
                items = items[k:]
        self.add(r.choice(["END", "REM last", "PRINT"]))
        # resolve
        n = len(self.lines)
        nums = numbers(r, n)
        out = []
        import re

        def sub(m):
            w = m.group(1)
            if w == "S":
                return str(nums[r.choice(subs)]) if subs else str(nums[-1])
            if w[0] == "S":
                k = int(w[1:])
                return str(nums[r.choice(subs[:k])]) if k else str(nums[subs[0] - 1]) if False else str(nums[-1])
            if w == "D":
                return self.data_item(False)
            return str(nums[min(int(w), n - 1)])
        if not subs:
            self.lines = [l.replace("GOSUB @S@", "GOSUB @%d@" % (n - 1)) for l in self.lines]
        for i, l in enumerate(self.lines):
            out.append((nums[i], re.sub(r"@(\w+)@", sub, l)))
        self.nums = nums
        self.out = [l if len(l[1]) < 240 else (l[0], "REM") for l in out]
        self.text = "".join("%d %s\n" % l for l in self.out)
        return self

    def stdin(self):
        r = self.r
        reps = self.replies * 3 + ["1,2,3"] * 5
        return "\n".join(reps) + "\n"


def numbers(r, n):
    """n increasing line numbers 1..65535"""
    k = r.random()
    if k < 0.5:
        return [10 * (i + 1) for i in range(n)]
    if k < 0.55:
        return list(range(1, n + 1))
    if k < 0.6:
        b = r.choice([300, 610, 1000, 2000, 32760, 50000])
        return list(range(b, b + n))
    if k < 0.7:
        return [i * 397 % 65536 for i in range(1, n + 1)] if n * 397 < 65536 else list(range(100, 100 + n))
    if k < 0.8:
        return list(range(65535 - n + 1, 65536))
    return sorted(r.sample(range(1, 65536 if k < 0.9 else max(2 * n, 1000)), n))


def program(rng, **kw):
    p = Prog(rng, **kw).build()
    return p
