"""E01 E02 E03 E04 E05: expressions."""
import random
import re
import struct

import gen
import model
from gen import G, lit, rcase, word
import literals
from harness import *


def fits(l):
    return len(l) <= 126


def parses(l, crunch=False):
    try:
        model.Parser({}, crunch).program([(10, l)])
        return True
    except model.SyntaxErr:
        return False


SPECIAL = ["0", "1", "-1", "2", "3", "0.5", "-0.5", "1.5", "-1.5", "-2.5", "10", "255", "256", "65535", "65536", "1e10",
           "-1e10", "1e300", "-1e300", "1e-300", "1e308*10", "-1e308*10", "2147483647", "-2147483648", "2147483648",
           "-2147483649", "4294967295", "4294967296", "0.1", "0.1+0.2", "1/3", "-1/3", "3.14159265358979", "1e15+.5",
           "-1e15-.5", "9007199254740993", ".999999999", "-.0000001", "-0", "0*-1", "99999.95", "999999.5", "1e-5", "123456789"]


class E01(Check):
    prop = "E01"
    context = 11
    quick = 15000
    thorough = 225000
    rule = ("one case = one session or program with 10 to 60 random expressions (operators without parentheses, nested "
            "expressions, every built-in on special values, stack depths around the limit); non-trivial = the model "
            "evaluated at least five expressions; each printed value and each comparison with the exact expected "
            "double is judged")

    def nontrivial(self, e):
        return e.m.ops_done >= 10

    def setup(self, r):
        vals = {}
        lines = []
        for v in ("A", "B", "C", "X", "Y"):
            lines.append("%s=%s" % (v, r.choice(SPECIAL + [str(r.randint(-9, 9))] * 15)))
        return lines

    def flat(self, r):
        """operands and operators without parentheses"""
        n = r.randint(2, 7)
        s = ""
        small = r.random() < 0.6
        ops = r.choice(["+-*/", "+-*/^", "^^-", ["=", "<>", "<", ">", "<=", ">="] + list("+-*/^"),
                        [" AND ", " OR ", "+", "-", "="], [" AND ", " OR ", "=", "<", ">", "<>", "<=", ">=", "+", "-", "*", "/", "^"]])
        for k in range(n):
            if k:
                o = r.choice(list(ops))
                s += o
                if o == "^":
                    s += self.operand(r, small)
                    continue
            if r.random() < 0.25 and s[-1:] != "^":
                if (not s or s.endswith((" AND ", " OR "))) and r.random() < 0.5:
                    s += "NOT " * r.choice([1, 1, 2, 2, 3, 4, 5, 8])
                if r.random() < 0.7:
                    s += "-" * r.choice([1, 1, 1, 2, 3, 4, 5])
            s += self.operand(r, small)
        return s

    def operand(self, r, small):
        x = lit(r)
        if x:
            return x
        if small:
            return r.choice(["1", "2", "3", "4", "5", "0", "7", "10", "A", "B", "(1)", "6"])
        return r.choice(["2", ".5", "1.25", "A", "X", "B", "1e3", "(2-5)", "INT(7.9)", "100", "0.1"])

    def deep(self, r):
        k = r.randint(11, 19)
        t = r.randrange(3)
        if t == 0:
            return "1+(" * k + "1" + ")" * k
        if t == 1:
            return "2^" * k + "1" if r.random() < .5 else "1^" * k + "2"
        return "(" * k + "3" + ")" * k + "+1"

    def fn(self, r):
        f = r.choice("ABS ATN COS EXP INT LOG SGN SIN SQR TAN".split())
        a = r.choice(SPECIAL + [repr(r.uniform(-20, 20)), repr(r.uniform(-1, 1)), "A", "X", "B*C"])
        x = lit(r)
        if x:
            a = r.choice(["", "-"]) + x
        return "%s(%s)" % (rcase(r, f), a)

    def logic(self, r):
        a = ["0", "1", "-1", "255", "256", "2147483647", "-2147483648", "2147483648", "-2147483649", "0.5", "-1.5",
             "1e300", "65535", "-32768", "12345", "1e308*10", "SQR(-1)", "4294967295"]
        b = [str(r.randint(-2**31, 2**31 - 1)) for _ in range(3)]
        x = lit(r)
        if x:
            b = [x, "-" + x, x]
        p = lambda: "(" + r.choice(a + b * 4) + ")"
        return r.choice([lambda: p() + " AND " + p(), lambda: p() + " OR " + p(), lambda: "NOT " + p(),
                         lambda: p() + " AND " + p() + " OR " + p(), lambda: "NOT " + p() + " AND NOT " + p(),
                         lambda: p() + " OR NOT " + p()])()

    def expression(self, r, g):
        k = r.random()
        if k < 0.35:
            return self.flat(r)
        if k < 0.6:
            return g.num(r.choice([1, 2, 2, 3]))
        if k < 0.8:
            return self.fn(r)
        if k < 0.92:
            return self.logic(r)
        return self.deep(r)

    def value(self, r, e, pre):
        """the model's value of expression e after the lines pre, or None"""
        try:
            m = model.Session("", max_ops=2000)
            for l in pre:
                m.interpret(l)
            m.interpret("ZZ=" + e)
            if m.err:
                return None
            return m.names[("ZZ", False)].val
        except (model.Limit, model.Unsure, KeyError):
            return None

    def gen(self, r, i):
        g = G(r, errors=0.05 if i % 3 else 0.0)
        g.numarrs, g.strarrs = ["V"], ["L$"]
        g.rnd = False
        pre = self.setup(r)
        lines = list(pre)
        for _ in range(r.randint(10, 60)):
            e = self.expression(r, g)
            lines.append("PRINT " + e)
            if r.random() < 0.4:
                x = self.value(r, e, pre)
                if x is not None and x == x and abs(x) < 1e308:
                    lit = repr(abs(x))
                    if "e-" in lit or "e+" in lit or "." in lit:
                        pass
                    s = "-" if x < 0 else ""
                    lines.append("PRINT (%s)=(%s%s);(%s)-(%s%s)" % (e, s, lit, e, s, lit))
        if i % 3:
            return session([l for l in lines if fits(l)])
        # a program: the value of each expression in different places
        out = []
        n = 10
        for l in filter(parses, lines):
            if l.startswith("PRINT ") and r.random() < 0.3:
                e = l[6:]
                if ";" in e:
                    e = e.split(";")[0]
                l = r.choice(["Z=%s:PRINT Z", "IF %s THEN PRINT \"T\" ELSE PRINT \"F\"", "FOR Z=%s TO 1E307 STEP 1E308:PRINT Z:NEXT",
                              "W(1)=%s:PRINT W(1)", "PRINT STR$(%s)", "PRINT ABS(%s)", "DEF FNQ(X)=%s:PRINT FNQ(3)"]) % e
            out.append("%d %s\n" % (n, l))
            n += 10
        return batch("".join(out))


class E02(Check):
    prop = "E02"
    context = 11
    quick = 15000
    thorough = 225000
    rule = ("one case = one session or program of 20 to 60 string statements on strings of 0 to 255 characters, among "
            "them the lengths next to the limits and all character codes; every result and its length is printed")

    COUNTS = ["0", "1", "2", "3", "5", "254", "255", "256", "257", "1000", "65535", "65536", "4294967295", "4294967296",
              "-1", "0.5", "1e300", "-0.5", "1.5"]

    def count_arg(self, r, n):
        x = lit(r)
        if x:
            return x
        if r.random() < .04:
            # next to a whole number
            return "%d%s%s" % (r.choice([0, 1, 2, 3, n, 65, 255]), r.choice("+-"), r.choice(["1E-9", "1E-10", "1E-12", "1E-13", "1E-15", "1E-7", "1E-6", ".0001", "1E-300"]))
        return str(r.choice([str(r.randint(0, 12)), str(max(0, n - 1)), str(n), str(n + 1), str(r.randint(0, n + 2)),
                             "LEN(A$)", "LEN(A$)+1", "LEN(A$)-1", r.choice(self.COUNTS)]))

    def lit(self, r, top=60):
        w = word(r)
        if w:
            return '"%s"' % w
        n = r.choice([0, 1, 2, 3, 5, r.randint(0, top)])
        al = r.choice(["ab", "aAbB ", "abcdefghijklmnopqrstuvwxyz0123456789", " .,:;!?'()&%#@^~", "a"])
        return '"%s"' % "".join(r.choice(al) for _ in range(n))

    def strv(self, r):
        return r.choice(["A$", "B$", "C$", "D$(1)", "D$(2)", "E$(1,2)"])

    def sx(self, r, d=2):
        if d == 0:
            return r.choice([self.strv(r), self.strv(r), self.lit(r, 12)])
        k = r.randrange(9)
        a = lambda: self.sx(r, d - 1)
        if k == 0:
            return a()
        if k in (1, 2):
            return a() + "+" + a()
        if k == 3:
            return "%s(%s,%s)" % (rcase(r, "LEFT$"), a(), self.count_arg(r, 10))
        if k == 4:
            return "%s(%s,%s)" % (rcase(r, "RIGHT$"), a(), self.count_arg(r, 10))
        if k in (5, 6):
            return "%s(%s,%s,%s)" % (rcase(r, "MID$"), a(), self.count_arg(r, 5), self.count_arg(r, 10))
        if k == 7:
            return "CHR$(%s)" % r.choice([str(r.randint(1, 255)), str(r.randint(32, 126)), "255", "128", "256", "-1", "65.5", "%d%s%s" % (r.choice([65, 90, 1, 255, 128]), r.choice("+-"), r.choice(["1E-9", "1E-10", "1E-12", "1E-13", "1E-7"])),
                                          "ASC(%s+\"x\")" % a()])
        return "STR$(%s)" % r.choice([str(r.randint(-999, 999)), "1/3", "1e10", "LEN(A$)", r.choice(SPECIAL), "%d*1e%d" % (r.randint(-99, 99), r.randint(-12, 12)), repr(r.uniform(-2, 2))])

    def deep(self, r):
        k = r.randint(5, 10)
        return '"a"+(' * k + '"z"' + ")" * k

    def statement(self, r):
        k = r.randrange(12)
        if k < 3:
            return "%s=%s" % (self.strv(r), self.sx(r, r.choice([1, 2])))
        if k < 6:
            return 'PRINT "[";%s;"]"' % self.sx(r, r.choice([1, 1, 2]))
        if k == 6:
            return "PRINT %s%s%s" % (self.sx(r, 1), r.choice(["=", "<>", "<", ">", "<=", ">="]), self.sx(r, 1))
        if k == 7:
            return "PRINT LEN(%s);ASC(%s)" % (self.sx(r, 1), self.sx(r, 1))
        if k == 8:
            return r.choice(["A$=A$+A$", "B$=B$+A$", "A$=LEFT$(A$,%d)" % r.size([126, 127, 128, 254, 255, r.randint(0, 255)]),
                             "C$=A$+B$", "A$=A$+CHR$(%d)" % r.randint(1, 255), "PRINT LEN(A$+B$)", "A$=A$+\"x\"",
                             "B$=A$:A$=\"new\":PRINT B$", "D$(1)=A$", "A$=RIGHT$(A$,LEN(A$)-1)"])
        if k == 9:
            v = self.strv(r)
            w = self.strv(r)
            rel = r.choice(["=", "<>", "<", ">", "<=", ">="])
            return "PRINT %s%s%s;%s=%s+\"\"" % (v, rel, w, v, v)
        if k == 10:
            return "PRINT " + self.deep(r)
        a = self.lit(r, 6)[:-1]
        return 'PRINT %s"%s%s%s"' % (a, r.choice(["", "a", "A"]), r.choice(["=", "<", ">", "<=", ">=", "<>"]) .join(['"', '"']),
                                     (a[1:] + r.choice(["", "b", "B"])))

    def gen(self, r, i):
        g = r.random()
        lines = ["A$=" + self.lit(r), "B$=" + self.lit(r), "DIM E$(3,3)"]
        n = r.size([255, 254, 128, 127, 253, 200, r.randint(0, 255)])
        # a string of exactly n characters
        if r.random() < 0.6:
            c = r.choice(["x", "ab", "abc", "0123456789"])
            lines.append('C$="":FOR I=1 TO %d:C$=C$+MID$("%s",1+I-INT(I/%d)*%d,1):NEXT' % (n, c, len(c), len(c)))
            lines.append("PRINT LEN(C$)")
            lines.append(r.choice(["A$=C$", "B$=C$", "D$(2)=C$", "A$=LEFT$(C$,LEN(C$)-1)", "REM"]))
        k = r.random()
        if k < 0.1:
            a = r.randint(1, 230)
            lines += ["FOR I=%d TO %d:A$=CHR$(I):PRINT ASC(A$);LEN(A$);A$=CHR$(I);A$<CHR$(I+1);A$>\"A\":NEXT" % (a, a + 25)]
        if k > 0.9:
            a = r.randint(118, 136)
            lines += ["A$=\"ab\":B$=\"ab\"+CHR$(%d):PRINT A$<B$;A$>B$;A$=B$;B$<\"abz\";B$>=\"ab\"" % a,
                      "A$=CHR$(%d)+\"q\":PRINT A$<\"q\";A$>CHR$(%d);MID$(A$,1,1)=CHR$(%d);ASC(A$)" % (a, a - 1, a)]
        if i % 4 == 1:
            # two long strings that differ at one place, or in length by one
            n = r.size([255, 254, 255, 128, 129, 64, 256 - r.randint(1, 20), r.randint(1, 255)])
            p = r.choice([n, n, n - 1, 1, r.randint(1, n), (n + 1) // 2])
            p = max(1, p)
            a, b = r.choice([("A", "B"), ("a", "A"), ("~", " "), ("0", "1")])
            lines.append('A$="":B$="":FOR I=1 TO %d:A$=A$+"k":NEXT:B$=A$:F$=LEFT$(A$,%d)' % (n, n - p))
            lines.append('A$=LEFT$(A$,%d)+"%s"+F$:B$=LEFT$(B$,%d)+"%s"+F$' % (p - 1, a, p - 1, b))
            lines.append("PRINT LEN(A$);LEN(B$);A$=B$;A$<>B$;A$<B$;A$>B$;A$<=B$;A$>=B$;A$=A$+\"\"")
            lines.append("B$=LEFT$(A$,LEN(A$)-1):PRINT A$=B$;A$<>B$;A$<B$;A$>B$;A$<=B$;A$>=B$")
            lines.append("B$=A$:PRINT A$=B$;A$<>B$;A$<B$;A$>B$;A$<=B$;A$>=B$")
        for _ in range(r.randint(20, 50)):
            lines.append(self.statement(r))
        if i % 3:
            return session([l for l in lines if fits(l)])
        return batch("".join("%d %s\n" % (10 * (j + 1), l) for j, l in enumerate(lines)))


def number_text(r):
    """(text, valid)"""
    x = lit(r)
    if x:
        return x
    k = r.randrange(16)
    if k < 3:
        return str(r.randint(0, 10 ** r.size([1, 2, 4, 6, 9, 12, 20, 40])))
    if k < 5:
        return "%d.%s" % (r.randint(0, 10 ** r.choice([1, 3, 9])), "".join(r.choice("0123456789") for _ in range(r.size([0, 1, 3, 8, 17, 30]))))
    if k == 5:
        return ".%s" % "".join(r.choice("0123456789") for _ in range(r.size([1, 2, 7, 20])))
    if k < 9:
        m = r.choice(["1", "9.99", ".5", "123", "4.", "2.2250738585072", "1.7976931348623157", "6.02214076", "0", "00012"])
        return m + r.choice("eE") + r.choice(["", "+", "-"]) + str(r.size([0, 1, 5, 9, 10, 20, 99, 100, 300, 307, 308, 309,
                                                                          320, 323, 324, 400, 5000, r.randint(0, 330)]))
    if k < 12:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(63)))[0]
        if x != x or x in (float("inf"),):
            x = 1.5
        return r.choice(["%r", "%.6g", "%.17g", "%.1f", "%.15e"]) % x if x < 1e80 else repr(x)
    if k == 12:
        return r.choice(["999999", "999999.5", "1000000", "123456.5", "0.0001", "0.00001", "99999.95", "1234567", "0.1",
                         "65535", "4294967296", "1e21", "0.000123456", "1e5", "1e6", "1e-4", "1e-5", "100000", "1e15"])
    if k == 13:
        return "0" * r.size([1, 5, 50]) + str(r.randint(0, 99))
    if k == 14:
        return str(r.randint(0, 9)) * r.size([100, 120, 126, 127])
    return "%g" % r.uniform(0, 10 ** r.randint(-8, 12))


class E03(Check):
    prop = "E03"
    context = 11
    quick = 15000
    thorough = 225000
    rule = ("one case = about 12 number texts of all forms and magnitudes, each as literal, VAL argument, DATA item and "
            "INPUT reply, printed, compared with each other and with the exact double, sent through STR$ and VAL; plus "
            "malformed texts, which must be refused in each place")

    def bad_text(self, r):
        t = number_text(r)[:40]
        return r.choice(["", "abc", t + "x", t + " 1", "--" + t, "+-1", ".", "-", "+", "e5", t + "e", "1.2.3", "$" + t,
                         t + "%", "1e+", ".e1", "- 5", t + ".", "1,", "O", "12a34", t + "-", t + "+1"])

    def gen(self, r, i):
        texts = []
        for _ in range(r.randint(6, 14)):
            t = number_text(r)
            if len(t) > (50 if i % 2 == 0 else 56):
                t = t[:50].rstrip("eE+-")
            texts.append(t)
        if i % 4 == 3:
            return self.errors(r)
        g = lambda t, s: s + t
        if i % 2 == 0:
            lines = []
            for t in texts:
                s = r.choice(["", "", "-"])
                lines += ["A=%s%s" % (s, t), 'B=VAL("%s%s")' % (s, t), "PRINT A;B;A=B;STR$(A);A=%s%s" % (s, t),
                          "INPUT C", s + t, "PRINT C=A;C-B;C", "PRINT VAL(STR$(A))=%s;VAL(STR$(A))" % shown(s + t),
                          "READ D:DATA %s%s" % (s, t), "PRINT D=A;D", "PRINT STR$(%s%s);%s%s" % (s, t, s, t)]
            lines = [l for l in lines]
            return session([l for l in lines if fits(l)])
        lines = []
        stdin = []
        n = 10
        prog = []
        for t in texts:
            s = r.choice(["", "-", "+"])
            lit = (s if s == "-" else "") + t
            prog += ["A=" + lit, 'B=VAL("%s")' % pad(r, s + t), "READ C,D(1)", "INPUT E,F(2)",
                     "PRINT A;B;C;E;A=B;A=C;A=E;A=D(1);A=F(2)", "PRINT STR$(A);\"/\";STR$(E):PRINT VAL(STR$(C))=%s" % shown(s + t)]
            stdin.append(pad(r, s + t, False) + "," + pad(r, s + t, False))
            prog.append("DATA %s,%s" % (pad(r, s + t, False), r.choice(["%s", "%s", '"%s"']) % (s + t)))
        text = "".join("%d %s\n" % (10 * (k + 1), l) for k, l in enumerate(prog))
        if any(len(l) > 126 for l in stdin):
            return None
        return batch(text, "\n".join(stdin) + "\n")

    def errors(self, r):
        lines = []
        for _ in range(r.randint(5, 10)):
            t = self.bad_text(r)
            lines.append('A=7:A=VAL("%s"):PRINT "after";A' % t)
            lines.append("PRINT A")
            lines += ['DATA %s:READ B:PRINT "read";B' % r.choice([t.replace(",", ";"), '"%s"' % t]), "PRINT B",
                      'INPUT "n";N:PRINT "got";N', t, t + ",", str(r.randint(0, 9)), ":"]
            lines[-1] = "PRINT N"
            if r.random() < 0.3:
                lines.append("PRINT " + t)
        return session([l for l in lines if fits(l)])


def shown(t):
    """what is shown for number text t, as a literal"""
    x = float(t)
    s = model.fmt(x)
    if s in ("inf", "-inf"):
        return "-(1E308*10)" if x < 0 else "1E308*10"
    return s


def pad(r, t, val=True):
    return r.choice(["", "", " ", "  "]) + t + r.choice(["", "", " ", "\t" if not val else " "])


WRONG_FN = ["DEF F$(X)=X", "DEF FNA(X)=\"a\"", "DEF FNA(X)=A$", "DEF FNA$(X)=X", "DEF FNA$(P)=LEN(A$)", "DEF FNA=4", "DEF FNA()=4", "DEF FNA(X,Y)=X", "DEF FNA(3)=3", "DEF FNA(X$)=1", "DEF FNA(X)", "DEF FNA(X)=", "DEF", "DEF 5(X)=1",
            "DEF FNA(V(1))=2", "DEF LEN(X)=X", "DEF PRINT(X)=X", "DEF FNA(X)=X,2", "DEF FNA(X)=X PRINT 1", "DEF FNA(X)=X):PRINT 1", "DEF FNA X=2", "DEF FNA(X=2", "DEF FNA(X))=2", "PRINT FNA(\"x\")", "PRINT FNA()", "PRINT FNA(1,2)",
            "PRINT FNA(A$)", "PRINT FNA$(\"3\")", "PRINT FNA", "PRINT FNA$", "PRINT FNA$(B$)", "A$=FNA(1)", "A=FNA$(1)", "PRINT FNA(1", "PRINT FNA 1", "FNA(1)=5", "FNA=7:PRINT FNA;FNA(1)", "FNA$=\"q\":PRINT FNA$;FNA$(1)", "DIM FNA(3)",
            "FNA$(2)=\"z\"", "DIM FNQ(3)", "FNQ(1)=2:PRINT FNQ(1)", "DEF FNQ(X)=X", "DEF V(X)=X", "PRINT FNA+1", "PRINT FNA$+FNA$(1)", "IF FNA$(1) THEN PRINT 1", "FOR I=FNA$(1) TO 2", "DEF FNA(X)=FNA$(X)", "DEF FNA$(X)=FNA(X)",
            "DEF FNA(X)=X+\"a\"", "DEF FNA(FNA)=1", "READ FNA(1)", "INPUT FNA(1)", "DEF FNA%(X)=1", "PRINT TAB(FNA$(1))", "ON FNA$(1) GOTO 10", "DEF X(X)=X*2", "DEF FNB(FNB)=FNB+1:PRINT FNB(1)", "DEF A(A)=A+1:PRINT A(3);A"]


class E05(Check):
    prop = "E05"
    context = 11
    far = 53
    quick = 18750
    thorough = 282000
    events = ("call", "E:function not defined", "E:nested function call")
    rule = ("one case = one program or session defining, redefining and calling one- and two-name numeric and string "
            "functions in every kind of expression, with parameters that are also loop, array and program variables, "
            "with runtime errors inside bodies and arguments; non-trivial = a function was called")

    def fn_body(self, r, p, string, errs):
        if r.random() < 0.2:
            # put together from several, with literals of its own
            a, b = self.fn_body(r, p, string, errs), self.fn_body(r, p, string, False)
            if string:
                return r.choice(['%s+""', '""+%s', '%s+"' + "z" * r.size([0, 1, 2, 20, 100]) + '"', "%s+" + b, 'LEFT$(%s,3)+"."']) % a
            return r.choice(["(%s)+" + b, "(%s)*(" + b + ")", "-(%s)", '(%s)+LEN("")', '(%s)+LEN("' + "z" * r.size([0, 1, 2, 20, 100]) + '")', '(%s)*("a"="")', "(%s)=(" + b + ")",
                             "(%s)+1E-3*(" + b + ")"]) % a
        if string:
            b = r.choice(['"<"+STR$(%s)+">"', 'LEFT$("abcdefgh",%s)', "A$+STR$(%s)", 'MID$("abcdefgh",%s,2)', "B$+CHR$(64+%s)",
                          'RIGHT$(A$+"xyz",%s)', "T$(%s)", '"c"+A$'])
            return b % p if "%s" in b else b
        b = r.choice(["%s*2", "%s+X", "%s*%s", "ABS(%s)-Y", "INT(%s/2)", "V(%s)", "-%s", "(%s>3)", "X", "%s", "LEN(A$)+%s",
                      "%s+Y*X", "SQR(ABS(%s))", "X+%s+X", "%s^2-1", "VAL(STR$(%s))", "(%s AND 7)", "M(%s,1)", "NOT %s"])
        b = b.replace("%s", p)
        if errs and r.random() < 0.3:
            b = r.choice(["FNB(%s)", "FNC(X)+FNA(%s)", "FNA(%s)", "LOG(%s)", "V(%s)", "VAL(A$)+%s", "(%s AND 3)", "ASC(MID$(A$,%s,1))", "FNA(%s)+1", "FNB(%s)", "LEN(FNA$(%s))",
                          "V(%s,%s)", "LEN(LEFT$(A$,%s))", "LEN(CHR$(%s))"]).replace("%s", p)
        return b

    def call(self, r, d=1):
        f = r.choice(["FNA", "FNA", "FNB", "FNC", "fna", "SQUARE"])
        a = r.choice([str(r.randint(-2, 6)), "X", "Y", "P", "X+1", "I", "2*P", "V(1)", "LEN(A$)", "3"])
        if d and r.random() < 0.3:
            a = r.choice([self.call(r, d - 1), "X+" + self.call(r, d - 1), "LEN(%s)" % self.scall(r, d - 1)])
        return "%s(%s)" % (f, a)

    def scall(self, r, d=1):
        f = r.choice(["FNA$", "FNS$", "fns$"])
        a = r.choice([str(r.randint(0, 5)), "X", "P", "LEN(B$)", self.call(r, 0) if d else "2"])
        return "%s(%s)" % (f, a)

    def definition(self, r, errs):
        if r.random() < 0.3:
            f = r.choice(["FNA$", "FNS$"])
            p = r.choice(["X", "P", "K"])
            return "DEF %s(%s)=%s" % (f, p, self.fn_body(r, p, True, errs))
        f = r.choice(["FNA", "FNA", "FNB", "FNC", "Square"])
        p = r.choice(["X", "Y", "P", "K", "I", "x"])
        return "%s %s(%s)=%s" % (rcase(r, "DEF"), f, p, self.fn_body(r, p, False, errs))

    def use(self, r):
        c = self.call(r)
        s = self.scall(r)
        return r.choice([
            "PRINT %s;X;Y;P" % c, "PRINT %s;X;P;K" % s, "X=%s:PRINT X" % c, "P=%s:PRINT P" % c,
            "IF %s>2 THEN PRINT \"gt\" ELSE PRINT \"le\"" % c, "FOR I=1 TO 3:PRINT %s;I:NEXT" % self.call(r, 0),
            "V(%s)=9" % r.choice(["2", "INT(ABS(%s))" % self.call(r, 0)]), "PRINT V(INT(ABS(%s)))" % self.call(r, 0),
            "A$=%s:PRINT A$" % s, "PRINT LEN(%s);%s" % (s, c), "PRINT %s+%s" % (c, self.call(r, 0)),
            "PRINT %s;%s;%s" % (c, self.call(r), s), "PRINT X;Y;P;K;I", "PRINT %s=%s" % (s, self.scall(r)),
            "ON %s GOTO %%L,%%L" % self.call(r, 0), "PRINT TAB(%s);\"*\"" % self.call(r, 0), "FOR X=%s TO 3:PRINT X;%s:NEXT X" % (self.call(r, 0), self.call(r, 0)),
            "X=%d:P=%d:PRINT %s;X;P" % (r.randint(0, 5), r.randint(0, 5), c), "CLEAR:PRINT X;P;%s" % c,
            "LET Y=Y+1:PRINT %s" % c, "M(1,1)=%s:PRINT M(1,1)" % c, "RANDOMIZE INT(ABS(%s))" % c,
            "X(3)=5:PRINT X(3);X;%s" % c, "%s=%s:PRINT %s" % (r.choice("XPKY"), r.choice(["0/0", "1/0", "-1/0", "-0*1", "1E-320", "1E308", "-1E-7"]), c), "PRINT X=X;P=P;K=K;1/X;1/P", "A$=\"%s\"" % r.choice(["", "7", "abc", "12x"]),
        ])

    def gen(self, r, i):
        errs = i % 2 == 0
        items = []
        for f in ("FNA(X)", "FNB(P)", "FNC(Y)", "SQUARE(K)"):
            if r.random() < 0.85:
                items.append("DEF %s=%s" % (f, self.fn_body(r, f[-2], False, False)))
        for f in ("FNA$(X)", "FNS$(P)"):
            if r.random() < 0.85:
                items.append("DEF %s=%s" % (f, self.fn_body(r, f[-2], True, False)))
        for k in range(r.randint(8, 30)):
            items.append(self.definition(r, errs) if r.random() < 0.2 else self.use(r))
        if r.random() < 0.6:
            # several on one line: also a function used, defined again and used again
            joined = []
            for l in items:
                if joined and r.random() < 0.35:
                    joined[-1] += ":" + l
                elif r.random() < 0.06:
                    f, p = r.choice(["FNA", "FNB", "FNA$"]), r.choice("XPK")
                    d = ["DEF %s(%s)=%s" % (f, p, self.fn_body(r, p, f[-1] == "$", False)) for _ in range(3)]
                    u = "PRINT %s(%d)" % (f, r.randint(0, 4))
                    joined.append(":".join(r.choice([[d[0], u, d[1], u], [d[0], d[1], u], ["FOR I=1 TO 2", d[0], u, d[1], u, "NEXT"], [u, d[0], d[1], u, d[2], u]])))
                    joined.append(l)
                else:
                    joined.append(l)
            items = joined
        if i % 4 < 2:
            # session, with a program holding some of the definitions
            lines = []
            prog = []
            for k, l in enumerate(items):
                if r.random() < 0.3 and "%L" not in l:
                    prog.append("%d %s" % (len(prog) * 10 + 10, l))
                    lines.append(prog[-1])
                    if r.random() < 0.3:
                        lines.append("RUN")
                elif "%L" not in l:
                    lines.append(l)
            for _ in range(r.randint(0, 4)):
                k = r.randrange(len(lines))
                lines.insert(k, gen.spoilt(r, lines[k]) if r.random() < .5 else r.choice(WRONG_FN))
            return session([l for l in lines + ["RUN", "PRINT X;Y;P;K;I", "PRINT FNA(2);FNB(3)", "PRINT FNA$(1)"] if fits(l)])
        if r.random() < .15:
            # a body of very many operations
            w = r.size([15, 30, 31, 32, 33, 60, 63, 64, 65, 120, 127, 128, 129, 250, 256, 260])
            p = r.choice("XYP")
            if r.random() < .4:
                f, b = r.choice(["FNA$", "FNS$"]), "+".join(r.choice(["CHR$(64+%s)" % p, '"q"', "A$", "LEFT$(\"abc\",2)"]) for _ in range(w // 3))
            else:
                f, b = r.choice(["FNA", "FNB", "FNC"]), p + "".join(r.choice(["+", "-", "+", "*1+", "+V(1)-"]) + r.choice([p, "1", "2", p, "ABS(%s)" % p]) for _ in range(w))
            k = r.randrange(len(items))
            items[k:k] = ["DEF %s(%s)=%s" % (f, p, b), "PRINT %s(2);%s(%s)" % (f, f, r.choice(["3", "X", "P"]))]
        n = len(items)
        text = ""
        for k, l in enumerate(items):
            while "%L" in l:
                l = l.replace("%L", str(10 * r.randint(k + 2, n + 1)), 1)
            text += "%d %s\n" % (10 * (k + 1), l)
        return batch(text + "%d PRINT X;Y;P;K;I\n" % (10 * (n + 1)))


class E04(Check):
    prop = "E04"
    quick = 22500
    thorough = 338000
    variants = ("plain", "rand")
    rule = ("one case = programs drawing 20 to 200 random numbers, judged without a model: the same seed must give the "
            "same sequence again (later in the run after arbitrary statements, in another program, from the prompt, "
            "with any dummy argument), different seeds different sequences, values in [0,1) also when the C library "
            "returns the extremes of its range, and spread over the interval; a third of the cases are whole programs and "
            "sessions with RND and RANDOMIZE in every kind of place, compared with the sequences of the C library")
    assumptions = ["seeds 0 and 1 may coincide (they do in the C library)"]

    STUFF = ["A$=\"x\"+STR$(3)", "PRINT \"#\";", "V(3)=7", "Z=SIN(2)", "FOR K=1 TO 3:NEXT K", "GOSUB 9000", "READ D$",
             "RESTORE", "DEF FNR(T)=T*2", "Z=FNQ(3)", "IF Z>0 THEN Z=1 ELSE Z=2", "ON 5 GOTO 9000", "W$(2)=MID$(\"abc\",2,1)",
             "PRINT TAB(3);1/3", "REM x", "DIM Q9(20)", "INPUT E$", "Z=VAL(\"12\")", "LET Z=LEN(\"abc\")", "Z=2^0.5"]
    DUMMY = ["RND", "RND(1)", "RND(0)", "RND(-1)", "rnd", "RND()", "RND(\"x\")", "RND(A$)", "RND(Z)", "RND(1E30)", "Rnd(2*Z+1)",
             "RND(-Z)", "RND(LEN(\"ab\"))", "RND(.5)", "RND(100)"]

    def seed_value(self, r):
        return r.choice([r.randint(0, 10), r.randint(0, 70000), r.randint(0, 2**32 - 1), 4294967295, 2**31, 2**31 - 1, 65535,
                         65536, 255, 256, 32768])

    def run(self, text, exe="plain", stdin="a\nb\nc\nd\ne\nf\ng\nh\n", opts=("-q",)):
        c = batch(text, stdin, opts)
        self.runs += 1
        return c, run_case(self.exe[exe], c)

    def bad_run(self, c, res):
        return abnormal(res) or (res.rc != 0 and "exit status %r" % res.rc) or (res.err and "error: " + res.err[:300])

    def one(self, i):
        r = self.rng(i)
        if i % 3 == 1:
            return self.judge_case(self.anywhere(r))
        return self.judge_kind(r.randrange(7), r.randrange(1 << 30))

    def anywhere(self, r):
        """RND and RANDOMIZE in any program and session: the model knows the sequences of the C library"""
        p = gen.Prog(r, errors=r.choice([0, 0, 0.02]), size=r.size([6, 10, 15, 25, 40]), stops=r.choice([0, 0, 1]))
        p.rndw = 3
        a = self.seed_value(r)
        p.seeds = (a, a, a, self.seed_value(r), r.randint(0, 9))
        p.build()
        if r.random() < 0.5:
            return batch(p.text, p.stdin(), max_ops=20000)
        lines = ["LOAD \"p\""]
        for _ in range(r.randint(1, 5)):
            lines.append("RUN")
            lines += p.replies[:20]
            lines += r.sample(["PRINT RND", "STOP", "CONT", "CONT", "RANDOMIZE %d" % a, "RANDOMIZE %d:PRINT RND;RND" % a, "CLEAR", "PRINT LOG(0)", "CONT", "X=", "10 REM", "SAVE \"q\"", "GOSUB 10",
                               "FOR I=1 TO 3:PRINT RND:NEXT", "PRINT FNA(RND)", "RANDOMIZE -%d" % a, "RANDOMIZE -1", "RANDOMIZE .5", "RANDOMIZE 4294967296", "RANDOMIZE %d.25" % a, "RANDOMIZE 1E300", "RANDOMIZE \"a\"", "A=RND(\"x\"):PRINT A", "NEW", "LOAD \"p\"", "RENUM"], r.randint(1, 6))
        return session(lines + ["PRINT RND;RND"], files={"p": p.text}, max_ops=20000)

    def replay(self, case):
        if case["mode"] != "relation":
            return self.judge_case(case)
        return self.judge_kind(case["kind"], case["k"])

    def shrink(self, case):
        return case if case["mode"] == "relation" else shrink(self, case)

    def judge_kind(self, kind, k):
        r = literals.Random(k)
        self.runs = 0
        case = Case(mode="relation", kind=kind, k=k)
        bad = [self.again, self.across, self.unseeded, self.prompt, self.seeds, self.range, self.spread][kind](r, case)
        st = {"kind %d" % kind: 1, "draws": self.draws}
        return Outcome("bad" if bad else "ok", case, bad or "", stats=st, runs=self.runs)

    tail = "8990 END\n9000 Z=Z+1:RETURN\n9020 X=RND:RETURN\n9030 DATA a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t\n"

    def stuff(self, r):
        return r.choice(self.STUFF)

    def again(self, r, case):
        """the sequence again, later in the run"""
        n = r.randint(20, 200)
        s = self.seed_value(r)
        self.draws = 2 * n
        lines = ["DIM R(%d):DEF FNQ(T)=T+1:DEF FNR0(T)=RND" % n]
        if r.random() < 0.5:
            lines.append("RANDOMIZE %d" % self.seed_value(r))
        lines += [r.choice(["RANDOMIZE %d", "RANDOMIZE (%d)", "RANDOMIZE %d+0"]) % s,
                  "FOR I=1 TO %d" % n, "R(I)=RND", "NEXT I"]
        for _ in range(r.randint(0, 6)):
            lines.append(r.choice([self.stuff(r), "Z=RND", "RANDOMIZE %d" % self.seed_value(r)]))
        nest = []
        for q in range(r.choice([0, 0, 1, 2, 4, 5])):
            nest.append("FOR Q%d=1 TO 1" % q)
        for _ in range(r.choice([0, 0, 1, 2, 4, 6])):
            nest.append("GOSUB %d")
        r.shuffle(nest)
        for x in nest:
            lines.append(x % (10 * len(lines) + 20) if "%d" in x else x)
        lines += ["S=%d:RANDOMIZE S" % s, "FOR I=1 TO %d" % n]
        for _ in range(r.randint(0, 3)):
            x = self.stuff(r)
            if not x.startswith(("READ", "INPUT", "DIM")):
                lines.append(x)
        d = r.choice(self.DUMMY)
        lines += [r.choice(["X=%s", "X=%s", "GOSUB 9020", "X=FNR0(0)", "IF 1 THEN X=%s ELSE X=9", "X=0:IF 0 THEN X=7 ELSE X=%s", "X(1)=%s:X=X(1)", "X=-(-%s)", "X=(%s)+0", "FOR X=%s TO 0:NEXT X", "X=3:X=FNQ(%s)-1:IF ABS(X-R(I))<1E-9 THEN X=R(I)"]).replace("%s", d),
                  "IF X<>R(I) THEN PRINT \"DIFFERENT\";I;X;R(I)",
                  "IF X<0 OR X>=1 THEN PRINT \"RANGE\";X", "NEXT I", "PRINT \"DONE\""]
        text = "".join("%d %s\n" % (10 * j + 10, l) for j, l in enumerate(lines)) + self.tail
        c, res = self.run(text)
        case["prog"] = text
        bad = self.bad_run(c, res)
        if bad:
            return bad
        if "DIFFERENT" in res.out or "RANGE" in res.out:
            return "sequence after RANDOMIZE %d: %s" % (s, res.out[-300:])
        if "DONE" not in res.out:
            return "INCOMPLETE " + res.out[-200:]

    def drawing(self, r, n, dummies=True):
        """lines printing n draws between marks, with other things in between"""
        ls = []
        for k in range(n):
            if r.random() < 0.3:
                ls.append(self.stuff(r).replace("INPUT E$", "Z=5").replace("DIM Q9(20)", "Z=6"))
            d = r.choice(self.DUMMY) if dummies else "RND"
            ls.append("X=%s:PRINT:PRINT \"@\";X;X*1048576-INT(X*1048576)" % d)
        return ls

    def draws_of(self, out):
        return [l for l in out.split("\n") if l.startswith("@")]

    def across(self, r, case):
        """the same seed in two programs"""
        n = r.randint(10, 30)
        self.draws = 2 * n
        s = self.seed_value(r)
        got = []
        for j in range(2):
            lines = ["DEF FNQ(T)=T"] + [r.choice([self.stuff(r), "Z=RND", "RANDOMIZE %d" % self.seed_value(r)])
                                        for _ in range(r.randint(0, 5))]
            lines.append("RANDOMIZE %d" % s)
            lines += self.drawing(r, n)
            lines = [l if not l.startswith("READ") or lines.count(l) < 18 else "REM" for l in lines]
            text = "".join("%d %s\n" % (10 * k + 10, l) for k, l in enumerate(lines)) + self.tail
            opts = ["-q"] + r.choice([[], [], ["-z"], ["-g"], ["-m"]])
            c, res = self.run(text, opts=opts)
            case["prog%d" % j] = text
            bad = abnormal(res)
            if bad:
                return bad
            got.append(self.draws_of(res.out))
        if len(got[0]) != n or len(got[1]) != n:
            return "draws missing: %d and %d of %d" % (len(got[0]), len(got[1]), n)
        if got[0] != got[1]:
            return "seed %d gave %r and %r" % (s, got[0][:5], got[1][:5])

    def unseeded(self, r, case):
        """a program that never randomizes, in several processes"""
        n = r.randint(10, 30)
        self.draws = 3 * n
        got = []
        for j in range(3):
            lines = ["DEF FNQ(T)=T"] + self.drawing(r, n)
            text = "".join("%d %s\n" % (10 * k + 10, l) for k, l in enumerate(lines)) + self.tail
            case["prog%d" % j] = text
            c, res = self.run(text)
            bad = abnormal(res)
            if bad:
                return bad
            got.append(self.draws_of(res.out))
        if not (got[0] == got[1] == got[2]) or len(got[0]) != n:
            return "not randomized, but %r, %r, %r" % (got[0][:4], got[1][:4], got[2][:4])

    def prompt(self, r, case):
        """RANDOMIZE and draws in a session, with commands in between"""
        n = r.randint(5, 15)
        s = self.seed_value(r)
        self.draws = 3 * n
        draw = "PRINT:PRINT \"@\";%s"
        lines = ["10 FOR I=1 TO %d:PRINT:PRINT \"@\";RND:NEXT" % n]
        if r.random() < .5:
            lines.append("PRINT RND")
        lines += ["RANDOMIZE %d" % s]
        for k in range(n):
            lines.append(draw % r.choice(self.DUMMY))
            if r.random() < 0.4:
                lines.append(r.choice(["CLEAR", "X=", "LIST", "GOTO 9", "20 REM", "PRINT LOG(0)", "30", "SAVE \"f\"", "A=3",
                                       "LOAD \"none\"", "RENUM", "COMPILE", "RESTORE", "CONT"]))
        lines += ["RANDOMIZE %d" % s, "RUN", "NEW", "5 PRINT 1", "RANDOMIZE %d" % s, "RUN"]
        for k in range(n):
            lines.append(draw % "RND")
        c = session(lines)
        case["stdin"] = c["stdin"]
        self.runs += 1
        res = run_case(self.exe["plain"], c)
        bad = abnormal(res)
        if bad:
            return bad
        d = self.draws_of(res.out)
        if len(d) != 3 * n:
            return "draws missing: %d of %d" % (len(d), 3 * n)
        if not (d[:n] == d[n:2 * n] == d[2 * n:]):
            return "seed %d at the prompt: %r, %r, %r" % (s, d[:4], d[n:n + 4], d[2 * n:2 * n + 4])

    def seeds(self, r, case):
        """pairwise different sequences"""
        base = r.size([0, 1, 2, r.randint(0, 2**31)])
        ss = {base + d for d in (0, 1, 2, 3, 7, 10, 100, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 131072, 2**24, 2**30)}
        ss |= {r.randint(0, 2**32 - 1) for _ in range(10)}
        ss.discard(0)
        ss = sorted(ss)
        r.shuffle(ss)
        text = "10 READ S:RANDOMIZE S\n20 PRINT \"@\";S:PRINT RND;RND;RND;RND\n30 GOTO 10\n"
        for k, s in enumerate(ss):
            text += "%d DATA %d\n" % (100 + k, s)
        self.draws = 4 * len(ss)
        case["prog"] = text
        c, res = self.run(text)
        bad = abnormal(res)
        if bad:
            return bad
        ls = res.out.split("\n")
        seqs = [ls[k + 1] for k, l in enumerate(ls) if l.startswith("@")]
        if len(seqs) != len(ss):
            return "sequences missing: %d of %d: %s" % (len(seqs), len(ss), res.err[:200])
        seen = {}
        for s, q in zip(ss, seqs):
            if q in seen:
                return "seeds %d and %d give the same sequence %s" % (s, seen[q], q)
            seen[q] = s

    def range(self, r, case):
        """extreme values of the library's generator"""
        n = r.randint(100, 400)
        self.draws = n
        text = ("10 %s\n20 FOR I=1 TO %d:X=%s\n30 IF X<0 OR X>=1 THEN PRINT \"RANGE\";X\n40 IF INT(6*X)>5 THEN PRINT \"DIE\"\n"
                "50 NEXT\n60 PRINT \"DONE\"\n" % (r.choice(["REM", "RANDOMIZE %d" % self.seed_value(r)]), n, r.choice(self.DUMMY)))
        case["prog"] = text
        for exe in ("rand", "plain"):
            c, res = self.run(text, exe=exe)
            bad = self.bad_run(c, res)
            if bad:
                return bad
            if res.out != "DONE\n":
                return "value outside [0,1): " + res.out[:200]

    def spread(self, r, case):
        """the interval is covered evenly, whatever the seed"""
        s = self.seed_value(r)
        n = 4000
        self.draws = n
        text = ("10 DIM H(20):RANDOMIZE %d\n20 FOR I=1 TO %d:K=INT(RND*20):H(K)=H(K)+1:NEXT\n"
                "30 FOR I=0 TO 19:PRINT H(I);:NEXT\n" % (s, n))
        case["prog"] = text
        c, res = self.run(text)
        bad = self.bad_run(c, res)
        if bad:
            return bad
        h = [int(x) for x in res.out.split()]
        if sum(h) != n or len(h) != 20:
            return "histogram of seed %d: %r" % (s, h)
        # expected 200 each, standard deviation about 14: 8 deviations
        if min(h) < 90 or max(h) > 310:
            return "seed %d is not spread over [0,1): %r" % (s, h)
