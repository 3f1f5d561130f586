"""V01 V02 C01 C02 C03 C04 C05: variables and control flow."""
import os
import random
import re
import select
import subprocess
import tempfile
import shutil
import time

import gen
import literals
import model
from gen import G, Prog, rcase, numbers
from harness import *
from props_expr import fits, parses


def prog(lines, nums=None):
    return "".join("%d %s\n" % (nums[k] if nums else 10 * k + 10, l) for k, l in enumerate(lines))


class V01(Check):
    prop = "V01"
    context = 11
    quick = 12000
    thorough = 180000
    rule = ("one case = one program or session with 3 to 2500 distinct names of all kinds (same letters as number, string, "
            "array and string array, names that differ only at the end, any letter case) receiving random stores, then "
            "everything is printed; arrays of one and two dimensions up to the size limit, automatic dimensions, "
            "redimensioning, and every kind of wrong subscript followed by a look at all cells")

    SPECIAL = ["0*-1", "-0", "SQR(-1)", "1E308*10", "-1E308*10", "1E-310", "-1E-320", "0.1", "-7", "1E308*10-1E308*10", "123456789", "1/3", "2^0.5", "65536", "-32768.5"]

    def names(self, r, n):
        out = []
        seen = set()
        style = r.randrange(5)
        while len(out) < n:
            if style == 0:
                s = r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + r.choice(["", str(r.randint(0, 9)), r.choice("ABCXYZ")])
                if len(seen) > 300:
                    style = 1
            elif style == 1:
                s = "V" + str(r.randint(0, 20 * n))
            elif style == 2:
                s = "NAME" + "X" * r.size([0, 1, 10, 100]) + str(r.randint(0, 9 * n))
            elif style == 3:
                s = "".join(r.choice("abcdefgh") for _ in range(r.randint(2, 5)))
            else:
                s = "".join(r.choice("ABab12") for _ in range(r.randint(4, 9)))
                s = "Q" + s
            if s.upper() in seen or s.upper() in model.KEYSET or s.upper() in model.BUILTINS or s.upper() in ("SPC", "TAB") \
                    or s.upper() + "$" in model.BUILTINS:
                continue
            seen.add(s.upper())
            out.append(s)
        return out

    def many(self, r):
        n = r.choice([3, 20, 62, 63, 64, 65, 100, 128, 129, 292, 293, 294, 400, 600, r.size([1000, 2500])])
        names = self.names(r, n)
        cells = []
        for s in names:
            k = r.randrange(6)
            if k == 5:
                cells += [s, s + "$", s + "(%d)" % r.randint(0, 10), s + "$(%d)" % r.randint(0, 10)]
            else:
                cells.append([s, s + "$", s + "(%d)" % r.randint(0, 10), s + "$(%d,%d)" % (r.randint(0, 10), r.randint(0, 10)),
                              s + "(%d,%d)" % (r.randint(0, 10), r.randint(0, 10))][k])
        lines = []
        order = cells[:]
        r.shuffle(order)
        for j, c in enumerate(order + r.sample(cells, min(len(cells), 20))):
            v = '"s%d"' % j if "$" in c else str(j)
            if r.random() < .03:
                v = r.choice(['""', '"s"+CHR$(200)', '" s "', 'LEFT$("abc",0)']) if "$" in c else r.choice(self.SPECIAL)
            lines.append("%s=%s" % (rcase(r, c), v))
        r.shuffle(cells)
        for k in range(0, len(cells), 4):
            lines.append("PRINT " + ";".join(rcase(r, c) for c in cells[k:k + 4]))
            if r.random() < 0.05:
                lines.append("CLEAR")
        return batch(prog(lines, list(range(1, len(lines) + 1))), max_ops=100000)

    def aliasing(self, r):
        """few names, all kinds, long random history, all cells printed again and again"""
        a, b = r.choice([("A", "B"), ("X", "XX"), ("N1", "N2"), ("LONGNAMEONE", "LONGNAMETWO"), ("I", "J"), ("AB", "BA"), ("A", "A1")])
        d2 = (r.randint(1, 4), r.randint(1, 6))
        d1 = r.randint(0, 6)
        cells = [a, b, a + "$", b + "$"]
        lines = ["DIM %s(%d,%d),%s$(%d)" % (a, d2[0], d2[1], a, d1), "DIM %s(%d),%s$(%d,%d)" % (b, d1, b, d2[1], d2[0])]
        cells += ["%s(%d,%d)" % (a, i, j) for i in range(d2[0] + 1) for j in range(d2[1] + 1)]
        cells += ["%s$(%d,%d)" % (b, i, j) for j in range(d2[0] + 1) for i in range(d2[1] + 1)]
        cells += ["%s(%d)" % (b, i) for i in range(d1 + 1)] + ["%s$(%d)" % (a, i) for i in range(d1 + 1)]
        dump = ["FOR Z=0 TO %d:FOR Y=0 TO %d:PRINT %s(Z,Y);%s$(Y,Z);:NEXT Y:NEXT Z:PRINT" % (d2[0], d2[1], a, b),
                "FOR Z=0 TO %d:PRINT %s(Z);%s$(Z);:NEXT Z:PRINT %s;%s;%s$;%s$" % (d1, b, a, a, b, a, b)]
        stdin = []
        for k in range(r.randint(10, 60)):
            c, d = r.choice(cells), r.choice(cells)
            t = r.randrange(8)
            if t < 4:
                lines.append("%s=%s" % (rcase(r, c), ('"v%d"' if "$" in c else "%d") % k if r.random() < .9 else '""' if "$" in c else r.choice(self.SPECIAL)))
            elif t == 4 and ("$" in c) == ("$" in d):
                lines.append("%s=%s" % (rcase(r, c), rcase(r, d)))
            elif t == 5:
                lines.append("READ %s:DATA %d" % (c, k + 1000))
            elif t == 6:
                lines.append("INPUT %s" % c)
                stdin.append(str(k + 2000))
            elif t == 7 and "$" not in c:
                lines.append("%s=%s+%d" % (rcase(r, c), rcase(r, c), k))
            if r.random() < 0.04:
                lines.append(r.choice(["CLEAR:DIM %s(%d,%d),%s$(%d):DIM %s(%d),%s$(%d,%d)" % (a, d2[0], d2[1], a, d1, b, d1, b, d2[1], d2[0]),
                                       "DIM %s(%d,%d)" % (a, d2[0], d2[1]), "DIM %s$(%d)" % (a, d1)]))
            if r.random() < 0.15:
                lines += dump
        return batch(prog(lines + dump), "\n".join(stdin) + "\n", max_ops=100000)

    BADSUB = ["-1", "0.5", "1e10", "-0.5", "1e300", "4294967296", "4294967295", "65536", "2^32", "11", "12", "1.5", "-1e-9",
              "SQR(-1)", "1E308*10", "-1E308*10"]

    def bounds(self, r):
        """wrong uses in a session: reported, and nothing stored"""
        lines = []
        kinds = []
        for n, s in (("A", ""), ("B", ""), ("C", "$"), ("D", "$")):
            d = r.choice([(r.randint(0, 12),), (r.randint(0, 5), r.randint(0, 5)), None, None])
            if d:
                lines.append("DIM %s%s(%s)" % (n, s, ",".join(map(str, d))))
            else:
                d = r.choice([(10,), (10, 10)])
                if r.random() < 0.5:
                    # first use above 10
                    u = tuple(r.size([3, 10, 11, 15, 40]) for _ in d)
                    lines.append("%s%s(%s)=%s" % (n, s, ",".join(map(str, u)), '"u"' if s else "1"))
                    d = tuple(max(10, x) for x in u)
            kinds.append((n + s, d))
        for _ in range(r.randint(15, 40)):
            n, d = r.choice(kinds)
            sub = [str(r.choice([0, m, m, r.randint(0, m)])) for m in d]
            if r.random() < 0.5:
                k = r.randrange(len(d))
                sub[k] = r.choice([str(d[k] + 1), str(d[k] + 2), r.choice(self.BADSUB)])
            if r.random() < 0.1:
                sub = r.choice([sub[:1], sub + ["1"], sub * 2])
            e = "%s(%s)" % (n, ",".join(sub))
            v = '"w%d"' % len(lines) if "$" in n else str(len(lines))
            lines.append(r.choice(["%s=%s" % (e, v), "PRINT " + e, "%s=%s" % (e, v), "READ %s:DATA 77" % e, "%s=%s:PRINT %s" % (e, v, e)]))
            if r.random() < 0.2:
                n, d = r.choice(kinds)
                k = [str(x) for x in d]
                if r.random() < 0.6:
                    k[-1] = r.choice(self.BADSUB[:8] + ["70000", "65535", "99999"])
                lines.append("DIM %s(%s)" % (n, ",".join(k)))
        for n, d in kinds:
            if len(d) == 1:
                lines.append("FOR I=0 TO %d:PRINT %s(I);:NEXT:PRINT" % (d[0], n))
            else:
                lines.append("FOR I=0 TO %d:FOR J=0 TO %d:PRINT %s(I,J);:NEXT J:NEXT I:PRINT" % (d[0], d[1], n))
        return session([l for l in lines if fits(l)])

    def redim(self, r):
        """arrays dimensioned again and again, with fewer, more, and other dimensions"""
        lines = []
        for n, s in (("A", ""), ("B", "$")):
            for _ in range(r.randint(2, 6)):
                d = [r.choice([0, 1, 2, 3, 4, 5, 9, 10, 15]) for _ in range(r.randint(1, 2))]
                if r.random() < .15:
                    lines.append(r.choice(["CLEAR", "RUN" if False else "CLEAR", "%s%s=%s" % (n, s, '"q"' if s else "9")]))
                    if r.random() < .5:
                        d = [10] * len(d)
                        lines.append("%s%s(%s)=%s" % (n, s, ",".join(str(r.randint(0, 10)) for _ in d), '"auto"' if s else "-1"))
                    else:
                        lines.append("DIM %s%s(%s)" % (n, s, ",".join(map(str, d))))
                else:
                    lines.append("DIM %s%s(%s)" % (n, s, ",".join(map(str, d))))
                dump = "PRINT %s%s;%s%s(%s);" % (n, s, n, s, ",".join("IJ"[:len(d)]))
                dump = "FOR I=0 TO %d:%sNEXT:PRINT" % (d[0], dump + ":" if len(d) == 1 else "FOR J=0 TO %d:%s:NEXT:" % (d[1], dump))
                lines.append(dump)
                for _ in range(r.randint(0, 6)):
                    lines.append("%s%s(%s)=%s" % (n, s, ",".join(str(r.randint(0, m)) for m in d), '"w%d"' % len(lines) if s else str(len(lines))))
                lines.append(dump)
        if r.random() < .5:
            return session([l for l in lines if fits(l)], max_ops=60000)
        return batch(prog(lines), max_ops=60000)

    def big(self, r):
        """arrays up to 65536 elements"""
        lines = []
        for n in ("A", "B$"):
            d = r.choice([(65535,), (65534,), (255, 255), (256, 254), (1, 32767), (32767, 1), (0, 65535), (65535, 0), (r.randint(100, 40000),),
                          (r.randint(2, 255), r.randint(2, 255)), (65536,), (256, 255), (255, 256), (3, 16384), (2, 21845), (2, 21844),
                          self.wild(r)])
            lines.append("DIM %s(%s)" % (n, ",".join(map(str, d))))
            cs = set()
            for _ in range(12):
                cs.add(tuple(r.choice([0, 1, m, m - 1 if m else 0, m // 2, r.randint(0, m)]) for m in d))
            cs = sorted(cs)
            r.shuffle(cs)
            for k, c in enumerate(cs):
                lines.append("%s(%s)=%s" % (n, ",".join(map(str, c)), '"t%d"' % k if "$" in n else str(k + 1)))
            for c in cs:
                lines.append('PRINT "<";%s(%s);">"' % (n, ",".join(map(str, c))))
            bad = list(d)
            k = r.randrange(len(d))
            bad[k] += 1
            lines.append("PRINT %s(%s)" % (n, ",".join(map(str, bad))))
        return session([l for l in lines if fits(l)])

    def wild(self, r):
        """dimensions whose product may be anything, also when counted in 16 or 32 bits"""
        e = lambda: max(0, r.choice([0, 1, 2, 3, 15, 255, 256, 4095, 32767, 65535, 65536, 131071, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32 // 3, r.randint(0, 70000)]) + r.choice([0, 0, 0, -1, 1]))
        return (e(), e()) if r.random() < .8 else (e(),)

    def gen(self, r, i):
        return [self.many, self.aliasing, self.bounds, self.aliasing, self.bounds if i % 12 == 4 else self.redim, self.big][i % 6](r)


class V02(Check):
    prop = "V02"
    context = 11
    quick = 15000
    thorough = 225000
    events = ("cmd RUN", "CLEAR")
    rule = ("one case = a session running a program that shows uninitialised variables, arrays, functions, DATA position, "
            "active loops and subroutines, two to five times, with statements, errors, STOPs, edits and CLEARs in "
            "between; each RUN is compared with the model's clean run and with the other runs of the same text")

    def probe(self, r, k):
        """lines that show state left over"""
        g = G(r, errors=0, casing=False)
        c = [
            ["PRINT A;B;A$;B$;X", "A=A+1:B=5:A$=A$+\"z\":B$=\"q\""],
            ["PRINT Z1;Z2;Z3;V(7)", "Z1=%s:Z2=%s:V(7)=%s" % tuple(r.choice(["0/0", "1/0", "-1/0", "-0*1", "1E-320", "1E308", "-1", "2^31"]) for _ in range(3)), "IF Z1=Z1 THEN PRINT Z1 ELSE PRINT \"not\""],
            ["PRINT V(3);V(10);L$(2)", "V(3)=V(3)+7:L$(2)=\"x\""],
            ["READ D1,D2$:PRINT D1;D2$", "DATA 1,one,2,two,3,three"],
            ["DIM W(%d):PRINT W(1)" % r.randint(1, 20), "W(1)=4"],
            ["PRINT W(10)"],
            ["DEF FNA(X)=X+A:PRINT FNA(2)"],
            ["DEF FNUM$(X)=STR$(X)+A$:PRINT FNUM$(2)"], ["DEF FNCAT$(X$)=X$+A$:PRINT FNCAT$(\"p\")"],
            ["IF A>3 THEN PRINT \"big\" ELSE PRINT \"small\""],
            ["FOR I=1 TO 3:PRINT I;:IF I=2 THEN A=I", "NEXT I"],
            ["FOR K=1 TO 4", "PRINT K;"],
            ["GOSUB 5000", "PRINT \"back\""],
            ["M(1,2)=3:PRINT M(0,0);M(1,2)"],
            ["PRINT TAB(5);\"T\";"],
            ["CLEAR", "PRINT A;A$;V(3)"],
        ]
        return r.choice(c)

    def last(self, r):
        return r.choice([["PRINT FNA(1)"], ["NEXT"], ["RETURN"], ["NEXT I"], ["STOP"], ["END"], [], [], ["V(50)=1"], ["PRINT W(11)"],
                         ["GOSUB 5010"], ["READ D1,D1,D1"], ["PRINT LOG(A-A)"], ["GOTO 5"], ["PRINT \"no newline\";"], ["FOR Q=1 TO 2"],
                         ["PRINT FNB(2)"], ["PRINT FNUM$(1)"], ["PRINT FNCAT$(\"q\")"]])

    DISTURB = ["Z1=0/0:Z2=1/0:V(7)=0/0", "Z3=0/0:CLEAR:PRINT Z3;V(7)", "Z3=0/0:V(7)=-1/0:PRINT V(7)", "A=99:B=98:A$=\"dirty\":B$=\"d\"", "V(3)=55:L$(2)=\"dirt\":X=9", "DIM V(3)", "DIM W(40):W(1)=77", "READ A", "FOR I=1 TO 9",
               "DEF FNA(X)=X*1000", "DEF FNB(X)=X*7", "DEF FNUM$(X)=STR$(X*1000)", "DEF FNCAT$(X$)=X$+\"!\":PRINT FNCAT$(\"d\")", "GOSUB 5000", "PRINT LOG(0)", "STOP", "CONT", "RESTORE 5020", "NEXT", "RETURN", "PRINT \"abc\";",
               "A=1:GOTO 5000", "GOTO 5000", "LIST 5000", "FOR K=1 TO 1E9:IF K<5 THEN NEXT", "CLEAR", "M(3,3)=4", "SAVE \"f\"", "syntax error here", "PRINT A;B;A$", "COMPILE", "READ D2$:DATA zz",
               "DIM M(0,0)", "FOR I=5 TO 1 STEP -1:PRINT I;", "I=3:K=4"]

    MODES = ["RETURN", "NEXT", "NEXT K", "NEXT I", "READ D1:PRINT D1:END", "PRINT FNA(1)", "PRINT W(12);W(1)", "GOSUB %d", "GOSUB %d:PRINT \"back\":RETURN",
             "FOR K=1 TO 3:GOSUB %d:NEXT:RETURN", "DIM W(30):DEF FNA(X)=X+7:READ D1,D1:W(1)=5:GOSUB %d", "FOR I=1 TO 2:FOR K=1 TO 2:PRINT LOG(0)",
             "GOSUB %d:STOP", "FOR I=1 TO 3:STOP:NEXT:PRINT I", "PRINT \"abc\";:STOP", "PRINT TAB(3);\"x\"", "INPUT M:RETURN", "FOR K=1 TO 2:END", "GOTO %d",
             "A=A+1:PRINT A;B:B=7:A$=A$+\"x\":PRINT A$:GOTO %d"]
    SUBS = ["STOP:RETURN", "END", "PRINT LOG(0)", "RETURN", "PRINT \"s\":STOP:PRINT \"t\":RETURN", "FOR K=5 TO 6:RETURN", "GOSUB 5%02d", "NEXT", "STOP", "READ D1:RETURN"]

    def modes(self, r):
        """what a run does is chosen by its input: each run may leave what another would find"""
        n = r.randint(4, 9)
        out = ["10 INPUT M", "20 ON M GOTO %s" % ",".join(str(1000 + 10 * k) for k in range(n)), "30 PRINT \"none\":END"]
        for k in range(n):
            m = r.choice(self.MODES)
            out.append("%d %s" % (1000 + 10 * k, m % (5000 + r.randint(0, 4)) if "%d" in m else m))
            out.append("%d END" % (1005 + 10 * k))
        for k in range(5):
            s = r.choice(self.SUBS)
            out.append("%d %s" % (5000 + k, s.replace("5%02d", "500%d" % r.randint(0, 4))))
        out.append("6000 DATA 8,9,10,11,12")
        cmds = []
        for k in range(r.randint(3, 9)):
            cmds += ["RUN", str(r.randint(1, n))]
            if r.random() < 0.25:
                cmds.append(r.choice(["CONT", "A=99:B=98", "V(3)=55", "PRINT A;B;A$;W(1)", "RESTORE", "READ A:PRINT A", "FOR I=1 TO 9", "PRINT FNA(2)", "LIST 10", "PRINT \"a\";"]))
        return session(out + cmds)

    def wide(self, r):
        """very many names, every one of them cleared"""
        n = r.size([5, 40, 63, 64, 65, 128, 300, 700])
        names = set()
        while len(names) < n:
            x = r.choice("ABCDEGHJKLMNPQRSUVWXYZ") + "".join(r.choice("ABQXYZ0123456789") for _ in range(r.choice([1, 1, 1, 2, 3, 8, 30])))
            if x not in names and x not in model.KEYSET and x not in model.BUILTINS and not x.startswith("FN"):
                names.add(x)
        names = sorted(names)
        r.shuffle(names)
        kinds = [(x, r.choice(["", "", "$", "(1)", "$(2)", "(3,4)"])) for x in names]
        put = ["%s%s=%s" % (x, k, "\"s%d\"" % j if "$" in k else str(j + 1)) for j, (x, k) in enumerate(kinds)]
        get = ["IF %s%s<>%s THEN PRINT \"%s%s\"" % (x, k, "\"\"" if "$" in k else "0", x, k) for x, k in kinds]
        c = r.choice(["CLEAR", "REM", "REM", "IF T=1 THEN CLEAR"])
        out = ["10 PRINT \"first\""] + ["%d %s" % (20 + j, g) for j, g in enumerate(get)]
        k = 20 + len(get)
        for j in range(0, len(put), 6):
            out.append("%d %s" % (k, ":".join(put[j:j + 6])))
            k += 1
        out.append("%d T=%d:%s:PRINT \"second\"" % (k, r.randint(0, 1), c))
        sample = r.sample(kinds, min(len(kinds), 20))
        for x, t in kinds if c == "CLEAR" else sample:
            k += 1
            out.append("%d IF %s%s<>%s THEN PRINT \"%s%s\"" % (k, x, t, "\"\"" if "$" in t else "0", x, t))
        show = "PRINT " + ";".join(x + t for x, t in sample[:8])
        cmds = ["LOAD \"p\"", "RUN", show, "RUN", "RUN", show] + r.choice([[], ["CLEAR", show, "RUN"], ["5 REM", "RUN", show]])
        return session(cmds, files={"p": "\n".join(out) + "\n"}, max_ops=60000)

    def gen(self, r, i):
        if i % 40 == 7:
            return self.wide(r)
        if i % 4 == 1:
            return self.modes(r)
        lines = []
        for k in range(r.randint(2, 6)):
            lines += self.probe(r, k)
        lines += self.last(r)
        n = 10
        out = []
        for l in lines:
            out.append("%d %s" % (n, l))
            n += 10
        out += ["4990 END", "5000 PRINT \"sub\";A:RETURN", "5010 GOSUB 5010", "5020 DATA 8,eight,9,nine"]
        cmds = ["RUN"]
        for k in range(r.randint(1, 4)):
            for _ in range(r.randint(0, 4)):
                cmds.append(r.choice(self.DISTURB))
            if r.random() < 0.15:
                cmds.append(r.choice(["15 REM edited", "5000 PRINT \"sub\";A:RETURN", "10", "4000 PRINT \"more\""]))
            cmds.append("RUN")
        if r.random() < 0.3:
            cmds += ["CLEAR", "PRINT A;A$;V(3);B;L$(2)", r.choice(["PRINT FNA(1)", "PRINT FNUM$(1)", "PRINT FNCAT$(A$)"]), "CONT"]
        if i % 8 == 4:
            return session(self.new(r, out))
        return session(out + cmds)

    def new(self, r, out):
        """NEW, with and without a program, compiled or not, run or not, and what is left of the old names"""
        show = ["PRINT A;A$;V(3);B;L$(2)", "PRINT A$;B;X", "PRINT FNA(1)", "PRINT FNB(2)", "PRINT FNUM$(1)", "PRINT FNCAT$(\"n\")", "NEXT", "NEXT I", "RETURN", "CONT", "READ A$:PRINT A$", "DIM V(3):PRINT V(3)", "RUN", "LIST", "V(3,3)=1:PRINT V(3,3)", "COMPILE", "RESTORE 5020",
                "PRINT W(12)", "W(11)=1", "A=A+1:PRINT A", "10 PRINT A;V(3)", "GOTO 5000", "GOSUB 5000", "M(1)=1:PRINT M(1)", "DEF FNA(X)=X+A:PRINT FNA(1)", "FNB=4:PRINT FNB", "CLEAR"]
        cmds = []
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.5:
                cmds += r.sample(out, r.randint(0, min(6, len(out)))) if r.random() < .3 else out if r.random() < .6 else []
            for _ in range(r.randint(0, 5)):
                cmds.append(r.choice(self.DISTURB + ["RUN", "RUN"]))
            cmds.append(r.choice(["NEW", "NEW", "new", "NEW  ", "NEW X", "New"]))
            for _ in range(r.randint(1, 5)):
                cmds.append(r.choice(show))
        return cmds


class C01(Check):
    prop = "C01"
    context = 11
    far = 53
    quick = 9000
    thorough = 135000
    events = ("GOTO", "GOSUB", "RETURN", "ON")
    rule = ("one case = one program of 3 to 3000 lines whose every line reports itself and jumps at random by GOTO, GOSUB, "
            "ON, THEN and RETURN, also from the middle of lines and into the deepest subroutine level, with line numbers "
            "of every pattern up to 65535 and beyond, some targets missing; the order of lines and statements is judged")

    def maze(self, r):
        n = r.size([3, 8, 20, 60, 127, 128, 129, 200, 400])
        nums = numbers(r, n)
        m = r.random() < 0.2
        left = r.size([30, 100, 300])
        lines = ["T=T+1:IF T>%d THEN END" % left]
        tgt = lambda: nums[0] if r.random() < 0.02 else nums[r.randrange(n)]
        if m:
            tgt2 = tgt
            tgt = lambda: r.choice([tgt2(), tgt2(), tgt2(), r.randint(1, 65535)])
        for k in range(1, n):
            tag = "PRINT %d;" % k
            cnt = "T=T+1:IF T>%d THEN END" % left
            t = r.randrange(12)
            if t < 3:
                s = "%s:GOTO %d" % (tag, tgt())
            elif t < 5:
                s = "%s:GOSUB %d:PRINT \"r%d\";" % (tag, tgt(), k)
            elif t == 5:
                s = "%s:GOSUB %d:GOSUB %d:PRINT \"x%d\";:RETURN" % (tag, tgt(), tgt(), k)
            elif t == 6:
                s = "%s:ON %d GOTO %s" % (tag, r.randint(0, 4), ",".join(str(tgt()) for _ in range(r.randint(1, 4))))
            elif t == 7:
                s = "%s:ON T-3*INT(T/3) GOSUB %d,%d:PRINT \"o%d\";" % (tag, tgt(), tgt(), k)
            elif t == 8:
                s = "%s:IF T-2*INT(T/2)=0 THEN %d" % (tag, tgt())
            elif t == 9:
                s = "%s:IF T-2*INT(T/2)=0 THEN GOSUB %d%s ELSE PRINT \"e\";:GOTO %d" % (tag, tgt(), r.choice([":PRINT \"t%d\";" % k, ":PRINT \"t%d\";" % k, "", ":GOSUB %d" % tgt()]), tgt())
                if r.random() < .3:
                    s += r.choice([" ELSE PRINT \"f\";", ":PRINT \"g\";"]) if ":GOTO" not in s else ":PRINT \"h\";"
            elif t == 10:
                s = "%s:RETURN:PRINT \"never\"" % tag
            else:
                s = "%s:FOR I%d=1 TO 2:GOSUB %d:NEXT I%d" % (tag, k % 7, tgt(), k % 7)
            # every line counts itself, on its own part
            if ":IF" in s or ":ON" in s or r.random() < 1:
                s = "T=T+1:IF T>%d THEN PRINT \"end\":END ELSE GOSUB %d" % (left, nums[0]) if r.random() < 0.01 else s
            lines.append(s)
        # the counter: each line starts by counting
        lines[0] = "REM"
        lines = [lines[0]] + ["T=T+1:" + l for l in lines[1:]]
        opts = ["-q"] + (["-t"] if r.random() < 0.3 else [])
        return batch(prog(lines, nums), opts=opts, max_ops=3000)

    def chain(self, r):
        """a permutation of many lines, each visited once"""
        n = r.size([50, 130, 256, 500, 1000, 3000])
        nums = numbers(r, n + 1)
        perm = list(range(n))
        r.shuffle(perm)
        nxt = {}
        for a, b in zip(perm, perm[1:] + [n]):
            nxt[a] = b
        lines = []
        for k in range(n):
            t = nums[nxt[k]]
            lines.append("PRINT %d;:%s" % (k, r.choice(["GOTO %d" % t, "IF 1 THEN %d" % t, "ON 1 GOTO %d" % t,
                                                      "IF 0 THEN PRINT \"no\" ELSE GOTO %d" % t, "GOTO %d:PRINT \"no\"" % t,
                                                      "ON 2 GOTO %d,%d" % (nums[0], t)])))
        lines.append("PRINT \"end\"")
        text = prog(lines, nums)
        if perm[0] != 0:
            text = prog(["GOTO %d" % nums[perm[0]]] + lines, [nums[0] - 1] + nums) if nums[0] > 1 else text
        return batch(text, max_ops=100000)

    def nesting(self, r):
        """subroutines nested to the limit and beyond"""
        d = r.choice([1, 3, 7, 8, 8, 9, 12])
        nums = numbers(r, 4 * d + 8)
        lines = ["PRINT \"start\":GOSUB %d:PRINT \"main\":GOSUB %d:PRINT \"again\"" % (nums[3], nums[3]), "PRINT \"last\"", "END"]
        for k in range(d):
            call = "ON 1 GOSUB %d" if r.random() < .3 else "GOSUB %d"
            nextl = nums[3 + 3 * (k + 1)]
            lines.append("PRINT \"in%d\";" % k)
            lines.append(("%s:PRINT \"out%d\";" % (call % nextl, k)) if k < d - 1 else "PRINT \"deep\"")
            lines.append("RETURN")
        return batch(prog(lines, nums[:len(lines)]))

    def recursion(self, r):
        """recursion by a counter: returns go to the right place each time"""
        d = r.randint(1, 8)
        lines = ["N=%d" % d, "GOSUB 40:PRINT \"done\";N", "END", "IF N=0 THEN RETURN", "PRINT \"down\";N", "N=N-1:GOSUB 40:PRINT \"a\";N;:%s" %
                 r.choice(["GOSUB 90:PRINT \"b\";", "PRINT", "ON 1 GOSUB 90,40:PRINT \"c\";"]), "N=N+0", "RETURN", "PRINT \"s\";:RETURN"]
        return batch(prog(lines), max_ops=20000)

    def high(self, r):
        """line numbers above 65535 exist and are executed in order"""
        nums = sorted(r.sample(range(65500, 66000), 6) + [r.randint(70000, 4294967294)])
        lines = ["PRINT %d" % n for n in nums]
        if nums[0] <= 65535:
            lines[-1] += ":C=C+1:IF C<3 THEN %d" % nums[0]
        if r.random() < .4:
            lines[2] = "PRINT \"e\":GOTO %d" % (nums[4] % 65536 or 1)
        return batch(prog(lines, nums), opts=["-q", "-t"])

    def left(self, r):
        """programs that end, stop or fail within subroutines, which the prompt may return from"""
        d = r.randint(1, 8)
        lines = ["10 PRINT \"main\":GOSUB 100:PRINT \"back main\"", "20 " + r.choice(["PRINT \"main 2\"", "GOSUB 100", "STOP"]), "30 END"]
        for k in range(d):
            n = 100 + 20 * k
            if k < d - 1:
                lines += ["%d PRINT \"in\";%d:GOSUB %d:PRINT \"out\";%d" % (n, k, n + 20, k), "%d RETURN" % (n + 10)]
            else:
                lines += ["%d PRINT \"deep\":%s:PRINT \"on\"" % (n, r.choice(["END", "END", "STOP", "PRINT LOG(0)", "IF C<2 THEN C=C+1:END", "IF C<2 THEN C=C+1:STOP", "GOTO 64999", "END"])), "%d RETURN" % (n + 10)]
        cmds = ["RUN"]
        for _ in range(r.randint(2, 12)):
            cmds.append(r.choice(["RETURN", "RETURN", "RETURN", "RETURN:PRINT \"no\"", "GOTO %d" % r.randrange(110, 110 + 20 * d, 20), "GOSUB 100:PRINT \"typed\"", "CONT", "PRINT C", "RUN", "GOTO 10", "GOTO 100",
                                  "IF 1 THEN RETURN", "END", "GOSUB %d" % r.randrange(100, 100 + 20 * d, 20), "ON 1 GOSUB 100,110:PRINT \"o\"", "C=9", "NOSUCH(", "LIST 10", "STOP", "CLEAR"]))
        return session(lines + cmds, max_ops=4000)

    def edited(self, r):
        """runs with edits in between: the same jumps lead to lines that have moved in the code"""
        n = r.choice([2, 3, 5, 8, 12])
        nums = numbers(r, n + 2)
        tgt = lambda: r.choice(nums[1:-1])

        def line(k):
            return r.choice(["PRINT %d;:GOTO %d" % (k, tgt()), "PRINT %d;:GOTO %d" % (k, tgt()), "PRINT %d;:GOSUB %d:PRINT \"r%d\";" % (k, tgt(), k), "PRINT %d;:IF N<9 THEN %d" % (k, tgt()),
                             "PRINT %d;:ON N-3*INT(N/3) GOTO %d,%d" % (k, tgt(), tgt()), "PRINT %d;:PRINT \"x\";" % k, "REM", "PRINT %d;:RETURN" % k, "PRINT %d" % k])
        cur = {nums[0]: "GOTO %d" % tgt(), nums[-1]: "PRINT \"end\""}
        for k in range(1, n + 1):
            cur[nums[k]] = "N=N+1:IF N>20 THEN END ELSE " + line(k)
        cmds = ["%d %s" % x for x in cur.items()] + ["RUN"]
        for j in range(r.randint(2, 10)):
            k = r.randint(1, n)
            a = "%d N=N+1:IF N>20 THEN END ELSE %s" % (nums[k], r.choice([line(k), "PRINT \"%s\";:%s" % ("z" * r.size([1, 10, 40]), line(k)), ":" * r.randint(1, 30) + line(k)]))
            cmds.append(r.choice([a, a, a, "%d" % nums[k], "%d PRINT \"between\";" % (nums[k] + 1), "GOTO %d" % tgt(), "GOSUB %d" % tgt(), "N=5:GOTO %d" % tgt(), "RENUM", "LIST", "CLEAR"]))
            if r.random() < .7:
                cmds.append(r.choice(["RUN", "RUN", "GOTO %d" % tgt(), "GOTO %d" % nums[1]]))
        return session([c for c in cmds if fits(c)] + ["RUN"], max_ops=8000)

    def immediate(self, r):
        if r.random() < .5:
            return self.left(r)
        if r.random() < .5:
            return self.edited(r)
        lines = ["10 PRINT \"ten\":GOSUB 50:PRINT \"ten2\"", "20 PRINT \"twenty\":END", "30 PRINT \"thirty\":RETURN", "40 GOTO 20",
                 "50 PRINT \"fifty\":RETURN", "60 PRINT \"sixty\":GOSUB 60"]
        cmds = ["GOTO 20", "GOSUB 30", "GOSUB 30:PRINT \"back\"", "GOTO 40", "GOSUB 50:GOSUB 30:PRINT \"x\"", "ON 2 GOSUB 10,50:PRINT \"y\"", "GOTO 25", "GOSUB 60",
                "RETURN", "IF 1 THEN 30", "GOTO 10", "RUN", "GOSUB 10:PRINT \"z\"", "ON 1 GOTO 40:PRINT \"n\"", "FOR I=1 TO 3:GOSUB 30:NEXT", "END:PRINT \"n\"", "PRINT \"p\":END:PRINT \"q\""]
        return session(lines + [r.choice(cmds) for _ in range(r.randint(4, 12))])

    def gen(self, r, i):
        return [self.maze, self.chain, self.nesting, self.maze, self.recursion, self.immediate, self.maze, self.high, self.maze][i % 9](r)

    def expectation(self, case):
        return expect(case)

    def judge_case(self, case):
        # a maze may go on for ever: judge the part before the model's step limit
        if case is None:
            return Outcome("skip")
        try:
            e = expect(case)
        except model.Unsure as x:
            return Outcome("skip", case, detail=str(x))
        except model.Limit:
            return self.prefix(case)
        return super().judge_case(case)

    def prefix(self, case):
        """Endless program: the real output, cut by a step budget, must agree with the model's as far as both go"""
        m = model.Machine(case.get("stdin", ""), trace=case.trace, max_ops=case.get("max_ops", 3000))
        m.source = model.parse_file(case["prog"])
        try:
            m.run_program()
        except model.Limit:
            pass
        want = "".join(m.out)
        res = run_case(self.exe["plain"], case, env={"LB_STEPS": str(case.get("max_ops", 3000) * 3)})
        if res.rc not in (97, 0):
            return Outcome("bad", case, "exit status %r, %r" % (res.rc, abnormal(res)))
        k = min(len(want), len(res.out))
        if want[:k] != res.out[:k]:
            return Outcome("bad", case, "output " + diff_text(want[:k], res.out[:k]))
        if res.rc == 0 or "Runtime error" in res.err:
            return Outcome("bad", case, "ended, but must go on: %r %r" % (res.out[-100:], res.err[:200]))
        return Outcome("ok", case, stats=m.stats)


class C02(Check):
    prop = "C02"
    context = 11
    far = 53
    quick = 18750
    thorough = 282000
    events = ("FOR",)
    rule = ("one case = one program of nested, overlapping, abandoned, re-entered and modified FOR loops with integer, "
            "fractional, negative and zero steps, NEXT with none, one or several variables, up to and beyond the nesting "
            "limit; every iteration and the final values of the variables are printed and judged")

    VARS = ["I", "J", "K", "L", "M", "N", "P", "Q", "R", "S"]

    def value(self, r):
        return r.choice([str(r.randint(-5, 10)), "%d.5" % r.randint(0, 3), "A", "A+1", "-A", "J", "B/2", "0.1", "INT(A/2)", "1/3", ".3", "(A*2)"])

    def head(self, r, v):
        a = r.randint(-4, 6)
        k = r.randrange(10)
        if k < 4:
            s = "%d TO %d" % (a, a + r.randint(-2, 4))
        elif k < 6:
            s = "%d TO %d STEP %s" % (a, a - r.randint(-2, 4), r.choice(["-1", "-1", "-2", "-.5", "-3", "-0.1*10"]))
        elif k < 7:
            s = "%s TO %s STEP %s" % (r.choice(["0", "0.1", "1"]), r.choice(["1", ".5", "2", "0.3"]), r.choice([".1", ".25", "0.2", ".3", "1/3"]))
        elif k < 8:
            s = "%s TO %s" % (self.value(r), self.value(r))
        elif k < 9:
            s = "%s TO %s STEP %s" % (self.value(r), self.value(r), r.choice(["1", "-1", "2", "A", "1-A", "B"]))
        else:
            s = "%s TO %s+2" % (v, v)
        return "FOR %s=%s" % (rcase(r, v), s)

    def body(self, r, vs):
        k = r.randrange(10)
        show = "PRINT " + ";".join(vs) + ";\"/\";"
        if k < 6:
            return show
        v = r.choice(vs)
        return r.choice([show + ":%s=%s+1" % (v, v), show + ":A=A+1", show + ":B=B-1", show + ":IF %s>2 THEN %s=9" % (v, v), show + ":%s=%s+.5" % (v, v),
                         "A=%s:" % v + show, "IF %s=2 THEN PRINT \"two\";" % v, show + ":%s=%s" % (r.choice(self.VARS[:4]), v)])

    def nest(self, r, d, vs, out):
        v = r.choice([x for x in self.VARS if x not in vs] or self.VARS) if r.random() < 0.93 else r.choice(self.VARS)
        vs = vs + [v]
        one = r.random() < 0.15
        if one:
            out.append("%s:%s:NEXT%s" % (self.head(r, v), self.body(r, vs), r.choice(["", " " + v])))
            return
        out.append(self.head(r, v))
        out.append(self.body(r, vs))
        k = 0
        while d > 0 and (k == 0 or r.random() < 0.3):
            self.nest(r, d - 1, vs, out)
            k += 1
        t = r.random()
        if t < 0.1:
            out.append("IF %s>%d THEN @%d@" % (v, r.randint(0, 3), len(out) + 2))     # leave early
        w = r.random()
        if w < 0.4:
            out.append("NEXT")
        elif w < 0.85:
            out.append("NEXT " + rcase(r, v))
        elif w < 0.92 and len(vs) > 1:
            out.append("NEXT %s,%s" % (v, vs[-2]))
        else:
            out.append("NEXT " + r.choice(vs))
        if r.random() < 0.3:
            out[-1] += ":PRINT \"after\";" + v

    def random(self, r):
        out = ["A=%d:B=%d" % (r.randint(0, 4), r.randint(-2, 3))]
        for _ in range(r.randint(1, 3)):
            self.nest(r, r.choice([0, 1, 1, 2, 2, 3]), [], out)
        out.append("PRINT:PRINT I;J;K;L;M;N;A;B")
        return self.finishp(r, out)

    def finishp(self, r, out, **kw):
        n = len(out)
        nums = numbers(r, n + 2)
        text = ""
        for k, l in enumerate(out):
            l = re.sub(r"@(\d+)@", lambda m: str(nums[min(int(m.group(1)), n)]), l)
            text += "%d %s\n" % (nums[k], l)
        text += "%d PRINT \"end\";I;J;K\n" % nums[n]
        return batch(text, max_ops=4000, **kw)

    def soup(self, r):
        """loops started and closed in no particular order, bounded by a counter"""
        out = []
        n = r.randint(5, 25)
        for _ in range(n):
            v = r.choice(self.VARS[:r.choice([2, 4, 10])])
            k = r.randrange(10)
            if k < 4:
                s = self.head(r, v) + (":PRINT \"%s\";%s;" % (v, v) if r.random() < .5 else "")
            elif k < 8:
                s = r.choice(["NEXT", "NEXT " + v, "NEXT " + v, "NEXT %s,%s" % (v, r.choice(self.VARS[:3]))])
            elif k == 8:
                s = "PRINT I;J;K;\"/\";"
            else:
                s = "IF A<3 THEN A=A+1:GOTO @%d@" % r.randint(0, n)
            out.append("C=C+1:IF C>200 THEN END ELSE " + s if s.startswith(("NEXT", "IF")) else s)
        return self.finishp(r, out)

    def deep(self, r):
        d = r.choice([6, 7, 8, 8, 8, 9, 10])
        steps = r.random() < .6
        vs = r.sample(self.VARS, 10)[:d]
        out = []
        for v in vs:
            n = r.choice([1, 1, 1, 2, 2, 3])
            a, st = r.randint(-3, 3), r.choice([1, 1, 2, -1, .5, -.5, 3, -7])
            if steps and r.random() < .6:
                out.append("FOR %s=%d TO %s STEP %s:PRINT \"%s\";%s;" % (v, a, a + st * (n - 1) + r.choice([0, 0, st * .25]), r.choice([str(st), "%s*1" % st]), v, v))
            else:
                out.append("FOR %s=1 TO %d:PRINT \"%s\";" % (v, n, v))
        if r.random() < 0.3:
            out.append("FOR %s=5 TO 6:PRINT \"re\";" % r.choice(vs))
        if r.random() < 0.3:
            out.append("GOSUB @%d@" % (len(out) + 2) + ":GOTO @%d@" % (len(out) + 3))
            out.append("REM")
            out.append("PRINT \"sub\";:RETURN")
        if r.random() < 0.4:
            # subroutines entered on the way in, and not left before the loops
            k = r.randint(1, min(8, d))
            new = []
            for j, l in enumerate(out):
                new.append(l)
                if k > 0 and l.startswith("FOR") and r.random() < .5 and "@" not in "".join(out):
                    k -= 1
                    new.append("GOSUB @%d@" % (len(new) + 2))
                    new.append("PRINT \"ret\":END")
            out = new
        if r.random() < .5:
            out.append("NEXT " + ",".join(reversed(vs)))
        else:
            for v in reversed(vs):
                out.append("NEXT" + r.choice(["", " " + v]))
        out.append("PRINT " + ";".join(vs))
        out.append("FOR Z9=1 TO 2:PRINT Z9:NEXT")
        return self.finishp(r, out)

    def zero(self, r):
        out = ["FOR I=1 TO %d STEP 0" % r.randint(-1, 3), "C=C+1:PRINT C;I;", "IF C=%d THEN I=%d" % (r.randint(1, 4), r.randint(0, 9)),
               "IF C>8 THEN @5@", "NEXT I", "PRINT \"out\";I", "FOR I=1 TO 2:PRINT I:NEXT"]
        return self.finishp(r, out)

    def immediate(self, r):
        lines = ["10 FOR I=1 TO 3", "20 PRINT \"p\";I;A", "30 " + r.choice(["STOP", "PRINT", "A=A+1", "END", "IF I=2 THEN STOP"]), "40 NEXT", "50 PRINT \"done\";I"]
        cmds = ["RUN", "NEXT", "NEXT I", "CONT", "FOR I=1 TO 3:PRINT I:NEXT", "FOR J=1 TO 2:GOSUB 20:NEXT J", "PRINT I;J", "I=5", "FOR K=2 TO 1:PRINT K:NEXT", "NEXT J",
                "FOR I=1 TO 2:FOR J=1 TO 2:PRINT I;J:NEXT J,I", "GOTO 40", "FOR I=1 TO 2", "NEXT:PRINT \"n\"", "CLEAR", "A=2"]
        return session(lines + [r.choice(cmds) for _ in range(r.randint(4, 14))], max_ops=5000)

    def scaled(self, r):
        """loops over very small and very large numbers, and differences next to the limit"""
        out = []
        for _ in range(r.randint(2, 5)):
            v = r.choice(self.VARS[:4])
            u = r.choice(["1E-300", "1E-15", "1E-15", "2E-16", "1E-9", "1E-7", "1E-5", "1E7", "16777216", "1E10", "1E15", "9007199254740992", "1E16", "1E300", "4294967296", "65536", "32768"])
            a, b, c = r.randint(-3, 3), r.randint(-3, 5), r.choice([1, 1, 1, -1, 2, .5, -.5, .1, .3])
            k = r.randrange(4)
            if k == 0:
                h = "FOR %s=%d*%s TO %d*%s STEP %s*%s" % (v, a, u, b, u, c, u)
            elif k == 1:
                h = "FOR %s=%s TO %s+%d STEP %s" % (v, u, u, b, c)
            elif k == 2:
                h = "FOR %s=%d TO %d+%s" % (v, a, b, u if "-" in u else "1E-16")
            else:
                h = "FOR %s=%d TO %d STEP %d+%s" % (v, a, b, 1, u if "-" in u else "1E-12")
            out += ["C=0", h, "C=C+1:PRINT C;%s;%s-%d;\"/\";:IF C>9 THEN @%d@" % (v, v, a, len(out) + 4), "NEXT" + r.choice(["", " " + v]), "PRINT C;" + v]
        return self.finishp(r, out)

    def gen(self, r, i):
        if i % 16 == 4:
            return self.scaled(r)
        return [self.random, self.random, self.soup, self.deep, self.random, self.soup, self.immediate, self.zero][i % 8](r)


class C04(Check):
    prop = "C04"
    context = 11
    far = 53
    quick = 18750
    thorough = 282000
    events = ("runtime error",)
    rule = ("one case = one program or session in which statements fail in every documented way at a random place (middle of "
            "a line, of a PRINT or READ list, of a subroutine, loop, IF part, function body); output up to the failure, the "
            "single message, the line named and the end of the run are judged; non-trivial = a runtime error occurred")

    FAIL = ["PRINT \"x\";LOG(0)", "PRINT LOG(-1);\"y\"", "A=VAL(\"abc\")", "PRINT \"a\";CHR$(256)", "V(11)=1", "PRINT V(-1)", "PRINT V(1,1)", "PRINT LEFT$(A$,-1)",
            "PRINT MID$(\"abc\",0,1)", "PRINT MID$(\"abc\",4,1)", "A$=B$+B$", "GOTO 64999", "GOSUB 64999", "ON 1.5 GOTO 10", "NEXT Q9", "NEXT ZZ", "RETURN",
            "READ A,B,A$,A,A,A,A", "PRINT 1;NOT 0.5", "PRINT 1E10 AND 1", "DIM W(70000)", "DIM W(-1)", "PRINT FNZ(1)", "PRINT FNE(1)", "RESTORE 64999", "RANDOMIZE -1",
            "PRINT TAB(-1)", "PRINT \"k\";SPC(.5)", "RANDOMIZE .5", "A=7:B=8:A=A+FNE(2):B=9", "PRINT FNN(1)", "READ V(50)", "INPUT V(99)", "FOR X1=1 TO FNE(0)", "A$=FNE$(9)",
            "IF LOG(0) THEN PRINT \"t\" ELSE PRINT \"f\"", "ON LOG(0) GOTO 10", "PRINT 1;2;3;VAL(\"\"),4", "PRINT STR$(1/0)+CHR$(1E9)", "A=1:V(A/2)=3:A=2", "DEF FNZ(X)=X:PRINT FNZ(LOG(0))",
            "ON 1 GOSUB 64998", "PRINT V(FNE(1))", "A=B^LOG(0)", "PRINT \"q\":PRINT M(1,11)", "LET A$=MID$(A$,LEN(A$)+1,1)", "PRINT A$;B$;RIGHT$(B$,1E10)",
            "PRINT VAL(B$)", "PRINT VAL(B$+A$)", "PRINT VAL(LEFT$(B$+B$,%d))", "READ A:DATA %s", "%s(99)=1", "DIM %s(-1)", "PRINT %s(1,2)", "PRINT FN%s(1)", "NEXT %s", "%s$(11)=A$"]

    def gen(self, r, i):
        g = Prog(r, size=r.choice([3, 6, 12]), errors=0.0)
        g.fns = []
        p = g.build()
        lines = [l for _, l in p.out]
        nums = [n for n, _ in p.out]
        # put failing statements in
        if i % 3 != 2:
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(lines))
                f = self.fail(r)
                if lines[k].startswith(("DATA", "REM")) or "REM" in lines[k]:
                    lines[k] = f + ":PRINT \"never\""
                else:
                    parts = lines[k]
                    t = r.randrange(4)
                    if t == 0:
                        lines[k] = f + ":" + parts
                    elif t == 1:
                        lines[k] = parts + ":" + f + ":PRINT \"never\""
                    elif t == 2:
                        lines[k] = "IF A=A THEN PRINT \"then\":%s:PRINT \"never\" ELSE PRINT \"else\"" % f
                    else:
                        lines[k] = "FOR Y9=1 TO 3:%s:NEXT Y9" % f if not f.startswith("NEXT") else f
            pre = [(1, "DEF FNE(X)=LOG(X*0)"), (2, "DEF FNN(X)=FNE(X)"), (3, 'DEF FNE$(X)=LEFT$("abc",-X)'),
                   (4, "A$=\"s\":B$=\"%s\"" % ("b" * 100)), (5, "B$=B$+LEFT$(B$,%d)" % r.size([27, 28, 100]))]
            base = r.size([6, 100, 1000])
            text = prog([l for _, l in pre], [n for n, _ in pre])
            shift = max(0, base - nums[0])
            order = sorted(set(nums))
            if nums[0] <= 5 or nums[-1] + 5 > 65535:
                mp = {n: 10 * (k + 1) for k, n in enumerate(nums)}
                lines = [self.remap(l, mp) for l in lines]
                nums = [mp[n] for n in nums]
            pick = sorted(r.sample(range(len(pre)), r.randint(0, len(pre))))
            text = "".join("%d %s\n" % pre[k] for k in pick)
            text += "".join("%d %s\n" % (n, l) for n, l in zip(nums, lines) if len(l) < 250)
            return batch(text, p.stdin(), opts=["-q"] + (["-t"] if r.random() < .2 else []), max_ops=20000)
        # session: fails again and again, everything goes on
        out = ["10 PRINT \"run\":A=5", "20 DEF FNE(X)=LOG(X*0)", "30 DEF FNE$(X)=LEFT$(\"abc\",-X)", "40 " + self.fail(r), "50 PRINT \"end\":END", "60 PRINT \"sub\":%s:RETURN" % self.fail(r),
               "70 DATA 1,2,x"]
        for _ in range(r.randint(5, 25)):
            out.append(r.choice(["RUN", "GOSUB 60:PRINT \"n\"", "PRINT A;B;A$", "CONT", self.fail(r), "PRINT \"i\":%s:PRINT \"n\"" % self.fail(r), "GOTO 40", "A=3:B=4", "50 STOP:%s:PRINT \"m\"" % self.fail(r), "40 PRINT 4:STOP:" + self.fail(r), "40 PRINT 5",
                                 "FOR I=1 TO 2:%s:NEXT" % self.fail(r), "PRINT FNE(3)", "60 PRINT 1:" + self.fail(r)]))
            if "STOP" in out[-1]:
                out += ["RUN"] + r.choice([[], [], ["B=B+1"], ["PRINT LOG(0)"]]) + ["CONT"]
        return session([l for l in out if fits(l)])

    def remap(self, l, mp):
        return re.sub(r"\b(\d+)\b", lambda m: str(mp.get(int(m.group(1)), m.group(1))) if False else m.group(1), l)

    def fail(self, r):
        f = r.choice(self.FAIL)
        if "%d" in f:
            f = f % r.choice([100, 158, 159, 160, 200, 255])
        elif "%s" in f:
            w = "Q" * r.size([20, 90, 130, 150, 180, 210])
            f = f % (w * 3 if f[:2] == "%s" and r.random() < .2 else w)
        return f


class C05(Check):
    prop = "C05"
    context = 11
    far = 53
    quick = 18750
    thorough = 282000
    events = ("IF", "GOTRUE", "ON")
    rule = ("one case = about 25 lines of IF statements (nested in THEN and ELSE parts up to four deep, line numbers and "
            "statements in both parts, statements after GOTO parts) and ON statements with values in and around the list, "
            "every part printing its own tag; the sequence of tags is judged")

    def cond(self, r):
        return r.choice(["0", "1", "-1", "A", "B", "A=B", "A<>B", "A>1", "NOT A=1", "A AND B", "A OR B", '"a"="a"', 'A$="x"', 'A$<>""', "0.1", "1E-300", "A-A",
                         "-0", "(A=1) AND (B=2)", "NOT (A OR B)", "2-2", ".5-.5", "A$>\"w\"", "1E308*10", "SQR(-1)", "INT(.9)"])

    def tag(self):
        self.n += 1
        return "PRINT \"%d\";" % self.n

    def stmt(self, r):
        k = r.randrange(10)
        if k < 6:
            if r.random() < .08:
                # declarations have no effect on where execution goes
                return r.choice(["", self.tag() + ":"]) + r.choice(["DATA 1,2", "DATA x", "DATA", 'DATA "a,b",c', "DEF FNA(X)=X+%d" % r.randint(0, 9), 'DEF FNB$(X$)=X$+"b"', "REM r",
                                                                  "READ V$:PRINT V$;", "PRINT FNA(1);", "RESTORE", "'c", "DATA 1 ELSE 2", "DEF FNA(X)=-X:" + self.tag()])
            return self.tag()
        if k == 6:
            return self.tag() + ":A=A+1"
        if k == 7:
            return "A=%d:B=%d" % (r.randint(0, 2), r.randint(0, 2))
        if k == 8:
            return r.choice(["", "REM x" if False else "", self.tag() + ":GOSUB @S@:" + self.tag()])
        return "FOR I=1 TO 2:%s:NEXT" % self.tag()

    def part(self, r, d):
        parts = [self.stmt(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if d > 0 and r.random() < 0.5:
            parts.append(self.if_(r, d - 1))
        elif r.random() < 0.15:
            parts.append("GOTO @F@")
        return ":".join(parts)

    def if_(self, r, d):
        c = self.cond(r)
        k = r.randrange(8)
        if k == 0:
            s = "IF %s THEN @F@" % c
        elif k == 1:
            s = "IF %s THEN @F@ ELSE @F@" % c
        elif k == 2:
            s = "IF %s THEN @F@ ELSE %s" % (c, self.part(r, d))
        elif k == 3:
            s = "IF %s THEN %s ELSE @F@" % (c, self.part(r, d))
        elif k == 4:
            s = "IF %s THEN GOTO @F@:%s" % (c, self.tag())
        elif k == 5:
            s = "IF %s THEN %s" % (c, self.part(r, d))
        else:
            s = "IF %s THEN %s ELSE %s" % (c, self.part(r, d), self.part(r, d))
        if r.random() < 0.2:
            s += ":" + self.tag()
        return s

    def on(self, r, long=False):
        k = r.randint(1, 6)
        if long:
            k = r.size([7, 8, 16, 17, 32, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300])
            r_ = r.choice
            v = r_([str(r.randint(1, k)), str(k), str(k - 1), str(k + 1), "1", "256", "255", "257", "A+%d" % (k - 1), "0"])
            return "ON %s %s %s:%s" % (v, *r_([("GOTO", ",".join("@F@" for _ in range(k))), ("GOSUB", ",".join("@S@" for _ in range(k)))]), self.tag())
        v = r.choice([str(r.randint(-2, k + 2)), "A", "B", "A+B", "0", "%d" % k, "%d" % (k + 1), "1.5", "-1", "1E10", "65537", "4294967297", "256", "257", "-.5", "2-1E-9", "1E308*10", "SQR(-1)",
                      "2^32+1", "-2147483647", "A-1"] + [str(j) for j in range(1, k + 1)])
        if r.random() < 0.5:
            return "ON %s GOTO %s:%s" % (v, ",".join("@F@" for _ in range(k)), self.tag())
        return "ON %s GOSUB %s:%s" % (v, ",".join("@S@" for _ in range(k)), self.tag())

    def gen(self, r, i):
        self.n = 0
        lines = ["A=%d:B=%d:A$=\"%s\"" % (r.randint(0, 2), r.randint(0, 2), r.choice(["", "x", "y"]))]
        while len(lines) < 25:
            k = r.random()
            if k < 0.6:
                l = self.if_(r, r.choice([0, 1, 2, 3]))
            elif k < 0.85:
                l = self.on(r, i % 8 == 1 and r.random() < .15)
            else:
                l = self.tag() + ":" + self.stmt(r)
            if parses(re.sub("@.@", "10", l)):
                lines.append(l)
        n = len(lines)
        lines += ["PRINT \"end\":END"] + ["PRINT \"s%d\";:RETURN" % k for k in range(3)]
        nums = numbers(r, len(lines))
        out = []
        for k, l in enumerate(lines):
            l = re.sub("@F@", lambda m: str(nums[r.randint(k + 1, min(n, k + 6))]), l)
            l = re.sub("@S@", lambda m: str(nums[n + r.randint(1, 3)]), l)
            out.append("%d %s\n" % (nums[k], l))
        if i % 4 == 3:
            # at the prompt, one line after the other
            cmds = []
            for k, l in enumerate(lines[:n]):
                if "@" not in l and fits(l):
                    cmds.append(l)
                else:
                    cmds.append(re.sub("@F@", str(nums[n]), re.sub("@S@", str(nums[n + 1]), l)))
                if r.random() < .3:
                    cmds.append(gen.spoilt(r, cmds[-1]))
            prg = ["%d %s" % (nums[k], lines[k]) for k in range(n, len(lines))]
            return session([c for c in prg + cmds if fits(c)])
        return batch("".join(out), opts=["-q"] + (["-t"] if r.random() < .3 else []))


# ---------------------------------------------------------------- C03

class Talk:
    """A session driven by its prompts."""

    def __init__(self, exe, opts=("-q",), files=None, env=None):
        self.d = tempfile.mkdtemp(prefix="lbv")
        for n, t in (files or {}).items():
            with open(os.path.join(self.d, n), "wb") as f:
                f.write(t.encode("latin-1"))
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "LB_UNBUF": "1", "MALLOC_PERTURB_": "165"}
        e.update(env or {})
        self.errf = open(os.path.join(self.d, "stderr.txt"), "w+b")
        self.p = subprocess.Popen([exe] + list(opts), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  cwd=self.d, env=e)
        self.buf = b""
        self.total = 0

    def until(self, marks, timeout=60):
        """text up to and including one of the marks at the end of what came; None at end"""
        end = time.time() + timeout
        stuck = 0
        while time.time() < end:
            r, _, _ = select.select([self.p.stdout], [], [], 0.0005 if self.buf else 0.002)
            if r:
                b = os.read(self.p.stdout.fileno(), 65536)
                if not b:
                    s, self.buf = self.buf, b""
                    return s.decode("latin-1") + "\0"
                self.buf += b
                self.total += len(b)
                stuck = 0
                if self.total > 4000000:
                    raise TimeoutError
            elif self.waiting():
                # nothing was written before it went to sleep, so it is waiting for a line
                if select.select([self.p.stdout], [], [], 0)[0]:
                    continue
                if any(self.buf.endswith(m) for m in marks):
                    s, self.buf = self.buf, b""
                    return s.decode("latin-1")
                stuck += 1
                if stuck > 400:
                    raise TimeoutError
        raise TimeoutError

    def waiting(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                return f.read().rpartition(")")[2].split()[0] == "S"
        except (OSError, IndexError):
            return False

    def send(self, line):
        try:
            self.p.stdin.write(line.encode("latin-1") + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.seek(0)
        err = self.errf.read().decode("latin-1")
        self.errf.close()
        shutil.rmtree(self.d, ignore_errors=True)
        return self.p.returncode, err


ASK = "%ask%"


class C03(Check):
    prop = "C03"
    quick = 1500
    thorough = 23000
    level = "exploration"
    rule = ("one case = one random program (loops, subroutines, functions, strings, INPUT, READ, STOP) run once undisturbed "
            "and then several times with SIGINT raised before chosen execution steps (a single step, several, every step) "
            "and continued with CONT, variables being printed in between: the remaining output, the errors and the final "
            "variables must be the same; further sessions with STOP, CONT, edits and changes of variables are judged "
            "by the model; non-trivial = at least one break or stop was continued")

    def stopped(self, r):
        """STOP within loops and subroutines, opened on other lines, with an error behind it on its own line"""
        lines, names = [], []
        d = 0
        base = r.choice([0, 0, 0, 0, 990, 1990, 40000, 60000])
        for _ in range(r.randint(0, 7)):
            k = r.randrange(3)
            n = base + 10 * len(lines) + 10
            if k == 0 and len(names) < 8:
                v = "IJKLMNPQ"[len(names)]
                names.append(v)
                lines.append("FOR %s=1 TO %d" % (v, r.randint(1, 2)))
            elif k == 1 and d < 8:
                d += 1
                lines += ["GOSUB %d:PRINT \"back\"" % (n + 30), "PRINT \"line\":" + r.choice(["PRINT LOG(0)", "END", "END"]), "END"]
            else:
                lines.append("PRINT %d;" % n)
        fail = r.choice(["PRINT LOG(0)", "PRINT V(99)", "GOTO 64999", "NEXT Z", "PRINT CHR$(999)", "READ A", "A=VAL(\"x\")", "NOP=1", "NOP=2"])
        for _ in range(r.randint(1, 3)):
            lines.append(r.choice(["STOP:%s" % fail, "PRINT \"a\":STOP:PRINT \"b\":%s" % fail, "IF 1 THEN STOP:%s ELSE PRINT" % fail, "STOP:STOP:%s" % fail, "STOP:PRINT 1", "STOP", "FOR Z=1 TO 2:STOP:PRINT Z:NEXT:%s" % fail]))
        lines += [r.choice(["PRINT \"behind\"", fail])]
        for v in reversed(names):
            lines.append("NEXT " + v)
        lines += ["RETURN", "PRINT \"end\""]
        text = ["%d %s" % (base + 10 * i + 10, l) for i, l in enumerate(lines)]
        cmds = ["RUN"]
        for _ in range(r.randint(3, 10)):
            cmds.append(r.choice(["CONT", "CONT", "CONT", "CONT", "NEXT", "RETURN", "RUN", "PRINT I;J;K"]))
        if base:
            case = session(text + cmds, max_ops=4000)
            if r.random() < .5:
                case = session(['LOAD "p"'] + cmds, files={"p": "\n".join(text) + "\n"}, max_ops=4000)
            return in_context(case, r)
        return session(text + cmds, opts=["-q"] + (["-t"] if r.random() < .2 else []), max_ops=4000)

    def one(self, i):
        r = self.rng(i)
        if i % 15 == 5:
            return self.judge_case(self.stopped(r))
        if i % 3 == 2:
            case = self.model_case(r)
            if i % 9 == 2:
                case = in_context(case, r)
            return self.judge_case(case)
        case = Case(mode="int", k=r.randrange(1 << 40))
        return self.judge_int(case)

    def replay(self, case):
        return self.judge_int(case) if case["mode"] == "int" else self.judge_case(case)

    def shrink(self, case):
        return case if case["mode"] == "int" else shrink(self, case)

    def nontrivial(self, e):
        return e.stats.get("stop", 0) > 0

    def model_case(self, r):
        g = Prog(r, size=r.choice([5, 10, 15]), stops=2.0, errors=0.01, stdin=False)
        p = g.build()
        cmds = ["RUN"]
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if k < 0.6:
                cmds.append("CONT")
            elif k < 0.75:
                cmds.append(r.choice(["PRINT A;B;X;A$;B$", "PRINT I;J;K", "PRINT V(1)", "LIST", "PRINT C;Z1;count"]))
            elif k < 0.85:
                cmds.append(r.choice(["A=5", "X=1:Y=2", "A$=\"new\"", "I=I+1", "B=-1", "V(1)=3", "STOP", "PRINT LOG(0)", "J=0", "FOR Q9=1 TO 2:NEXT", "NOSUCH=", "RESTORE", "READ A$"]))
            elif k < 0.9:
                n = r.choice(p.nums)
                cmds.append(r.choice(["%d" % n, "%d PRINT \"edited\"" % n, "65535 REM", "64990", "NEW", "CLEAR", "RUN", "GOTO %d" % n, "RENUM", "COMPILE", "GOSUB %d" % n, "LOAD \"none\"", "SAVE \"x\""]))
            else:
                cmds.append("CONT")
        text = [l for l in p.text.split("\n")[:-1]]
        if any(not fits(l) for l in text):
            return session(["LOAD \"p\""] + cmds, files={"p": p.text}, max_ops=15000)
        return session(text + cmds, max_ops=15000)

    def program(self, r):
        if r.random() < 0.2:
            return self.asking(r)
        layout = r.random() < 0.5
        g = Prog(r, size=r.choice([4, 8, 14]), stops=r.choice([0, 0.5]), errors=0.003, stdin=r.random() < 0.6)
        p = g.build()
        text = p.text
        if r.random() < 0.5:
            base = 65000 if p.nums[-1] < 64000 else None
        # the question mark of INPUT must be unmistakable
        text = re.sub(r'(?i)\bINPUT\s*("[^"]*"[;,])?', 'INPUT "%s";' % ASK, text)
        return text, p

    def asking(self, r):
        """a program that consists of INPUT for the most part, usually with something else in front of it"""
        lines = r.choice([[], ["PRINT \"start\":PRINT 1;2;3"], ["A=A+1:PRINT \"start\";A:B$=B$+\"b\""]])
        for _ in range(r.randint(1, 5)):
            lines += r.choice([["INPUT %s" % ",".join(r.choice(["A", "B", "A$", "B$", "V(A)", "X", "L$(2)", "V(V(0))", "Q9"]) for _ in range(r.randint(1, 3)))], ["LINE INPUT %s" % r.choice(["A$", "L$(1)"])],
                               ["FOR I=1 TO %d:INPUT V(I):NEXT" % r.randint(1, 3)], ["IF A THEN INPUT B ELSE INPUT A$,B"], ["INPUT A:INPUT B:PRINT A+B"], ["PRINT A;B;A$;B$"]])
        lines.append("PRINT A;B;X;A$;B$;V(0);V(1);V(2);L$(1)")
        text = "".join("%d %s\n" % (10 * i + 10, l) for i, l in enumerate(lines))
        text = re.sub(r'\bINPUT\b', 'INPUT "%s";' % ASK, text)
        replies = [r.choice(["5", "1", "2,3", "x", "a,b", "1,2,3", "", "7,seven,1", "0", "a long line of text, with a comma"]) for _ in range(r.randint(3, 9))] + ["1,2,3", "1,a,1", "1"]
        if r.random() < .6:
            replies[:0] = [r.choice(["x", "1,x", "1,2,x", "", "1,", "y,z"]) for _ in range(r.randint(1, 3))]
        return text, Case(stdin=lambda: "\n".join(replies) + "\n")

    def session_run(self, text, ints, r=None, inspect=False, replies=None):
        """(observed program output, final state, errors, breaks, stops) or text saying why not"""
        t = Talk(self.exe["plain"], files={"p": text}, env={"LB_INT": ints, "LB_STEPS": "400000", "LB_INT_OFF": "quiet"})
        self.runs += 1
        out, errs, breaks, stops, conts = [], [], 0, 0, 0
        n = own = 0
        marks = [b"> ", (ASK + "? ").encode()]
        dead = None
        try:
            s = t.until([b"> "])
            t.send('LOAD "p"')
            t.until([b"> "])
            t.send("RUN")
            while True:
                s = t.until(marks)
                if s.endswith("\0"):
                    dead = "the session ended"
                    break
                if s.endswith(ASK + "? "):
                    out.append(s)
                    rep = replies[(n - own) % len(replies)]
                    n += 1
                    if n > 300:
                        dead = "LIMIT"
                        break
                    t.send(rep)
                    continue
                s = s[:-2]
                if s.endswith("Break\n"):
                    out.append(s[:-6])
                    breaks += 1
                elif s.endswith("Stopped\n"):
                    out.append(s)
                    stops += 1
                    if stops > 60:
                        dead = "LIMIT"
                        break
                elif s.endswith("Cannot continue\n") and conts:
                    out.append(s)
                    break
                else:
                    out.append(s)
                    break
                conts += 1
                if conts > 3000:
                    dead = "LIMIT"
                    break
                if inspect and r.random() < 0.6:
                    t.send(r.choice(['INPUT "%in%";Q8', 'INPUT "%in%";Q8$,Q8'] if r.random() < .3 else ["PRINT A;B;X;A$;B$;I;J;K", "LIST", "PRINT V(1);L$(1)", "PRINT Q;T8", "PRINT LEN(A$)+ABS(X)", "REM", "LIST 10-50", "PRINT FN9(1)", "bad command", 'INPUT "%in%";Q8',
                                     'LINE INPUT "%in%";Q8$', 'PRINT 1;:INPUT "%in%";Q8,Q8$', 'INPUT "%in%";Q8$']))
                    q = t.until([b"> ", b"%in%? "])
                    while q.endswith("%in%? ") and n < 300:
                        n += 1
                        own += 1
                        t.send(r.choice(["9", "word", "1,2", "", "1,2,3", "a long reply, with much, much more text than any other,,,,,,"]))
                        q = t.until([b"> ", b"%in%? "])
                t.send("CONT")
            final = []
            if dead is None:
                open(os.path.join(t.d, "quiet"), "w").close()
                for q in ["PRINT A;B;C;X;Y;Z1;count;Q9;Total;N", "PRINT A$;\"|\";B$;\"|\";name$;\"|\";S1$;\"|\";X$;\"|\";Word$", "PRINT I;J;K;I1;j2;L;M;P",
                          "FOR Z8=0 TO 10:PRINT V(Z8);L$(Z8);names$(Z8);:NEXT Z8", "READ A$:PRINT A$", "PRINT RND", "NEXT", "RETURN"]:
                    t.send(q)
                    s = t.until(marks)
                    while s.endswith(ASK + "? ") and n < 400:
                        n += 1
                        t.send(replies[(n - own) % len(replies)])
                        s += t.until(marks)
                    final.append(s)
        except TimeoutError:
            dead = "TIMEOUT"
        rc, err = t.close()
        if rc == 97:
            return "LIMIT"
        if dead:
            return dead if dead in ("LIMIT", "TIMEOUT") else "%s: status %r %r" % (dead, rc, err[-300:])
        if rc != 0:
            return "exit status %r %r" % (rc, err[-300:])
        return "".join(out), final, err, breaks, stops

    def judge_int(self, case):
        r = literals.Random(case["k"])
        self.runs = 0
        text, p = self.program(r)
        case["prog"] = text
        replies = [x for x in (p["stdin"] if isinstance(p, dict) else p.stdin)().split("\n")[:-1]] or ["1"]
        base = self.session_run(text, "", replies=replies)
        if isinstance(base, str):
            if base == "LIMIT":
                return Outcome("skip", case, "LIMIT")
            if base == "TIMEOUT":
                return Outcome("inconclusive", case, base)
            return Outcome("bad", case, "undisturbed run: " + base, runs=self.runs)
        layout = bool(re.search(r"(?i)tab\s*\(|(PRINT|\?).*,", text))
        total = 0
        for mode in range(6 if "INPUT" in text and not layout else 5):
            if mode in (0, 5):
                ints = ",".join(str(x) for x in range(1, 2500))
            elif mode == 1:
                ints = ",".join(str(x) for x in range(r.randint(1, 4), 2500, r.randint(2, 5)))
            else:
                hi = r.size([10, 40, 150, 400])
                ints = ",".join(map(str, sorted(r.sample(range(1, hi + 5), r.choice([1, 1, 2, 4])))))
            inspect = mode in (2, 3, 5) and not layout
            got = self.session_run(text, ints, literals.Random(case["k"] + mode), inspect, replies)
            if isinstance(got, str):
                if got in ("LIMIT", "TIMEOUT"):
                    continue
                return Outcome("bad", case, "interrupted at steps %s: %s" % (ints[:60], got), runs=self.runs)
            total += got[3] + (got[4] if mode == 0 else 0)
            if got[0] != base[0]:
                return Outcome("bad", case, "interrupted at steps %s: output %s" % (ints[:60], diff_text(base[0], got[0])), runs=self.runs)
            if got[1] != base[1]:
                return Outcome("bad", case, "interrupted at steps %s: final state %r, expected %r" % (ints[:60], got[1], base[1]), runs=self.runs)
            if not inspect and got[2] != base[2]:
                return Outcome("bad", case, "interrupted at steps %s: errors %r, expected %r" % (ints[:60], got[2][:300], base[2][:300]), runs=self.runs)
        return Outcome("ok", case, stats={"breaks": total, "runs": self.runs}, runs=self.runs, nontrivial=total > 0)
