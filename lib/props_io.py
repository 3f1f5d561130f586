"""D01 O01 O02: data, printing, input."""
import re

import gen
import model
from gen import G, Prog, rcase, numbers
from harness import *
from props_expr import fits, parses, number_text
from props_ctrl import prog


class D01(Check):
    prop = "D01"
    context = 11
    far = 53
    quick = 15000
    thorough = 225000
    events = ("READ",)
    rule = ("one case = one program or session with 1 to 1500 DATA items (numbers, quoted, unquoted, empty, with blanks, "
            "commas and colons in quotes) on lines anywhere - before, between, after END, behind other statements, in "
            "subroutines, skipped by GOTO - and READs into variables and array elements mixed with RESTORE and "
            "RESTORE n; every item delivered, the order and the errors are judged")

    def num_item(self, r):
        return r.choice([str(r.randint(-999, 999)), "%d.%d" % (r.randint(0, 9), r.randint(0, 99)), "-.5", "+7", "1e3", "0", '"12"', '" 13 "', "1E-2", "007"])

    def str_item(self, r):
        return r.choice(["word", "two words", "  lead", "trail  ", '"quoted"', '" kept blanks "', '"a,b"', '"c:d"', "", '""', "a'b", "12", "-3", "REM", "GOTO 10",
                         "THEN", "x=1", "(a)", "semi;colon", "UPPER lower", "a\tb", "\tt", '"q"', "?", "ELSE", "1 2", "DATA", "$", "END", "if", "x" * 127, '"' + "y" * 127 + '"',
                         "x" * 126, "v%d" % r.randint(0, 999)])

    def items(self, r, n, kinds):
        return [self.num_item(r) if k else self.str_item(r) for k in kinds]

    def gen(self, r, i):
        n = r.size([1, 2, 5, 10, 20, 40]) if i % 10 else r.size([126, 127, 128, 129, 300, 1000, 1500])
        kinds = [r.random() < 0.6 for _ in range(n)]
        it = self.items(r, n, kinds)
        # DATA lines
        data = []
        k = 0
        while k < n:
            m = r.choice([1, 1, 2, 3, 5, 12])
            chunk = it[k:k + m]
            k += m
            s = rcase(r, "DATA") + r.choice([" ", " ", "  ", "" if re.match(r'["\-+. ,]|$', chunk[0]) and False else " "]) + r.choice([",", ", ", " ,"]).join(chunk)
            t = r.randrange(11)
            if t == 0:
                s += ":PRINT \"d%d\";" % k
            elif t == 1:
                s = "PRINT \"e%d\";:" % k + s
            elif t == 2:
                s += ":DATA " + self.num_item(r)
                kinds_extra = True
            elif t == 3:
                s = "IF %d THEN %s" % (r.randint(0, 1), s)
            elif t == 4:
                s = "IF %d THEN PRINT \"t%d\"; ELSE %s" % (r.randint(0, 1), k, s + r.choice(["", ":PRINT \"u\";", ":DATA %s:PRINT \"w\";" % self.num_item(r)]))
            elif t == 5:
                s = "IF %d THEN %s:PRINT \"y%d\"; ELSE PRINT \"z\";:%s" % (r.randint(0, 1), s, k, "DATA " + self.num_item(r))
            data.append(s)
        reads = []
        want = r.choice([n, n, n, n + 1, n // 2 + 1, 2 * n])
        loop = n > 60
        if loop:
            reads.append("FOR I=1 TO %d:READ %s:PRINT \"<\";%s;\">\";:NEXT" % (want, *(["S$(I-10*INT(I/10))"] * 2)))
        else:
            while want > 0:
                m = r.choice([1, 1, 2, 3])
                want -= m
                vs = []
                for _ in range(m):
                    num = r.random() < 0.3
                    v = r.choice(["A", "B", "V(2)", "V(A)", "M(1,2)"]) if num else r.choice(["A$", "B$", "S$(1)", "S$(10)", "T$(2,3)"])
                    vs.append(v)
                s = "READ " + ",".join(vs) + ":PRINT " + ";".join('"<";%s;">"' % v for v in vs)
                if r.random() < 0.1:
                    s = "GOSUB @S@"
                if r.random() < 0.12:
                    s += ":" + r.choice(["RESTORE", "RESTORE @D@", "RESTORE @D@", "RESTORE @D@", "RESTORE @X@", "CLEAR", "A=1"])
                    if r.random() < .4:
                        # the same behind THEN and ELSE, whichever is taken
                        x, y = [r.choice(["RESTORE", "RESTORE @D@", "RESTORE @D@", "PRINT \"n\";"]) for _ in range(2)]
                        s += ":" + r.choice(["IF 1 THEN %s ELSE %s", "IF 0 THEN %s ELSE %s", "IF A=0 THEN %s ELSE %s", "IF 1 THEN A=0:%s ELSE %s:A=1"]) % (x, y)
                reads.append(s)
        if r.random() < 0.5:
            # numeric reads that fit the kinds
            reads = ["READ %s:PRINT %s;" % (("V(3)",) * 2 if x else ("S$(4)",) * 2) for x in kinds[:40]] + reads[:3]
        lines = []
        where = r.randrange(4)
        if where == 0:
            lines = reads + ["END"] + data
        elif where == 1:
            lines = data + reads
        elif where == 2:
            lines = ["GOTO @R@"] + data + ["REM"] + reads
        else:
            a, b = list(reads), list(data)
            while a or b:
                if a and (not b or r.random() < 0.5):
                    lines.append(a.pop(0))
                else:
                    lines.append(b.pop(0))
        lines += ["PRINT \"end\":END", "READ A$:PRINT \"sub\";A$:RETURN"]
        sub = len(lines) - 1
        if r.random() < 0.25:
            # the last DATA at the very end, behind statements never reached
            for _ in range(r.choice([1, 1, 2, 5])):
                k = max((k for k, l in enumerate(lines) if l.upper().startswith("DATA")), default=-1)
                if k < 0:
                    break
                l = lines.pop(k)
                sub -= k < sub
                lines.insert(sub + 1, r.choice(["", "", "END:", "END:", "STOP:", "RETURN:", "PRINT:", "GOTO @R@:", "IF 0 THEN ", "::", "READ A$:"]) + l)
        # fill in
        nums = numbers(r, len(lines))
        first = next((nums[k] for k, l in enumerate(lines) if l.startswith("READ") or l.startswith("FOR")), nums[-1])
        out = []
        for k, l in enumerate(lines):
            l = l.replace("@R@", str(first)).replace("@S@", str(nums[sub]))
            l = re.sub("@D@", lambda m: str(r.choice(nums)), l)
            l = l.replace("@X@", str(r.choice(nums) + 1 if r.random() < .5 else 64321))
            out.append((nums[k], l))
        if i % 4 == 3 and len(out) < 60:
            cmds = ["RUN"]
            for _ in range(r.randint(2, 12)):
                d = r.choice(nums)
                cmds.append(r.choice(["READ A$:PRINT A$", "READ A:PRINT A", "RESTORE", "RESTORE %d" % d, "READ A$,B$:PRINT A$;B$:DATA i1,\"i2\"", "DATA x,y", "RUN", "RESTORE %d:READ S$(2):PRINT S$(2)" % d, "READ A$,B$:PRINT A$;B$:DATA only", "DATA 1:READ A$:PRINT A$:READ B$:PRINT B$", "DATA 1,2:FOR I=1 TO 4:READ A$:PRINT A$;:NEXT", "READ A,B:DATA 7",
                                      "READ A$:PRINT A$:GOTO %d:DATA im" % d, "RESTORE:READ A$:PRINT A$:DATA im", "RESTORE %d:READ A$:PRINT A$:READ A$:PRINT A$:DATA im" % d,
                                      "FOR I=1 TO 3:READ A$:PRINT A$;:NEXT", "CLEAR", "PRINT A;A$", "READ A:DATA abc", "CONT", "%d DATA new,1,2" % d, "READ Z$:PRINT Z$:RESTORE:READ Z$:PRINT Z$:DATA p,q"]))
            return session(["LOAD \"p\""] + cmds, files={"p": "".join("%d %s\n" % l for l in out)}, max_ops=20000)
        return batch("".join("%d %s\n" % l for l in out), max_ops=40000)


class O01(Check):
    prop = "O01"
    context = 11
    quick = 15000
    thorough = 225000
    events = ("PNUM", "PSTR", "PTAB", "PSPC", "PCOMMA", "PLN")
    rule = ("one case = one program of about 20 PRINT statements mixing items, separators, SPC, TAB, numbers of all widths and "
            "strings up to 255 characters, ending in every way, across lines, loops and subroutines; output is compared "
            "byte by byte")

    def item(self, r):
        k = r.randrange(14)
        if k < 3:
            if r.random() < .25:
                return "%s%d.%dE%s%d" % (r.choice(["", "-", "-"]), r.randint(0, 9), r.randint(0, 999999), r.choice(["", "-", "+"]), r.choice([3, 5, 10, 50, 99, 100, 101, 200, 300]))
            return r.choice([str(r.randint(-99, 99)), "0", "-0.5", "1/3", "1E10", "-1E-7", "123456", "1234567", "99999.95", "A", "-A", "A*B", "B", "0.1", ".5", "1E100", "-1E-100", "0*-1",
                             "100000", "1E15", "1E16", "2^31", "1E5", "1E6", "3.14159265", "-2.5", "1E-5", "0.0001", "1=1", "1=2"])
        if k < 6:
            return r.choice(['"x"', '""', '"abc"', '"1234567"', '"12345678"', '"123456789"', "A$", "B$", "A$+B$", '"' + "w" * r.randint(0, 40) + '"', "LEFT$(B$,%d)" % r.randint(0, 255), "STR$(A)"])
        if k < 9:
            return "%s(%s)" % (rcase(r, "TAB"), r.choice([str(r.randint(0, 60)), str(r.randint(0, 10)), "A", "8", "9", "1", "0", "INT(A*3.7)", str(r.randint(60, 300)), "A+B", "FNT(A)", "FNT(I)", "I"]))
        if k < 11:
            return "%s(%s)" % (rcase(r, "SPC"), r.choice([str(r.randint(0, 20)), "0", "1", "A", str(r.randint(100, 300)), "8", "FNS(A)", "FNS(I)"]))
        if k == 11:
            c = "CHR$(%d)" % r.size([10, 10, 13, 9, 7, 8, 32, 65, 200, 255, 11, 12, 27, 127, 128, 1])
            if r.random() < .4:
                c = r.choice(['"ab"+%s+"c"', '%s+"xyz"', '"1"+%s', '"q"+%s+"r"+CHR$(13)+"s"', "%s+%s" % ("%s", c)]) % c
            return c
        return r.choice(["RND*0", "TAB", "SPC"]) if False else r.choice(["(1)", "-(2)", "NOT 0", "LEN(A$)", "VAL(\"3\")", "MID$(B$,1,3)", "FNT(2)", "FNU$(A)", "I"])

    def stmt(self, r, n=None):
        s = r.choice(["PRINT ", "PRINT ", "?", "print "])
        k = r.choice([0, 1, 2, 3, 4, 6])
        if k == 0:
            return (s + r.choice(["", "", ",", ";", ",,", ";,"])).rstrip(" ") if s != "?" else "?" + r.choice(["", ",", ";", ",,;"])
        if r.random() < 0.1:
            s += r.choice([",", ";", ",,"])
        prev = ""
        for j in range(k):
            it = self.item(r)
            if j:
                sep = r.choice([";", ";", ",", ",", ",,", ";;", ";,", ",;", " ; ", " , ", " ", ""])
                # without a separator two items must not run into one expression
                if not sep.strip() and not (it[0] == '"' or it[:3].upper() in ("TAB", "SPC") or it[:1] == "A" and False or prev[-1:] in '")' and it[0] not in '-(+*"' or prev[-1:] == '"'):
                    sep = ";"
                if not sep.strip() and it[0] == '"' and False:
                    sep = ";"
                s += sep
            s += it
            prev = it
        t = r.random()
        if t < 0.2:
            s += ";"
        elif t < 0.4:
            s += r.choice([",", ",", ",,", ";,", ",;"])
        return s

    def ok(self, s):
        return parses(s)

    def gen(self, r, i):
        lines = ["A=%d:B=%d:A$=\"%s\":B$=\"%s\"" % (r.randint(0, 20), r.randint(0, 9), r.choice(["", "abc", "q"]), "0123456789" * r.randint(0, 11)),
                 "DEF FNT(X)=X*%d:DEF FNS(X)=INT(X/2)+%d:DEF FNU$(X)=STR$(X)" % (r.randint(1, 5), r.randint(0, 3))]
        if r.random() < 0.3:
            lines.append("B$=B$+B$+LEFT$(B$,%d)" % r.randint(0, 35))
        if i % 50 == 9:
            w = r.size([256, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65540, 70000])
            lines.append(r.choice(["PRINT TAB(%d);\"x\"" % w, "PRINT SPC(%d);\"x\",\"y\"" % w, "PRINT \"a\";TAB(%d);\"b\";TAB(%d);\"c\"" % (w, w + 3), "PRINT SPC(%d);:PRINT TAB(%d);\"z\"" % (w, w + r.randint(-2, 5)),
                                   "PRINT TAB(%d);TAB(%d);1,2" % (w, w - 1), "PRINT \"a\",SPC(%d);\"b\",\"c\"" % w]))
        while len(lines) < r.randint(10, 30):
            s = self.stmt(r)
            if not self.ok(s):
                continue
            k = r.randrange(8)
            if k == 0:
                s += ":" + self.stmt(r)
            elif k == 1:
                s = "FOR I=1 TO %d:%s:NEXT" % (r.randint(1, 5), s)
            elif k == 2:
                s = "GOSUB @S@:" + s
            elif k == 3:
                s = "IF A>%d THEN %s ELSE %s" % (r.randint(0, 20), s, self.stmt(r))
            elif k == 4:
                s = "A=A+1:" + s
            if self.ok(s.replace("@S@", "9")):
                lines.append(s)
        lines += ["PRINT \"end\":END", self.stmt(r), "RETURN"]
        if not self.ok(lines[-2]):
            lines[-2] = "PRINT \"sub\";"
        n = 10 * len(lines) - 10
        return batch(prog([l.replace("@S@", str(n)) for l in lines]), max_ops=20000)


class O02(Check):
    prop = "O02"
    context = 11
    quick = 18750
    thorough = 282000
    events = ("reply",)
    rule = ("one case = one program or session with several INPUT and LINE INPUT statements (one to four items, simple and "
            "element targets whose subscripts come from the same INPUT, every prompt form) and a stream of good, short, "
            "long, malformed, empty, over-long and missing replies; prompts, messages, values and the position in the "
            "input stream are judged")

    def target(self, r):
        return r.choice(["A", "B", "A$", "B$", "V(2)", "V(A)", "S$(1)", "S$(A)", "M(1,A)", "T$(2,2)", "C", "C$", "V(B)", "N"])

    def prompt(self, r):
        return r.choice(["", "", "", '"name";', '"name",', '"name" ', '"";', '"a,b:c?";', '"%d%s";', '"' + "p" * 100 + '";'])

    def good(self, r, vs):
        out = []
        for v in vs:
            if "$" in v:
                out.append(r.choice(["text", "", "two words", " lead", "trail ", '"quoted"', "12", "a:b", "it's", '"a', "x" * r.randint(1, 60), "REM", "\xe9\xff"]))
            else:
                out.append(r.choice([str(r.randint(0, 10)), str(r.randint(-5, 12)), "1.5", " 3", "4 ", " 5 ", "-2", "+6", "1e1", ".5", "2.", "\t7", "8\t"]))
        return r.choice([",", ",", ", "]).join(out) if r.random() < 0.9 else " , ".join(out)

    def reply(self, r, vs):
        k = r.randrange(20)
        if k < 11:
            return self.good(r, vs)
        if k == 11:
            return self.good(r, vs[:-1]) if len(vs) > 1 else ""
        if k == 12:
            return self.good(r, vs) + r.choice([",", ",extra", ",1", "  ", " ,", ",,"])
        if k == 13:
            return r.choice(["", " ", "\t", ",", ",,", ",,,"])
        if k == 14:
            return r.choice(["abc", "1x", "x1", "--1", "1 2", "1;2", "$5", '"5"', "1.2.3", "e5", "+", "-", ".", "5%", "12,abc", "abc,12", "1,2,x", "x,2,3"])
        if k == 15:
            n = r.choice([124, 125, 126, 128, 129, 130, 200, 254, 255, 256, 260, 380, 600])
            g = r.choice(["1," * 300, "z" * 700, "123456789 " * 80, "7" + " " * 700, "5," + "y" * 700, "0" * 700])
            return g[:n]
        if k == 16:
            return self.good(r, vs) + r.choice(["\r", " \r"])
        return self.good(r, vs + ["A$"]) if r.random() < 0.3 else self.good(r, vs)

    def gen(self, r, i):
        lines = ["DIM T$(4,4)"]
        replies = []
        show = 'PRINT "[";A;B;C;N;A$;"|";B$;"|";C$;"|";V(2);S$(1);"]"'
        for _ in range(r.randint(2, 7)):
            if r.random() < 0.2:
                v = r.choice(["A$", "S$(2)", "S$(A)", "B$", "T$(1,1)"])
                s = "LINE INPUT %s%s" % (self.prompt(r), v)
                replies.append(r.choice(["a,b", "", " x ", '"q",1', "plain", "w" * r.choice([126, 128, 150, 300]), "12", "\t", "a:b,c"]))
                vs = [v]
            else:
                vs = [self.target(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]
                s = "%s %s%s" % (rcase(r, "INPUT"), self.prompt(r), ",".join(vs))
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    replies.append(self.reply(r, vs))
            if r.random() < 0.2:
                s = "FOR I=1 TO 2:" + s + ":NEXT"
            elif r.random() < 0.2:
                s = s + ":" + show
            elif r.random() < 0.1:
                s = "GOSUB @S@:" + s
            lines.append(s)
            lines.append('PRINT "<";%s;">"' % ';"/";'.join(vs))
        lines += [show, "PRINT \"end\":END", "INPUT C$:PRINT \"sub\";C$:RETURN"]
        n = 10 * len(lines)
        replies += [r.choice(["1,2,3,4", "a", "5", "9,9,9", "x,y"]) for _ in range(r.randint(0, 6))]
        stdin = "\n".join(replies) + ("\n" if r.random() < 0.8 else "")
        lines = [l.replace("@S@", str(n)) for l in lines]
        if i % 4 == 3:
            # at the prompt: the lines after an INPUT are commands again
            out = []
            vs = None
            k = 0
            for l in lines:
                if "@" in l or "GOSUB" in l or l.startswith("PRINT \"end"):
                    continue
                out.append(l)
                if "INPUT" in l.upper():
                    for _ in range(r.choice([1, 2, 3])):
                        if k < len(replies):
                            out.append(replies[k])
                            k += 1
            return session([l for l in out if len(l) != 127], max_ops=8000)
        return batch(prog(lines), stdin, max_ops=8000)
