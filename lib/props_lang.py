"""L01 L02 L03 L04: acceptance, spelling, options, names."""
import re

import gen
import literals
import model
from gen import G, Prog, rcase, numbers
from harness import *
from props_expr import fits, parses

TOKENS = ["(", ")", ",", ";", ":", "=", "<", ">", "<=", "<>", "+", "-", "*", "/", "^", "\"s\"", "\"", "1", "10", "2.5", "A", "A$", "V(1)", "FNA(1)", "X", "?", "@", "#", "!", "%", "&", "'", "1.2.3", "1E",
          "$", ".", "", " "] + model.KEYWORDS + list(model.BUILTINS) + ["TAB(", "SPC(", "LEFT$(", "NOTA", "TAB", "SPC"]


def tokens(text, crunch=False):
    """[(kind, text)] of a line: tokens, blanks, data and remark bodies; concatenation gives text"""
    out = []
    lx = model.Lexer(text, crunch)
    end = 0
    while lx.tok[0] != "eol":
        if lx.tok[0] == "err":
            raise model.SyntaxErr
        if lx.start > end:
            out.append(("blank", text[end:lx.start]))
        out.append((lx.tok[0], text[lx.start:lx.p]))
        end = lx.p
        if lx.tok == ("kw", "REM"):
            out.append(("rem", text[end:]))
            end = len(text)
            break
        if lx.tok == ("kw", "DATA"):
            lx.data()
            while lx.next() == ("op", ","):
                lx.data()
            out.append(("data", text[end:lx.start if lx.tok[0] != "eol" else len(text)]))
            end = lx.start if lx.tok[0] != "eol" else len(text)
            if lx.tok[0] == "eol":
                break
            continue
        lx.next()
    if end < len(text):
        out.append(("blank", text[end:]))
    assert "".join(t for _, t in out) == text, (out, text)
    return out


# ---------------------------------------------------------------- L01

class L01(Check):
    prop = "L01"
    quick = 18750
    thorough = 282000
    rule = ("one case = one program: valid (random statements of every form, all statement forms in every nesting of "
            "IF/ELSE) or made so by one to three token deletions, insertions, replacements, swaps and truncations of random "
            "lines, or built from a list of near-miss statements; run as a file, with --parse, and often through LOAD and "
            "RUN; acceptance, the line shown, the exit status of --parse and that nothing is executed are judged; "
            "non-trivial = the program is rejected, or accepted after a mutation")

    NEAR = ["PRINT", "PRINT ;", "PRINT ,", "PRINT 1 2", "PRINT A B", "PRINT \"a\" \"b\"", "PRINT A;,;B", "PRINT TAB(3)", "PRINT TAB 3", "PRINT TAB(3", "PRINT TAB()", "PRINT SPC(1);SPC(2)", "PRINT TAB(A$)", "A=TAB(3)", "A=SPC(1)",
            "LET", "LET A", "LET A=", "LET 5=A", "LET A$=5", "LET A=\"x\"", "LET A$=A", "LET A=A$", "A", "A=", "A=1=2", "A=(1=2)=3", "A==1", "A=1,B=2", "A=1 B=2", "A B=1", "A(=1", "A()=1", "A(1=1", "A(1))=1", "A(1)=1", "A(1,2)=1", "A(1,2,3)=1", "A(B$)=1",
            "A$(1)=\"x\"", "A$(1)=1", "A(1)=\"x\"", "5=A", "\"x\"=A$", "A+1=2", "=A", "A:=1", "IF A THEN", "IF A", "IF THEN 10", "IF A THEN 10", "IF A 10", "IF A GOTO 10", "IF A$ THEN 10", "IF A$=\"x\" THEN 10", "IF A THEN 10 ELSE", "IF A THEN ELSE 10", "IF A THEN PRINT ELSE PRINT",
            "IF A THEN PRINT 1:ELSE PRINT 2", "IF A THEN 10:ELSE 20", "IF A THEN 10 ELSE 10", "IF A THEN 10 ELSE PRINT 1", "IF A THEN PRINT:PRINT ELSE PRINT:PRINT", "ELSE", "ELSE PRINT", "PRINT 1 ELSE PRINT 2", "THEN", "THEN 10", "IF A THEN 10 10", "IF A THEN 10:PRINT",
            "IF A THEN X", "IF A THEN A=1", "IF A=1 THEN B=2 ELSE B=3", "IF A=1 THEN IF B=2 THEN C=3 ELSE C=4 ELSE C=5", "IF A=1 THEN IF B=2 THEN C=3 ELSE C=4", "IF (A THEN 10", "IF A) THEN 10", "GOTO", "GOTO A", "GOTO 10", "GOTO 10,20", "GOTO 0", "GOTO -10", "GOTO 65535", "GOTO 65536", "GOTO 1.5", "GOTO 10 20", "GO TO 10", "GOTO\"10\"",
            "GOSUB", "GOSUB 10", "GOSUB A", "GOSUB 10:RETURN", "RETURN", "RETURN 10", "ON", "ON A", "ON A GOTO", "ON A GOTO 10", "ON A GOTO 10,", "ON A GOTO ,10", "ON A GOTO 10,20,30", "ON A GOSUB 10,20", "ON A$ GOTO 10", "ON A PRINT", "ON GOTO 10", "ON A THEN 10", "ON A+1 GOTO 10:PRINT",
            "FOR", "FOR I", "FOR I=1", "FOR I=1 TO", "FOR I=1 TO 2", "FOR I=1 TO 2 STEP", "FOR I=1 TO 2 STEP 1", "FOR I$=1 TO 2", "FOR I(1)=1 TO 2", "FOR I=A$ TO 2", "FOR I=1 TO A$", "FOR I=1 TO 2 STEP A$", "FOR I=1 STEP 2 TO 3", "FOR 1=1 TO 2", "FOR I=1,2", "FOR I TO 2", "FOR ABS=1 TO 2",
            "NEXT", "NEXT I", "NEXT I,J", "NEXT I,", "NEXT ,I", "NEXT 5", "NEXT I$", "NEXT I(1)", "NEXT I J", "READ", "READ A", "READ A,", "READ A,B$", "READ 5", "READ V(1),W$(2)", "READ A B", "READ \"x\"", "READ A+1", "READ FNA(1)", "DATA", "DATA 1", "DATA ,", "DATA \"x\"", "DATA \"x", "DATA \"x\"y", "DATA x y,z", "DATA x\"y\"", "DATA 1:PRINT",
            "RESTORE", "RESTORE 10", "RESTORE A", "RESTORE 10,20", "DIM", "DIM A", "DIM A(5)", "DIM A()", "DIM A(1,2)", "DIM A(1,2,3)", "DIM A(5),B(6)", "DIM A(5),", "DIM A(B)", "DIM A(B$)", "DIM 5(5)", "DIM A$(3)", "DIM ABS(3)", "DIM A(5", "DIM A 5",
            "DEF", "DEF FNA", "DEF FNA(X)", "DEF FNA(X)=", "DEF FNA(X)=X", "DEF FNA()=1", "DEF FNA(X,Y)=X", "DEF FNA(X)=A$", "DEF FNA$(X)=A$", "DEF FNA$(X)=X", "DEF FNA(X$)=LEN(X$)", "DEF FNA(5)=5", "DEF A(X)=X", "DEF ABS(X)=X", "DEF FNA(X(1))=1", "DEF FNA(X) X", "DEF FNA=1", "DEF FNA(X)=X:PRINT FNA(1)", "DEF FNA(X)=FNB(X)",
            "INPUT", "INPUT A", "INPUT \"p\"", "INPUT \"p\";A", "INPUT \"p\",A", "INPUT \"p\":A", "INPUT \"p\", A", "INPUT \"p\" , A$", "INPUT \"p\" ; A", "INPUT \"p\" A", "INPUT\"p\",A", "INPUT \"p\",  V(1) , B$", "LINE INPUT \"p\", A$", "LINE INPUT \"p\",A$", "LINE INPUT \"p\" ; A$", "LINE  INPUT \"p\" , A$", "LINEINPUT A$", "INPUT A,B$,V(1)", "INPUT A,", "INPUT 5", "INPUT A$;B", "INPUT P$;A", "INPUT \"p\";", "LINE INPUT A$", "LINE INPUT A", "LINE INPUT \"p\";A$", "LINE INPUT A$,B$", "LINE INPUT", "LINE A$", "LINE", "INPUT LINE A$", "LINE INPUT \"p\";A$(1)",
            "RANDOMIZE", "RANDOMIZE 5", "RANDOMIZE A$", "RANDOMIZE A+1", "RANDOMIZE 1,2", "CLEAR", "CLEAR 5", "STOP", "STOP 5", "END", "END 5", "REM", "REM @#$%", "REM\"", "REMARK", "A=1:REM @", "A=1 REM x", "A=1:", ":A=1", "::", "A=1::B=2", ":", "' x",
            "A=NOT 1", "A=NOT", "A=1 AND", "A=AND 1", "A=1 AND 2", "A=1 OR NOT 2", "A=A$ AND 1", "A=NOT A$", "A=-A$", "A$=-A$", "A=A$+1", "A$=A$+1", "A$=A$+B$", "A$=A$-B$", "A=A$=B$", "A=A$=1", "A=1<A$", "A=A$<B$", "A=A$*2", "A=2^A$", "A=2^", "A=^2", "A=--1", "A=-+1", "A=+1", "A=+A", "A=1+", "A=1++2", "A=1+-2", "A=1*-2", "A=2^-1", "A=-2^2", "A=1 2",
            "A=()", "A=(1", "A=1)", "A=((1))", "A=(A$)", "A$=(A$)", "A$=(A$+B$)", "A=<1", "A=1><2", "A=1=>2", "A=1=<2", "A=1<>2", "A=1< >2", "A=1<=2<=3", "A=NOT A=B", "A=NOT NOT A", "A=NOT-1", "A=-NOT 1", "A=1*NOT 1", "A=2^NOT 1", "A=(NOT 1)*2",
            "A=ABS", "A=ABS()", "A=ABS(1", "A=ABS(1,2)", "A=ABS(A$)", "A=ABS 1", "A=LEN(A$)", "A=LEN(1)", "A=LEN(A$,B$)", "A$=LEN(A$)", "A=ASC(A$)", "A$=CHR$(65)", "A=CHR$(65)", "A$=CHR$(A$)", "A$=LEFT$(A$,1)", "A$=LEFT$(A$)", "A$=LEFT$(1,A$)", "A$=LEFT$(A$,1,2)", "A$=MID$(A$,1)", "A$=MID$(A$,1,2)", "A$=MID$(A$,1,2,3)",
            "A$=MID$(A$,A$,2)", "A$=RIGHT$(A$,2)", "A$=STR$(1)", "A$=STR$(A$)", "A=VAL(A$)", "A=VAL(1)", "A=RND", "A=RND(1)", "A=RND()", "A=RND(A$)", "A=RND(1,2)", "A=RND+RND", "A=INT(1)", "A=SGN(1)+SQR(4)", "A=LOG(1)", "A=EXP(1)*SIN(1)+COS(1)-TAN(1)/ATN(1)", "A=FNA(1)", "A=FNA(1,2)", "A=FNA(A$)", "A$=FNA$(1)",
            "ABS=1", "ABS(1)=1", "LEN=5", "RND=1", "LEFT$=\"x\"", "LEFT=1", "MID(1)=1", "VAL$=\"x\"", "INT$=\"i\"", "A=LEFT", "A=FIX(1)", "A$=HEX$(1)", "A=USR(1)", "A$=INKEY$", "A$=SPACE$(3)", "PRINT=1", "IF=1", "FORX=1", "TOP=1", "ONE=1", "TO=1", "STEP=1", "LETTER=1", "GOTOX=1", "IFX=2", "FORI=1TO2",
            "A=1E5", "A=1E", "A=1E+", "A=1E-5", "A=1E+5", "A=1.", "A=.5", "A=.", "A=1..2", "A=1.2.3", "A=1E5E5", "A=1E5.5", "A=0X10", "A=1E999", "A=\"", "A$=\"", "A$=\"x", "A$=\"x\"\"y\"", "A$=\"\"", "A@=1", "A=1@2", "A#=1", "A%=1", "A!=1", "A_B=1", "A.B=1", "A=B&C", "PRINT #1", "[A]=1", "A={1}", "A=1;B=2", "A=1\\2", "~", "A=A?B", "?", "??", "? 1", "?1;2", "A=1 ? 2",
            "$A=1", "A$$=\"x\"", "1A=1", "A1=1", "A1B2C3=1", "A$1=1", "A $=\"x\"", "A (1)=1", "ABS (1)=1", "PRINT ABS (1)", "PRINT TAB (1)", "PRINT CHR$ (65)", "PRINT LEFT $(A$,1)", "PRINT A$(1)", "PRINT A$ (1)", "PRINT A (1)", "x" * 127 + "=1", "x" * 128 + "=1", "A$=\"%s\"" % ("q" * 127), "A$=\"%s\"" % ("q" * 128), "A=" + "1" * 127, "A=" + "1" * 128]

    PLAIN = ["GOTO 10", "GOSUB 10", "RETURN", "END", "STOP", "CLEAR", "RESTORE", "RESTORE 10", "RANDOMIZE", "RANDOMIZE 1", "A=1", "LET A$=\"x\"", "V(1)=2", "PRINT", "PRINT A", "PRINT A;", "? TAB(3);", "FOR I=1 TO 2", "FOR I=1 TO 3 STEP 2", "NEXT", "NEXT I",
             "ON A GOTO 10", "ON A GOSUB 10,10", "READ A", "DATA", "DATA 1", "INPUT A", "INPUT \"p\";A$", "LINE INPUT A$", "DIM D(2)", "DEF FNA(X)=X", "DEF FNA$(X$)=X$", "", "REM r", "' r", "IF A THEN 10", "IF A THEN A=1", "IF A THEN 10 ELSE 10", "IF A THEN GOSUB 10",
             "IF A THEN 10 ELSE A=1", "IF A THEN A=1 ELSE B=1", "IF A THEN IF B THEN 10", "IF A THEN IF B THEN C=1 ELSE 10"]
    TAIL = [" ELSE 10", " ELSE PRINT 1", " ELSE", " ELSE ELSE 10", ":ELSE 10", " ELSE:PRINT 1", " THEN 10", " THEN PRINT", " ELSE A=1 ELSE 10", " ELSE IF A THEN 10", " TO 5", " STEP 2", " 10", " GOTO 10", " PRINT", ",10", ";", " ,", ")", " =1", " AND 1", "+1"]

    def joined(self, r, n):
        """one statement and what cannot, or can, stand behind it: every pair, and more"""
        if n % 2 == 0:
            n = n // 2 % (len(self.PLAIN) * len(self.TAIL))
            return self.PLAIN[n // len(self.TAIL)] + self.TAIL[n % len(self.TAIL)]
        s = r.choice(["", "", "", "A=1:", "IF A THEN ", "IF A THEN 10 ELSE ", "GOTO 10:", "IF A THEN B=1:"]) + r.choice(self.PLAIN) + r.choice(self.TAIL)
        return s + r.choice(["", "", "", ":A=1", r.choice(self.TAIL)])

    FORMS = ["A=1", "LET A$=B$", "V(1,2)=A", "W$(1)=\"x\"", "PRINT A;B,C$", "PRINT TAB(3);\"x\";SPC(2)", "? A", "IF A=1 THEN 10", "IF A THEN PRINT A ELSE PRINT B", "IF A THEN 10 ELSE 20", "IF A THEN GOTO 10", "GOTO 10", "GOSUB 10", "RETURN",
             "ON A GOTO 10,20", "ON A GOSUB 10", "FOR I=1 TO 2 STEP 3", "FOR I=A TO B", "NEXT", "NEXT I,J", "READ A,B$,V(1)", "DATA 1,x,\"y\"", "RESTORE", "RESTORE 10", "DIM A(5),B$(1,2)", "DEF FNA(X)=X+1", "DEF FNA$(X)=A$", "INPUT A,B$", "INPUT \"p\";A",
             "INPUT \"p\",A$,V(1)", "LINE INPUT A$", "LINE INPUT \"p\";W$(1)", "RANDOMIZE", "RANDOMIZE 5", "CLEAR", "STOP", "END", "CLS", "A=-B*(C+2)^2/3", "A=NOT B AND C OR D", "A=A$<B$", "A=B<=C", "A=B<>C", "A$=LEFT$(B$,2)+MID$(C$,1,2)+CHR$(65)", "A=LEN(A$)+ABS(B)", "A=FNA(1)+RND", "A:B=1"]
    EDITS = []

    def edited(self, n):
        """every statement form with every single token missing, doubled, exchanged with the next, or joined by a separator"""
        if not self.EDITS:
            for f in self.FORMS:
                t = [x for _, x in tokens(f)]
                for i in range(len(t)):
                    if t[i] == " ":
                        continue
                    a, b = t[:i], t[i + 1:]
                    self.EDITS += ["".join(a + b), "".join(a + [t[i], t[i]] + b), "".join(a + [t[i], " ", t[i]] + b), "".join(a + [","] + t[i:]), "".join(a + [";"] + t[i:]), "".join(a + ["("] + t[i:]), "".join(a + [t[i], ")"] + b)]
                    if len(b) > 1:
                        self.EDITS.append("".join(a + b[:1] + [t[i]] + b[1:]))
                self.EDITS += [f + x for x in (",", ";", " 1", " A", ")", "=", '"')]
        return self.EDITS[n % len(self.EDITS)]

    def many(self, r):
        """one construct very often: whatever is counted must be counted down again"""
        n = r.size([50, 200, 300, 600])
        e = r.choice(["2^2^2^2^2", "((((1))))", "--1^2^2", "ABS(ABS(A))", "V(V(V(0)))", "NOT NOT 1", "(A$=A$)^2", "LEN(LEFT$(A$,1))^2", "1^(1^(1^1))"])
        l = [r.choice(["A=%s", "A=%s", "PRINT %s", "IF %s THEN A=1 ELSE A=2", "V(0)=%s*0"]) % e for _ in range(n)]
        if r.random() < .4:
            l[r.randrange(n)] = "A=2^" + "A$"
        return l

    def ahead(self, r):
        """functions used in lines before and after the one that defines them, which comes first or last to run"""
        L = []
        for _ in range(r.randint(1, 3)):
            f = r.choice(["FNQ", "FNQ$", "HALF", "F$", "G", "FNAB$", "Z9"])
            s = f[-1] == "$"
            a = r.choice(["1", "X", "2+1", "LEN(A$)"] if r.random() < .9 else ["A$", "\"x\"", "1,2", ""])
            c = "%s(%s)" % (f, a)
            L += r.sample(["PRINT %s" % c, ("A$=%s" if s else "A=%s") % c, ("A$=LEFT$(%s,2)" if s else "A=ABS(%s)") % c, ("IF %s=\"a\" THEN PRINT 1" if s else "IF %s THEN PRINT 1") % c,
                           ("V(LEN(%s))=1" if s else "V(%s)=1") % c, ("A$=%s+%s" if s else "A=%s*%s") % (c, c)] + (["A=%s" % c if s else "A$=%s" % c] if r.random() < .2 else []), r.randint(1, 3))
            if r.random() < .9:
                L.append("DEF %s(X)=%s" % (f, r.choice(["CHR$(65+X)", "A$", "\"abc\""] if s else ["X/2", "X+1", "2"])))
        if r.random() < .5:
            L = [l for l in L if l[:3] != "DEF"] + [l for l in L if l[:3] == "DEF"]
        if r.random() < .5:
            r.shuffle(L)
        return L

    def nested(self, r):
        """parentheses as deep as they come"""
        d = r.choice([20, 60, 100, 128, 200, 255, 256, 257, 400, 500, 700, 900]) + r.randint(0, 9)
        e = d + r.choice([0, 0, 0, 0, 1, -1])
        k = r.randrange(5)
        if k == 0:
            return "A=" + "(" * d + "1" + ")" * e
        if k == 1:
            return "A$=" + "(" * d + '"x"' + ")" * e
        if k == 2:
            return "PRINT " + "ABS(" * (d // 2) + "1" + ")" * (e - d + d // 2)
        if k == 3:
            return "IF " + "(" * d + "A=1" + ")" * e + " THEN 10"
        return "A=V(" + "(" * d + "1" + ")" * e + ")"

    def all_forms(self, r):
        g = G(r, errors=0, casing=r.random() < 0.3)
        f = [lambda: g.let(), lambda: g.print(), lambda: "IF %s THEN 10" % g.cond(), lambda: "IF %s THEN %s" % (g.cond(), g.let()), lambda: "IF %s THEN 10 ELSE 20" % g.num(), lambda: "IF %s THEN %s ELSE %s" % (g.cond(), g.let(), g.print()),
             lambda: "IF %s THEN %s:%s ELSE %s:%s" % (g.cond(), g.let(), g.let(), g.let(), g.print()), lambda: "IF %s THEN IF %s THEN %s ELSE %s" % (g.cond(), g.cond(), g.let(), g.let()),
             lambda: "FOR I=%s TO %s" % (g.num(), g.num()), lambda: "FOR I=%s TO %s STEP %s" % (g.num(), g.num(), g.num()), lambda: r.choice(["NEXT", "NEXT I", "NEXT I,J", "NEXT I , J,K"]), lambda: r.choice(["GOTO 10", "GOSUB 20", "RETURN", "END", "STOP", "CLEAR", "RANDOMIZE", "RANDOMIZE 5", "RESTORE", "RESTORE 10", ""]),
             lambda: "ON %s %s 10%s" % (g.num(), r.choice(["GOTO", "GOSUB"]), ",20" * r.randint(0, 5)), lambda: "READ " + ",".join(g.lvalue() for _ in range(r.randint(1, 3))), lambda: "DATA " + ",".join(r.choice(["1", "\"x\"", "word", "", "a b"]) for _ in range(r.randint(1, 4))),
             lambda: "DIM " + ",".join("%s(%s)" % (r.choice(["A", "B$", "ZZ"]), ",".join(g.num(1) for _ in range(r.randint(1, 2)))) for _ in range(r.randint(1, 3))), lambda: "DEF FNA(X)=%s" % g.num(), lambda: "DEF FNB$(Y)=%s" % g.str(), lambda: "DEF HALF(A)=A/2",
             lambda: "INPUT " + r.choice(["", "\"p\";", "\"p\",", "\"p\", ", "\"p\" ; ", "\"p\" ,"]) + ",".join(g.lvalue() for _ in range(r.randint(1, 3))), lambda: "LINE INPUT " + r.choice(["", "\"p\";", "\"p\",", "\"p\", ", "\"p\" ; "]) + r.choice(["A$", "B$(1)"]), lambda: "REM " + g.str_lit(), lambda: "RANDOMIZE " + g.num()]
        s = [r.choice(f)() for _ in range(r.randint(1, 3))]
        return ":".join(s)

    def mutate(self, r, l):
        k = r.randrange(7)
        try:
            t = [x for _, x in tokens(l)]
        except model.SyntaxErr:
            t = list(l)
        if not t:
            return r.choice(TOKENS)
        i = r.randrange(len(t))
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, r.choice(TOKENS))
        elif k == 2:
            t[i] = r.choice(TOKENS)
        elif k == 3:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            t = t[:i]
        elif k == 5:
            t.insert(i, t[r.randrange(len(t))])
        else:
            c = list(l)
            c[r.randrange(len(c))] = r.choice("()\",;:=<>+-*/^$.?@ #1AE")
            return "".join(c)
        return "".join(t)

    def gen(self, r, i):
        k = i % 4
        n = r.size([1, 2, 4, 8, 20])
        mutated = True
        if k == 0:
            lines = [self.all_forms(r) for _ in range(n)]
            if n > 2:
                lines[0:0] = ["PRINT \"ran\""]
            mutated = r.random() < 0.6
            if r.random() < .1:
                lines = ["PRINT \"ran\""] + self.ahead(r)
                mutated = r.random() < .2
            if i % 8 == 4:
                lines = ["PRINT \"ran\"", self.joined(r, i // 8)]
                mutated = False
            elif i % 160 == 8:
                lines = ["PRINT \"ran\"", self.nested(r)]
                mutated = False
            elif i % 160 == 40:
                lines = ["PRINT \"ran\""] + self.many(r)
                mutated = r.random() < .3
            elif i % 160 == 72:
                # one line of many statements
                n = r.size([20, 50, 99, 100, 101, 127, 128, 129, 255, 256, 300])
                t = r.choice([["A=1"], ["A=1", "PRINT A", ""], ["IF A THEN B=1"], ["GOTO 10", "A=A+1"], ["REM" if 0 else "PRINT"]])
                lines = ["PRINT \"ran\"", ":".join(r.choice(t) for _ in range(n)) + r.choice(["", "", ":", " ELSE C=1", ":PRINT (", ":A=", " 5", ":C=1 D=2"])]
                mutated = False
        elif k == 1:
            lines = [l for _, l in Prog(r, errors=0, stdin=False, size=r.choice([3, 8])).build().out]
            nums = None
        elif k == 2:
            lines = ["PRINT \"ran\""] + [r.choice(self.NEAR) for _ in range(r.choice([1, 1, 1, 2, 3]))] + ["END", "A=1"]
            mutated = False
        else:
            # every near miss in turn, in different surroundings
            j = (i // 4) % len(self.NEAR)
            w = self.NEAR[j]
            if i // 4 % 2:
                w = self.edited(i // 8)
            surround = ["%s", "IF 0 THEN %s", "END:%s", "IF 1 THEN PRINT 1 ELSE %s", "REM x:%s", "%s:PRINT 2", "A=1:%s", "GOTO 30:%s", "%s ELSE PRINT 3"]
            lines = ["PRINT \"ran\"", r.choice(surround) % w if r.random() < 0.7 else w, "PRINT 3"]
            mutated = False
        if mutated:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                j = r.randrange(len(lines))
                lines[j] = self.mutate(r, lines[j])
        if k == 1 and r.random() < 0.5:
            lines.insert(0, "PRINT \"first\"")
        nums = numbers(r, len(lines))
        prog = "".join("%d %s\n" % (a, b) for a, b in zip(nums, lines))
        opts = ["-q", "-k"] if r.random() < 0.07 else ["-q"]
        if i % 5 == 2:
            return session(["A9=7:B9$=\"k\"", "LOAD \"p\"", "RUN", "PRINT A9;B9$", "LIST"] + [r.choice(["COMPILE", "RUN", "GOTO %d" % nums[-1], "PRINT 1"])], files={"p": prog}, opts=opts, max_ops=5000)
        return batch(prog, opts=opts, max_ops=5000, stdin="1,2,3\nx\n" * 5)

    def accepted(self, prog, crunch):
        """None, or the offending line as (number, text)"""
        src = model.parse_file(prog)
        try:
            model.Parser({}, crunch).program(src)
        except model.SyntaxErr as x:
            return src[x.args[0]]
        return None

    def nontrivial(self, e):
        return True

    def judge_case(self, case):
        text = case["prog"] if case["mode"] == "batch" else case["files"]["p"]
        try:
            bad = self.accepted(text, case.crunch)
        except model.LoadErr:
            return Outcome("skip", case, "load error")
        except model.Unsure:
            return Outcome("skip", case, "Unsure")
        st = {"rejected" if bad else "accepted": 1}
        res = run_case(self.exe["plain"], batch(text, opts=case["opts"] + ["-p"]))
        d = abnormal(res)
        if d is None and res.rc != (1 if bad else 0):
            d = "exit status %r for a program that %s" % (res.rc, "must be rejected because of line %d %s" % bad if bad else "is well-formed: %r" % res.err[:200])
        if d is None and res.out != "":
            d = "unexpected output %r" % res.out[:100]
        if d is None:
            d = check_err([("syntax", "%d %s" % bad)] if bad else [], res.err)
        if d:
            return Outcome("bad", case, "--parse: " + d, stats=st)
        # where the model cannot follow the run (limits, clock) the rejection still shows
        o = super().judge_case(case)
        o.runs += 1
        if o.kind == "skip":
            return Outcome("ok", case, stats=st)
        o.stats = dict(o.stats)
        merge(o.stats, st)
        return o


# ---------------------------------------------------------------- L02

NUMCTX = {"GOTO", "GOSUB", "THEN", "ELSE", "RESTORE"}
CLEAN = dict(numvars=["A", "B", "C", "X", "Y", "Z1", "cu", "Q9", "xyz", "M"], strvars=["A$", "B$", "nm$", "S1$", "X$", "Wd$"],
             numarrs=["A", "V", "mat", "B2"], strarrs=["A$", "L$", "nms$"])


def respell(r, text, crunch, level):
    """Another spelling of the same line"""
    tk = [(k, t) for k, t in tokens(text, crunch) if k != "blank"]
    out = []
    prev = None
    ref = False
    after = None
    for j, (k, t) in enumerate(tk):
        w = t
        if k in ("kw", "id"):
            w = "".join(c.upper() if r.random() < 0.5 else c.lower() for c in t) if level & 1 else t
        if k == "num" and level & 2:
            x = float(t)
            if not ref:
                w = numform(r, t, x)
        if k == "kw" and t.upper() == "PRINT" and level & 4 and r.random() < 0.7:
            k, w = "op", "?"
        elif k == "op" and t == "?" and level & 4 and r.random() < 0.5:
            k, w = "kw", "PRINT"
        if k == "kw" and t.upper() == "LET" and level & 8:
            continue
        start = prev is None or prev[1] == ":" or prev[1].upper() in ("THEN", "ELSE")
        if k == "id" and start and level & 8 and r.random() < 0.5 and j + 1 < len(tk):
            out.append(("kw", r.choice(["LET", "let"])))
        out.append((k, w))
        if k == "kw" or k == "id" or k == "op" and w not in ",":
            lst = k == "kw" and t.upper() in NUMCTX
            ref = lst
            if k == "kw" and t.upper() in ("GOTO", "GOSUB"):
                after = "list"
            elif k != "op" or w != ",":
                after = None if not lst else after
        elif k == "num":
            ref = False
        elif k == "op" and w == ",":
            ref = after == "list"
        prev = (k, w)
    # blanks
    s = ""
    for j, (k, w) in enumerate(out):
        if j:
            pk, pw = out[j - 1]
            need = False
            word = ("kw", "id", "num")
            if pk in word and k in word:
                need = True
                if crunch and (pk == "kw" or k == "kw") and level & 16:
                    need = False
            if pk == "op" and k == "op" and pw + w in ("<=", ">=", "<>"):
                need = True
            if pk == "id" and w[:1] == "$":
                need = True
            if pk == "num" and w[:1] == "." or pk == "kw" and w[:1] == ".":
                need = pk == "num"
            if k == "data" and level & 32:
                s += databody(r, w)
                continue
            if k == "data" or k == "rem":
                # the body keeps its own blanks; at least one is there
                s += w if w[:1] in " \t" or not w or crunch else w
                continue
            if pk == "data" and False:
                pass
            if level & 16 and r.random() < 0.8:
                s += " " if need else ""
            else:
                s += r.choice([" ", "  ", "\t", " \t "]) if (need or r.random() < 0.5) else ""
        s += w
    return s


def databody(r, w):
    """the same items with other blanks around them"""
    out = ""
    word = quote = False
    for c in w:
        if quote:
            quote = c != '"'
        elif c == ",":
            word = False
            out += r.choice(["", "", " ", "\t", " \t "]) + c + r.choice(["", " ", "\t", "\t\t ", "  "])
            continue
        elif c == '"' and not word:
            quote = True
            word = True
        elif c not in " \t":
            word = True
        out += c
    return r.choice(["", " ", "\t", "  \t"]) + out + ("" if quote else r.choice(["", " ", "\t", " \t"]))


def numform(r, t, x):
    c = [t, t.upper(), t.lower()]
    if re.fullmatch(r"\d+", t):
        c += ["0" + t, "000" + t, t + ".", t + ".0", t + "E0", t + "e+0", t + "e-0", t + "E00", "%se%d" % (t, 0)]
        if t.endswith("0") and t.strip("0"):
            c += [t[:-1] + "E1", t[:-1] + "e+1", t[:-1] + "e01"]
        c.append(t + "0E-1")
    elif re.fullmatch(r"\d*\.\d+", t):
        c += [t + "0", "0" + t, t + "e0", t + "E+00"]
        if t.startswith("0."):
            c.append(t[1:])
        a, b = t.split(".")
        if len(a + b) < 15:
            c.append((a + b) + "E-%d" % len(b))
    c = [y for y in c if float(y) == x]
    return r.choice(c)


class L02(Check):
    prop = "L02"
    quick = 6750
    thorough = 102000
    rule = ("one case = one random program of all statement forms in four to six spellings - letter case, blanks and tabs "
            "added and removed wherever optional, LET, ?, number forms, CRLF, no final newline, blanks around keywords "
            "removed under --keywords-anywhere - all run on the same input and compared with each other and with the "
            "model; non-trivial = the program printed something")

    def gen(self, r, i):
        crunch = i % 3 == 2
        p = Prog(r, errors=0.01, casing=r.random() < 0.5, size=r.size([3, 6, 12, 20]))
        if crunch:
            for k, v in CLEAN.items():
                setattr(p, k, v)
            p.forvars = ["I", "J", "K", "I1", "j2", "L", "M", "P"]
        p.build()
        if crunch:
            p.out = [(n, re.sub(r"(?i)\bFNsq\b", "FQ", t)) for n, t in p.out]
        lines = p.out
        extra = []
        if r.random() < 0.5:
            last = lines[-1][0]
            if last < 65000:
                e = ["PRINT \"THEN A=1:IF\";\"  x  \"", "DATA  Mixed Case , \"  kept  \",GOTO 10", "RESTORE %d:READ A$,B$,X$:PRINT \"<\";A$;\"><\";B$;\"><\";X$;\">\"" % (last + 2), "REM remark: PRINT \"no\"", "PRINT \"a\tb\";\"PrInT\"",
                     "PRINT 1E3;2.50;.5;1e-2;100"]
                for j, t in enumerate(e):
                    extra.append((last + 1 + j, t))
                if lines[-1][1] in ("END",):
                    lines[-1] = (lines[-1][0], "REM")
        lines = lines + extra
        variants = []
        for v in range(r.choice([3, 4, 5])):
            level = r.choice([1, 2, 4, 8, 16, 0, 32, 63, r.randrange(64), r.randrange(64) | 16])
            try:
                # whatever is not stored in the same order stays as it is
                new = [(n, respell(r, t, crunch, level)) for n, t in lines]
            except model.SyntaxErr:
                return None
            nl = r.choice(["\n", "\n", "\r\n"])
            text = nl.join("%d%s%s" % (n, r.choice([" ", " "]) if t[:1].isdigit() or level & 16 == 0 or t == "" else r.choice([" ", ""]), t) for n, t in new)
            if r.random() < 0.6:
                text += nl
            variants.append((text, r.random() < 0.5 or (crunch and level & 16 > 0) if crunch else False))
        c = batch(model.file_text(lines), stdin=p.stdin(), opts=["-q"], max_ops=15000)
        c["variants"] = [list(v) for v in variants]
        return c

    def clean_err(self, err):
        """messages without the text of lines, which is as spelled"""
        return re.sub(r"[ \t]+", " ", re.sub(r"(?m)^(\d+) .*$", r"\1", err)).lower()

    def judge_case(self, case):
        if case is None:
            return Outcome("skip", detail="line cannot be scanned")
        base_case = Case((k, v) for k, v in case.items() if k != "variants")
        o = super().judge_case(base_case)
        o.case, o.key = case, case.key()
        if o.kind != "ok":
            return o
        e = expect(base_case)
        if any(k == "syntax" for k, _ in e.err):
            o.nontrivial = False
        want = run_case(self.exe["plain"], base_case)
        o.runs += 1
        for text, crunch in case["variants"]:
            c = batch(text, stdin=case["stdin"], opts=["-q", "-k"] if crunch else ["-q"])
            got = run_case(self.exe["plain"], c)
            o.runs += 1
            bad = abnormal(got)
            if bad is None and got.rc == "timeout":
                continue
            if bad is None and got.rc != want.rc:
                bad = "exit status %r" % got.rc
            if bad is None and got.out != want.out:
                bad = "output " + diff_text(want.out, got.out)
            if bad is None and self.clean_err(got.err) != self.clean_err(want.err):
                bad = "errors %r, expected %r" % (got.err[:300], want.err[:300])
            if bad:
                keep = Case(case)
                keep["variants"] = [[text, crunch]]
                return Outcome("bad", keep, "the spelling\n%s\ndiffers from\n%s: %s" % (text[:600], case["prog"][:600], bad), runs=o.runs)
            o.stats["variants"] = o.stats.get("variants", 0) + 1
            if crunch:
                o.stats["crunched"] = o.stats.get("crunched", 0) + 1
        o.nontrivial = bool(want.out.strip())
        return o

    def shrink(self, case):
        return case


# ---------------------------------------------------------------- L03

FORBLOCK = re.compile(r"\[(?:FOR|NEXT-VARIABLE|NEXT-IMPLICIT)\]\n-- line: [^\n]*\n-- initial stack: [^\n]*\n(?:-- overflow: [^\n]*\n)?(-- final stack: [^\n]*\n)?")
MEM = re.compile(r"\nmalloc: +(\d+)\nfree: +(\d+)\n\Z")
LONG = {"-t": "--trace-basic", "-f": "--trace-for", "-g": "--trace-log", "-m": "--report-memory", "-q": "--quiet", "-l": "--list", "-n": "--list-names", "-p": "--parse", "-c": "--code", "-r": "--run", "-k": "--keywords-anywhere"}


class L03(Check):
    prop = "L03"
    quick = 5250
    thorough = 79000
    rule = ("one case = one random program (loops, subroutines, INPUT, errors, STOP) or session run plainly and under several "
            "random combinations of the observing options; what each option adds is taken out and the rest must be the "
            "same, the traced lines must be those the model executed, and --list, --code, --parse and --list-names must "
            "show the program without running it")
    OBS = ["-t", "-f", "-g", "-m", "-q"]

    def gen(self, r, i):
        p = Prog(r, errors=r.choice([0, 0.01, 0.04]), stops=r.choice([0, 0.4]), size=r.size([3, 6, 12, 20])).build()
        if i % 5 == 1:
            self.jumps(r, p)
        if i % 15 == 7:
            self.deep(r, p)
        text = p.text
        if i % 9 == 5:
            L = L01()
            out = list(p.out)
            j = r.randrange(len(out))
            out[j] = (out[j][0], L.mutate(r, out[j][1]))
            text = "".join("%d %s\n" % l for l in out)
        if i % 21 == 8:
            # lines much longer than any window is wide
            out = list(p.out)
            for _ in range(r.randint(1, 3)):
                j = r.randrange(len(out))
                n = r.choice([60, 79, 80, 100, 127, 128, 200, 250, 254, 255, 256, 257, 300, 500, 511, 512, 513, 900]) + r.choice([0, 0, -1, 1, -2, -3])
                t = r.choice(["A=A+1:", "PRINT \"%s\":" % ("x" * r.randint(1, 100)), "Z=LEN(A$)*2 : ", "REM long text ", "DATA 1,two,\"three\",", ":"])
                out[j] = (out[j][0], (out[j][1] + ":" + t * n)[:n].rstrip(" :,=+*(\"") if t[0] in "RD:" else out[j][1] + ":" + (t * (n // len(t) + 1)).rstrip(" :"))
            text = "".join("%d %s\n" % l for l in out)
        if i % 9 == 7:
            text = r.choice([text + "oops\n", "10 PRINT 1\n5 PRINT 2\n", "", text + "\n" + text, "PRINT 1\n", text[:-1]])
        if i % 4 == 3:
            cmds = [l for l in p.text.split("\n")[:-1]]
            if any(not fits(l) for l in cmds):
                c = session(["LOAD \"p\""], files={"p": p.text}, max_ops=15000)
            else:
                c = session(cmds, max_ops=15000)
            n = r.choice(p.nums)
            for x in ["RUN"] + [r.choice(["RUN", "CONT", "FOR I=1 TO 3:PRINT I:NEXT", "PRINT A;A$", "GOTO %d" % n, "GOSUB %d" % n, "NEXT", "LIST", "A=1", "PRINT (", "%d" % n, "FOR I=1 TO 2:FOR J=1 TO 2:NEXT J,I"]) for _ in range(r.randint(1, 8))]:
                c["stdin"] += x + "\n"
        else:
            c = batch(text, stdin=p.stdin(), max_ops=15000)
        sets = [r.sample(self.OBS, r.randint(1, 5)) for _ in range(3)] + [[o] for o in r.sample(self.OBS, 2)]
        c["sets"] = [[LONG[o] if r.random() < 0.3 else o for o in s] for s in sets]
        c["opts"] = r.choice([["-q"], ["-q"], []])
        if c["mode"] == "batch" and r.random() < 0.1:
            c["sets"].append(["-r", "-q"])
        return c

    def deep(self, r, p):
        """replaces the program by one with as many loops and subroutines active as there can be"""
        vs = list("IJKLMNPQR")
        r.shuffle(vs)
        d, e = r.choice([0, 1, 3, 6, 7, 8, 8, 9]), r.choice([0, 1, 3, 6, 7, 8, 8, 9])
        open_ = ["FOR"] * d + ["GOSUB"] * e
        if r.random() < .5:
            r.shuffle(open_)
        L, k = [], 0
        for o in open_:
            if o == "GOSUB":
                n = len(L)
                L += ["GOSUB @%d:PRINT \"back\"" % (n + 2), "END"]
            else:
                L.append("FOR %s=1 TO %d" % (vs[k], r.choice([1, 1, 2])))
                k += 1
            if r.random() < .3:
                L.append("PRINT %s;" % vs[k - 1])
        L += ["PRINT \"in\"", r.choice(["PRINT I;J;K", "STOP", "DEF FNA(X)=X*2:PRINT FNA(3)", "A=A+1"])]
        for v in reversed(vs[:k]):
            L.append("NEXT" + r.choice(["", " " + v]))
        L += ["PRINT \"out\"", "RETURN"]
        p.nums = numbers(r, len(L))
        if "GOSUB" in open_ and p.nums[-1] > 65535:
            p.nums = [10 * k + 10 for k in range(len(L))]
        p.out = [(a, re.sub(r"@(\d+)", lambda m: str(p.nums[int(m.group(1))]), l)) for a, l in zip(p.nums, L)]
        p.text = "".join("%d %s\n" % l for l in p.out)

    def jumps(self, r, p):
        """replaces the program by one whose lines go to themselves and look at the loop variables afterwards"""
        L = []
        for _ in range(r.size([2, 4, 8, 15])):
            v = r.choice(["I", "J", "K", "x"])
            w = r.choice(["M", "N"])
            k = r.randint(1, 4)
            L.append(r.choice([
                ["C=0", "C=C+1:IF C<%d THEN @.@" % k], ["C=C+1:PRINT C;:IF C<%d THEN GOTO @.@ ELSE C=0" % k], ["C=C+1:ON (C<%d)*-1 GOTO @.@" % k, "C=0"],
                ["D=D+1:IF D>%d THEN @+@ ELSE GOTO @.@" % k, "PRINT D:D=0"], ["E=E+1:IF E<%d THEN GOSUB @.@" % k, "PRINT E:E=99"],
                ["FOR %s=1 TO %d:NEXT" % (v, k), "PRINT %s" % v], ["FOR %s=1 TO %d" % (v, k), "PRINT %s;" % v, "NEXT %s" % v, "PRINT %s" % v],
                ["FOR %s=%d TO 1 STEP -1:FOR %s=1 TO 2" % (v, k, w), "PRINT %s;%s;:NEXT %s,%s" % (v, w, w, v), "PRINT %s+%s" % (v, w)],
                ["FOR %s=1 TO 0:NEXT:PRINT %s" % (v, v)], ["FOR %s=1 TO 3:IF %s<2 THEN NEXT" % (v, v), "PRINT %s" % v], ["PRINT I;J;K;X;M;N"], ["NEXT"], ["RETURN"] if r.random() < .3 else ["I=I+1"],
                ["FOR %s=1 TO %d:FOR %s=1 TO 2:PRINT %s;:NEXT:PRINT:NEXT:PRINT %s;%s" % (v, k, w, w, v, w)]]))
        n = sum(map(len, L))
        p.nums = numbers(r, n)
        flat = [t for l in L for t in l]
        k = n
        while k > 1 and "@" not in flat[k - 1] and "@+@" not in flat[k - 2]:
            k -= 1
        if k < n and r.random() < .5:
            # lines beyond the reach of jumps
            a = max(p.nums[-1], r.choice([65535, 65536, 70000, 100000, 1000000, 4294960000]))
            k = r.randint(k, n - 1)
            p.nums[k:] = list(range(a + 1, a + 1 + n - k))
        p.out = []
        for l in L:
            for t in l:
                j = len(p.out)
                p.out.append((p.nums[j], t.replace("@.@", str(p.nums[j])).replace("@+@", str(p.nums[min(j + 1, n - 1)]))))
        p.text = "".join("%d %s\n" % l for l in p.out)

    def shrink(self, case):
        return case

    def judge_case(self, case):
        base_case = Case((k, v) for k, v in case.items() if k != "sets")
        o = super().judge_case(base_case)
        o.case, o.key = case, case.key()
        if o.kind != "ok":
            return o
        st = o.stats
        plain = run_case(self.exe["plain"], base_case)
        plain_out = BANNER.sub("", plain.out) if "-q" not in case["opts"] else plain.out
        o.runs += 1
        nan = expect(base_case).nan
        traced = expect(Case(base_case, opts=["-q", "-t"]))
        if plain.rc == "timeout":
            return Outcome("inconclusive", case, "timeout")

        def bad(s, what):
            return Outcome("bad", Case(case, sets=[s]), "with options %s: %s" % (" ".join(s), what), runs=o.runs)
        for s in case["sets"]:
            short = {k for k in LONG if k in s or LONG[k] in s}
            got = run_case(self.exe["plain"], Case(base_case, opts=s))
            o.runs += 1
            d = abnormal(got)
            if d:
                return bad(s, d)
            if got.rc != plain.rc:
                return bad(s, "exit status %r, expected %r" % (got.rc, plain.rc))
            if got.files != plain.files:
                return bad(s, "files written differ")
            out = got.out
            if "-q" not in short:
                m = BANNER.match(out)
                if not m:
                    return bad(s, "no version information: %r" % out[:80])
                out = out[m.end():]
            m = MEM.search(out)
            if ("-m" in short) != bool(m) and plain.rc == 0:
                return bad(s, "memory report %s" % ("missing" if m is None else "not asked for"))
            if m:
                out = out[:m.start()]
                if m.group(1) != m.group(2):
                    return bad(s, "memory report: %s blocks allocated, %s released" % m.groups())
            if "-f" in short:
                out, k = FORBLOCK.subn("", out)
                if case["mode"] == "batch":
                    want = sum(traced.stats.get(x, 0) for x in ("FOR", "NEXT"))
                    if k != want:
                        return bad(s, "%d FOR and NEXT reported, %d executed" % (k, want))
                st["for blocks"] = st.get("for blocks", 0) + k
            want = traced.out if "-t" in short else plain_out
            if "-t" in short:
                st["traced lines"] = st.get("traced lines", 0) + 1
            if not same_text(want, out, nan):
                return bad(s, "output " + diff_text(want, out))
            err = got.err
            if "-g" in short and case["mode"] == "batch":
                i = err.find("Runtime error:")
                j = plain.err.find("Runtime error:")
                if (i < 0) != (j < 0):
                    return bad(s, "errors %r, expected %r" % (err[-300:], plain.err[:300]))
                if j >= 0:
                    # the log stops where the error is reported
                    err = err[i:]
                    if err != plain.err[j:]:
                        return bad(s, "errors %r, expected %r" % (err[:300], plain.err[:300]))
                elif plain.err and plain.err not in err:
                    return bad(s, "errors %r, expected %r" % (err[:300], plain.err[:300]))
                log = got.err if i < 0 else got.err[:i]
                if not traced.err or traced.err[0][0] == "run":
                    lines = [l for l in log.split("\n") if re.match(r"\d+ ", l)]
                    src = dict(model.parse_file(case["prog"]))
                    want = ["%d %s" % (n, src[n]) for n in map(int, re.findall(r"\[(\d+)\]", "".join("[%d]" % n for n in traced.lines_run)))]
                    if lines != want:
                        k = next((x for x in range(min(len(lines), len(want))) if lines[x] != want[x]), min(len(lines), len(want)))
                        return bad(s, "log of lines executed differs at %d: %r, expected %r" % (k, lines[k:k + 2], want[k:k + 2]))
            elif err != plain.err:
                return bad(s, "errors %r, expected %r" % (err[:300], plain.err[:300]))
        if case["mode"] == "batch":
            d = self.modes(case, plain)
            o.runs += 6
            if d:
                return Outcome("bad", case, d, runs=o.runs)
        return o

    def modes(self, case, plain):
        """--list --parse --code --list-names"""
        text = case["prog"]
        try:
            src = model.parse_file(text)
            rc = 0
        except model.LoadErr:
            src, rc = None, 1
        try:
            bad = None
            if src is not None:
                model.Parser({}, False).program(src)
        except model.SyntaxErr as x:
            bad = src[x.args[0]]
        exe = self.exe["plain"]

        def go(opts):
            return run_case(exe, batch(text, stdin=case["stdin"], opts=["-q"] + opts))
        r = go(["-l"])
        want = "".join("%5u %s\n" % l for l in src) if src is not None else ""
        if abnormal(r) or r.rc != rc or r.out != want or (rc == 0 and r.err):
            return "--list: status %r, errors %r, output %s" % (r.rc, r.err[:200], diff_text(want, r.out))
        r = go(["-p"])
        prc = 1 if rc or bad else 0
        if abnormal(r) or r.rc != prc or r.out != "" or (prc == 0) != (r.err == ""):
            return "--parse: status %r (expected %d), errors %r, output %r" % (r.rc, prc, r.err[:200], r.out[:200])
        perr = r.err
        r = go(["-c"])
        if abnormal(r) or r.rc != prc or r.err != perr:
            return "--code: status %r (expected %d), errors %r" % (r.rc, prc, r.err[:200])
        r2 = go(["-c"])
        if r2.out != r.out:
            return "--code: second time " + diff_text(r.out, r2.out)
        if prc:
            if r.out:
                return "--code printed %r for a rejected program" % r.out[:200]
        else:
            k = -1
            shown = []
            for l in r.out.split("\n")[:-1] if r.out.endswith("\n") else r.out.split("\n"):
                if l == "" and not src:
                    continue
                m = re.match(r" *(\d+) ([A-Z][A-Z0-9-]*)(?: |$)", l)
                if not m or int(m.group(1)) != k + 1:
                    return "--code printed %r after instruction %d" % (l[:100], k)
                k += 1
                if m.group(2) == "LINE":
                    shown.append(l)
            if [l.split(": ", 1)[-1] for l in shown] != ["%d %s" % l for l in src]:
                return "--code does not show every line: %r" % shown[:3]
        r = go(["-n"])
        if abnormal(r) or (rc == 1 and r.rc != 1):
            return "--list-names: status %r %r" % (r.rc, r.err[:200])
        if not bad and rc == 0:
            for l in r.out.split("\n")[:-1]:
                if not re.fullmatch(r"[ *=] [A-Za-z][A-Za-z0-9]*\$?", l):
                    return "--list-names printed %r" % l[:100]
        return None


# ---------------------------------------------------------------- L04

class L04(Check):
    prop = "L04"
    quick = 12000
    thorough = 180000
    level = "exploration"
    rule = ("one case = one program with names of every kind (variables, arrays, functions, built-ins and near built-ins, "
            "TAB and SPC, one to 127 characters, many spellings of one name, up to 800 names in random order) and the same "
            "words in strings, remarks and quoted data, also crunched; --list-names is compared with the names the "
            "model's scanner finds, and every flag with whether an assignment to the name is accepted")
    NEAR = ["LEFT", "LEFT$", "MID", "RIGHT", "STR", "VAL$", "LEN$", "ASC$", "ABS$", "ABSX", "AB", "SINE", "RN", "RND", "RND$", "RNDX", "CHR", "CHR$", "TIME", "TIME$", "TABLE", "TAB$", "SPCX", "SPACE", "SPC$", "INT1", "I", "USR", "USR$", "FIX", "HEX$",
            "HEX", "GET$", "GET", "INKEY$", "INKEY", "SPACE$", "A", "A$", "a", "a$", "aA", "A1", "A1$", "Z", "Z9", "FNA", "FNA$", "x", "X", "SQRT", "SQ", "LOGO", "LO", "EXPO", "TANK", "ATNX", "COST", "SGN1", "VALUE"]

    def name(self, r, crunch):
        k = r.random()
        if k < 0.35:
            s = r.choice(self.NEAR)
        elif k < 0.6:
            s = r.choice(list(model.BUILTINS))
        elif k < 0.65:
            s = r.choice("ABCXYZ") + "".join(r.choice("ABCQXYZ0123456789") for _ in range(r.size([1, 5, 30, 100, 125])))
        else:
            s = r.choice("ABCDXYZ") + r.choice(["", "", r.choice("ABXYZ019")]) + r.choice(["", "$"])
        s = rcase(r, s)
        if s.upper() in model.KEYSET or (crunch and any(k in s.upper() for k in model.KEYWORDS)):
            return "Q"
        return s

    def gen(self, r, i):
        crunch = i % 4 == 3
        lines = []
        if i % 15 == 4:
            n = r.size([63, 64, 65, 292, 293, 294, 800])
            many = ["%s%d%s" % (r.choice("ABCXYZ"), k, r.choice(["", "$"])) for k in range(n)]
            o = r.randrange(3)
            if o == 0:
                r.shuffle(many)
            elif o == 1:
                many.sort(reverse=True)
            for k in range(0, n, 5):
                lines.append("PRINT " + ";".join(many[k:k + 5]))
        if i % 6 == 5:
            # alike up to some length
            base = r.choice("ABCXYZ") + "".join(r.choice("ABCQXYZ0123456789") for _ in range(r.size([3, 7, 15, 30, 31, 32, 40, 63, 64, 100, 126, 127, 200, 250])))
            if not crunch or not any(k in base for k in model.KEYWORDS):
                for _ in range(r.randint(2, 5)):
                    k = r.choice([len(base), len(base), len(base) - 1, r.randint(1, len(base))])
                    lines.append("%s=1" % rcase(r, base[:k] + r.choice(["", "", "X", "0", "9", "XY"])) if r.random() < .7 else "%s$=\"\"" % rcase(r, base[:k]))
        for _ in range(r.size([1, 3, 8, 20])):
            a, b, c, d = (self.name(r, crunch) for _ in range(4))
            lines.append(r.choice(["PRINT %s;%s" % (a, b), "%s=%s(%s)" % (a, b, c), "IF %s THEN %s ELSE %s" % (a, b, c), "FOR %s=%s TO %s STEP %s" % (a, b, c, d), "REM %s %s" % (a, b), "PRINT \"%s %s\";%s" % (a, b, c), "DATA \"%s\",12,\"%s\"" % (a, b), "INPUT \"%s\";%s" % (a, b),
                                   "DIM %s(10),%s(%s)" % (a, b, c), "DEF %s(%s)=%s*%s" % (a, b, b, c), "PRINT %s(%s);%s(%s);tab(1)" % (rcase(r, "TAB"), a, rcase(r, "SPC"), b), "NEXT %s,%s" % (a, b), "READ %s,%s(%s)" % (a, b, c), "LET %s=%s+%s" % (a, b, c), "ON %s GOTO 10,20:%s=1" % (a, b), "%s" % a, "%s(%s,%s" % (a, b, c),
                                   "PRINT %s:REM %s" % (a, b), "PRINT %s ' %s" % (a, b), "DATA 1,2:%s=%s" % (a, b), "?%s;1E5;%s" % (a, b), "GOSUB 10:RETURN:STOP:END:%s" % a, "PRINT NOT %s AND %s OR %s" % (a, b, c), "PRINT %s\"x %s\"%s" % (a, b, c), "PRINT%s%s%s%s" % (" " if not crunch else "", r.choice(["A", "B", "z", "X9", "q$"]), r.choice(["\"x\"", "", "(1)", ".5", "&", "\t"]), r.choice([";", ":", ",", ""]) + "\"y\"" )]))
        if crunch:
            lines = [re.sub(r" ?(THEN|ELSE|TO|STEP|GOTO|AND|OR|NOT|PRINT|LET|FOR|NEXT|IF) ?", lambda m: r.choice([m.group(1), m.group(0)]), l) if "\"" not in l and "REM" not in l and "DATA" not in l else l for l in lines]
            for k in range(len(lines)):
                if r.random() < .3:
                    # blanks outside strings and remarks gone
                    a = re.split(r"(\"[^\"]*\"|(?:REM|').*)", lines[k])
                    a[::2] = [re.sub(" ", lambda m: r.choice(["", "", " "]), x) for x in a[::2]]
                    lines[k] = "".join(a)
        nums = list(range(10, 10 * len(lines) + 10, 10))
        return batch("".join("%d %s\n" % (a, b) for a, b in zip(nums, lines)), opts=["-q"] + (["-k"] if crunch else []))

    def names(self, prog, crunch):
        found = {}
        for _, t in model.parse_file(prog):
            lx = model.Lexer(t, crunch)
            while lx.tok[0] != "eol" and lx.tok != ("kw", "REM"):
                if lx.tok[0] == "err":
                    raise model.SyntaxErr
                if lx.tok[0] == "id":
                    found.setdefault(lx.tok[1].upper(), set()).add(lx.tok[1])
                lx.next()
        return found

    def judge_case(self, case):
        try:
            want = self.names(case["prog"], case.crunch)
        except model.SyntaxErr:
            return Outcome("skip", case, "line cannot be scanned")
        res = run_case(self.exe["plain"], Case(case, opts=case["opts"] + ["-n"]))
        bad = abnormal(res)
        if bad is None and (res.rc != 0 or res.err):
            bad = "status %r, errors %r" % (res.rc, res.err[:200])
        got = []
        if bad is None:
            for l in res.out.split("\n")[:-1]:
                m = re.fullmatch(r"([ *=]) (\S+)", l)
                if not m:
                    bad = "line %r" % l
                    break
                got.append(m.groups())
        if bad is None:
            keys = [n.upper() for _, n in got]
            if keys != sorted(want):
                extra = [k for k in keys if k not in want]
                miss = [k for k in want if k not in keys]
                bad = "names missing %r, not in the program %r, %s" % (miss[:5], extra[:5], "repeated or out of order: %r" % keys[:40] if not extra and not miss else "")
            for f, n in got:
                if n.upper() in want and n not in want[n.upper()]:
                    bad = bad or "name %r is not spelled so in the program" % n
                w = "*" if n.upper() in model.BUILTINS else "=" if n.upper() in ("TAB", "SPC") else " "
                if f != w:
                    bad = bad or "name %s flagged %r, expected %r" % (n, f, w)
        if bad:
            return Outcome("bad", case, "--list-names: " + bad)
        # the interpreter's own view: a built-in cannot be assigned, a user's name can
        runs = 1
        r = literals.Random(case.key())
        st = {"names": len(got), "builtin": sum(f == "*" for f, _ in got)}
        for f, n in r.sample(got, min(3, len(got))):
            if f == "=":
                t = "10 PRINT \"<\";%s(3);\">\"\n" % n
                x = run_case(self.exe["plain"], batch(t))
                ok = x.out in ("<   >\n", "< >\n") and (x.out != "<0>\n")
                runs += 1
                if not ok:
                    return Outcome("bad", case, "%s is flagged = but %s(3) printed %r" % (n, n, x.out))
                continue
            v = "\"s\"" if n.endswith("$") else "7"
            t = "10 %s(2)=%s:PRINT %s(2)\n" % (n, v, n)
            x = run_case(self.exe["plain"], batch(t, opts=case["opts"]))
            runs += 1
            user = x.rc == 0 and x.err == "" and x.out == ("s\n" if n.endswith("$") else " 7 \n")
            reject = x.out == "" and x.err != ""
            if not (user if f == " " else reject):
                return Outcome("bad", case, "%s is flagged %r but the interpreter %s: %r %r" % (n, f, "uses it as an array" if user else "does not", x.out, x.err))
        return Outcome("ok", case, stats=st, runs=runs, nontrivial=len(got) > 0)
