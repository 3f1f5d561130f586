"""M01 M02 M03: memory, sanitizers, ledgers, allocation failures."""
import os
import re
import shutil
import subprocess
import tempfile

import gen
import literals
import model
from gen import Prog, numbers
from harness import *
import props_expr
import props_ctrl
import props_io
import props_edit
import props_lang
from props_expr import fits

WORKLOADS = [props_expr.E01, props_expr.E02, props_expr.E03, props_expr.E05, props_ctrl.V01, props_ctrl.V02, props_ctrl.C01, props_ctrl.C02,
             props_ctrl.C04, props_ctrl.C05, props_io.D01, props_io.O01, props_io.O02, props_edit.S01, props_edit.S02, props_edit.S03,
             props_edit.I01, props_lang.L01, props_lang.L02, props_lang.L03, props_lang.L04]
_loads = {}


def workload(r, i, only=None):
    """A case of any other check's kind"""
    for _ in range(10):
        k = only or WORKLOADS[i % len(WORKLOADS)]
        w = _loads.setdefault(k, k())
        try:
            c = w.gen(r, r.randrange(100000) if hasattr(w, "gen") else 0)
        except (IndexError, ValueError):
            c = None
        if c is not None and c.get("mode") in ("batch", "session"):
            return Case((a, b) for a, b in c.items() if a not in ("sets", "variants", "fsize"))
        i += 1
    return batch("10 PRINT 1\n")


def session_program(r):
    p = Prog(r, errors=r.choice([0, 0.02, 0.05]), stops=0.4, size=r.choice([3, 8, 15])).build()
    return p


SPICE = ["\"", "\"\"", "(", ")", "((((((((", "))))))))", ",", ";", ":", "=", "<", ">", "+", "-", "*", "/", "^", "$", ".", "?", "@", "#", "%", "%s%n", "\t", "\r", "\x01", "\x7f", "\x80", "\xff", " ", "0", "1", "9", "65536", "4294967295", "4294967296", "2147483648", "-1",
         "1E308", "1E309", "1E-400", "99999999999999999999", "1.5", ".5", "NAN", "INF", "0x1p3", "A" * 130, "A" * 126, "A" * 127, "A" * 128, "1" * 127, "1" * 128, "\"" + "q" * 126, "\"" + "q" * 127 + "\"", "\"" + "q" * 128 + "\"", "THEN", "ELSE", "GOTO", "GOSUB", "FOR", "NEXT", "TO", "STEP", "DATA", "READ", "REM", "DEF", "DIM",
         "INPUT", "LINE", "ON", "IF", "PRINT", "TAB(", "SPC(", "LEFT$(", "MID$(", "RND", "RND(", "VAL(", "STR$(", "CHR$(", "TIME$", "RESTORE", "RANDOMIZE", "STOP", "END", "CLEAR", "CLS", "FNA(", "A(", "A$(", "DEF FNA(X)=", "LIST", "RUN", "CONT", "RENUM", "NEW", "COMPILE", "NOT ", "AND", "OR", "-" * 20, "(" * 40, "NOT " * 20, "A$+" * 12]


def spoil(r, text):
    """text with a few random changes"""
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k = r.randrange(9)
        if not text:
            return r.choice(SPICE)
        i = r.randrange(len(text))
        if k <= 2:
            text = text[:i] + r.choice(SPICE) + text[i:]
        elif k == 3:
            text = text[:i] + text[i + r.size([1, 1, 2, 5, 20]):]
        elif k == 4:
            text = text[:i] + chr(r.randint(1, 255)) + text[i + 1:]
        elif k == 5:
            j = r.randrange(len(text))
            a, b = min(i, j), max(i, j)
            b = min(b, a + r.size([5, 40, 300]))
            text = text[:a] + text[a:b] * r.choice([2, 2, 3, 10]) + text[b:]
        elif k == 6:
            lines = text.split("\n")
            j, l = r.randrange(len(lines)), r.randrange(len(lines))
            lines[j], lines[l] = lines[l], lines[j]
            text = "\n".join(lines)
        elif k == 7:
            m = list(re.finditer(r"\d+", text))
            if m:
                x = r.choice(m)
                text = text[:x.start()] + r.choice(["0", "1", "8", "9", "16", "17", "127", "128", "255", "256", "65535", "65536", "-1", "1E9", "4294967295", "4294967296", ".5", "1E300", ""]) + text[x.end():]
        else:
            text = text[:i] + "\n" + text[i:]
    if len(text) > 200000:
        text = text[:200000]
    return text


def outsize(r):
    """A program much larger or deeper than any limit"""
    n = r.size([300, 999, 1001, 5000, 40000, 150000])
    m = r.size([200, 1000, 4000])
    k = r.randrange(16)
    if k == 0:
        return "10 PRINT " + "(" * n + "1" + r.choice([")" * n, ""]) + "\n"
    if k == 1:
        return "10 A=" + "2^" * n + "1\n"
    if k == 2:
        f = r.choice(["INT(", "ABS(", "-(", "NOT (", "LEN(STR$(", "VAL(STR$(", "A(", "FNA(", "1+(", "RND("])
        return "10 PRINT " + f * n + "1" + ")" * (n * f.count("(")) + "\n"
    if k == 3:
        return "10 A$=" + r.choice(["(", "LEFT$(", "A$(LEN(", "CHR$(ASC("]) * n + "\n"
    if k == 4:
        return "10 PRINT " + r.choice(["-", "NOT ", "- -"]) * n + "1\n"
    if k == 5:
        return "10 " + "IF 1 THEN " * n + r.choice(["PRINT 1", "99", ""]) + r.choice(["", " ELSE PRINT 2", " ELSE PRINT 2" * 20]) + "\n"
    if k == 6:
        return "10 " + ":" * n + "PRINT 1\n20 " + "A=A+1:" * m + "PRINT A\n"
    if k == 7:
        return "10 ON %d GOTO " % r.choice([1, m, m + 1]) + ",".join(["20"] * m) + "\n20 PRINT 1\n"
    if k == 8:
        return "10 DATA " + ",".join(r.choice(["1", "x", "\"q\"", ""]) for _ in range(m)) + "\n20 FOR I=1 TO %d:READ A$:NEXT:PRINT A$\n" % r.choice([m, m + 1])
    if k == 9:
        return "".join("%d V%d=%d:W%d$=\"x\"\n" % (j + 1, j, j, j) for j in range(m)) + "99999 PRINT V1;V%d;W3$\n" % (m - 1)
    if k == 10:
        return "".join("%d GOSUB %d\n" % (j + 1, r.randint(1, m)) for j in range(m))
    if k == 11:
        return "10 REM " + "r" * n + "\n20 PRINT 1 " + " " * n + ":PRINT 2\n"
    if k == 12:
        return "10 READ " + ",".join("A(%d)" % j for j in range(m)) + "\n20 NEXT " + ",".join(["I"] * m) + "\n"
    if k == 13:
        return "10 DIM " + ",".join("A%d(%d),B%d$(%d,2)" % (j, r.size([0, 1, 100]), j, j % 50) for j in range(m)) + "\n20 INPUT " + ",".join("X%d" % j for j in range(m)) + "\n"
    if k == 14:
        return "10 PRINT " + r.choice([";", ",", "1", "A$;", "TAB(5)", "\"\"", "1,"]) * n + "\n"
    return "10 DIM A(%d,%d),B$(%d)\n20 A(%d,%d)=1:B$(%d)=\"x\":PRINT A(0,0);B$(0)\n" % ((255, 255, 65535) + (255, 255, 65535))


def longdefs(r):
    """functions whose bodies are around the sizes at which tables grow"""
    out = []
    for j in range(r.randint(1, 4)):
        n = r.size([1, 14, 15, 16, 29, 30, 31, 32, 33, 62, 63, 64, 65, 98, 99, 100, 101, 126, 127, 128, 129, 200, 255, 256, 500, 1000]) + r.choice([-1, 0, 0, 1])
        if r.random() < .3:
            out.append("DEF FN%s$(X)=%s" % ("ABCD"[j], "+".join(r.choice(["A$", "\"s\"", "STR$(X)", "CHR$(65)"]) for _ in range(max(1, n // 2)))))
            out.append("PRINT LEN(FN%s$(%d))" % ("ABCD"[j], j))
        else:
            body = r.choice(["X"] * 3 + ["V(1)", "LEN(\"a\")", "-X"])
            out.append("DEF FN%s(X)=%s" % ("ABCD"[j], "+".join(r.choice([body, "X", "1"]) for _ in range(max(1, n // 2))) + r.choice(["", "", "-(-X)", "+ABS(X)"])))
            out.append("PRINT FN%s(%d)+FN%s(1)" % ("ABCD"[j], j, "ABCD"[j]))
        if r.random() < .3:
            out.append(r.choice(["CLEAR", out[-2], "IF 0 THEN PRINT 1", out[-1]]))
    text = "".join("%d %s\n" % (10 * k + 10, l) for k, l in enumerate(out))
    if r.random() < .5:
        return batch(text)
    return session(["LOAD \"p\""] + [r.choice(["RUN", "RUN", "PRINT FNA(1)", "PRINT FNA$(1)", "10", "LIST", "NEW"] + [l for l in out if len(l) < 120]) for _ in range(r.randint(1, 8))], files={"p": text})


def widedims(r):
    """arrays of any size, used at the ends and in the middle"""
    w = props_ctrl.V01()
    lines = []
    for _ in range(r.randint(1, 6)):
        d = w.wild(r)
        n = r.choice("ABC") + r.choice(["", "$"])
        lines.append("%s %s(%s)" % (r.choice(["DIM", "DIM", "DIM", "PRINT"]), n, ",".join(map(str, d))))
        for _ in range(r.randint(1, 5)):
            at = ",".join(str(r.choice([0, m, m // 2, r.randint(0, m), m + 1])) for m in d)
            lines.append(r.choice(["%s(%s)=%s" % (n, at, "\"x\"" if "$" in n else "1"), "PRINT %s(%s)" % (n, at), "READ %s(%s):DATA 5" % (n, at)]))
    return session([l for l in lines if fits(l)])


class M01(Check):
    prop = "M01"
    quick = 15000
    thorough = 225000
    variants = ("asan", "msan", "fort")
    rule = ("one case = a program, session or input of any other check's kind, or such a text with random changes to its bytes "
            "(numbers at limits, long runs, odd characters, function bodies and dimensions of all sizes, cut, repeated and swapped pieces, program files, typed lines, replies "
            "and files to LOAD), or a session interrupted at random steps, in every mode with random options, run under "
            "AddressSanitizer + UndefinedBehaviorSanitizer and a part of them under MemorySanitizer; a report, a signal, a failed "
            "assertion, an internal error, an unexpected exit status or a session that is not at the prompt at the end is a violation")
    assumptions = ["the sanitizers of gcc 13 and clang 18 report what they claim to", "the sandbox's C library"]
    ALIVE = "PRINT \"al\"+\"ive\""

    def gen(self, r, i):
        k = r.random()
        if i % 61 == 7:
            c = batch(outsize(r), stdin="1,2\n" * 50)
            if r.random() < .3:
                c = session(["LOAD \"p\"", r.choice(["RUN", "COMPILE", "LIST"]), r.choice(["RENUM", "SAVE \"q\"", "RUN"])], files={"p": c["prog"]})
        elif i % 61 == 8:
            c = longdefs(r)
        elif i % 61 in (9, 23, 37, 51):
            c = widedims(r)
        elif k < 0.12:
            # breaks
            p = session_program(r)
            cmds = ["LOAD \"p\"", "RUN"]
            for _ in range(r.randint(2, 12)):
                cmds.append(r.choice(["CONT", "CONT", "CONT", "CONT", "RUN", "PRINT A;A$", "NEXT", "RETURN", "LIST", "FOR I=1 TO 50:PRINT I;:NEXT", "%d PRINT 1" % r.choice(p.nums), "%d" % r.choice(p.nums), "GOTO %d" % r.choice(p.nums), "NEW", "CLEAR",
                                      "A$=A$+\"x\"+CHR$(65):PRINT FNA(1)", "RENUM", "INPUT A", "SAVE \"q\"", "LOAD \"p\"", "x("]))
            c = session(cmds, files={"p": p.text})
            hi = r.size([20, 100, 1000])
            c["env"] = {"LB_INT": ",".join(str(x) for x in sorted(r.sample(range(1, hi + 20), r.choice([1, 2, 5, 15]))))}
            if r.random() < 0.5:
                c["stdin"] += p.stdin()
        else:
            c = workload(r, i)
            if k < 0.75:
                fields = ["prog"] * 3 + ["stdin"] if c["mode"] == "batch" else ["stdin"] * 2
                if c.get("files"):
                    fields.append("files")
                f = r.choice(fields)
                if f == "files":
                    n = r.choice(sorted(c["files"]))
                    c["files"] = dict(c["files"])
                    c["files"][n] = spoil(r, c["files"][n])
                else:
                    c[f] = spoil(r, c.get(f, ""))
        if r.random() < 0.4:
            c["opts"] = c["opts"] + r.sample(["-t", "-f", "-g", "-m", "-k"], r.randint(1, 3))
        if c["mode"] == "batch" and r.random() < 0.15:
            c["opts"] = c["opts"] + [r.choice(["-l", "-n", "-p", "-c", "-c"])]
        if c["mode"] == "session":
            c["stdin"] = re.sub(r"(?m)^([ \t]*)\*.*$", r"\1*true", c["stdin"])
            if r.random() < 0.9:
                c["stdin"] = c["stdin"] + ("" if c["stdin"].endswith("\n") or r.random() < .5 else "\n")
                # enough lines to satisfy any INPUT
                c["alive"] = True
        return c

    def judge_case(self, case):
        exe = self.exe["asan"]
        st = {case["mode"]: 1}
        env = dict(case.get("env", {}), LB_STEPS="300000")
        run = Case(case)
        if case.get("alive"):
            run["stdin"] = case["stdin"] + "\n" + "1,1,1,1,1,1\nNEW\n%s\n" % self.ALIVE * 20
        turn = int(case.key(), 16) % 5
        for variant in ("asan", "msan", "fort"):
            if variant == "msan" and turn or variant == "fort" and turn % 2 == 0:
                continue
            res = run_case(self.exe[variant], run, env=env)
            d = self.wrong(run, res)
            if res.rc == "timeout":
                return Outcome("inconclusive", case, "timeout")
            if d:
                return Outcome("bad", case, "[%s] %s" % (variant, d), stats=st)
            st[variant] = st.get(variant, 0) + 1
            if res.rc == 97:
                st["step budget used up"] = 1
        for k in ("Runtime error", "internal", "Syntax", "Break", "out of memory"):
            if k in res.err or k in res.out:
                st[k] = 1
        st["options " + " ".join(sorted(o for o in case["opts"] if o != "-q"))] = 1
        return Outcome("ok", case, stats=st, runs=st.get("asan", 0) + st.get("msan", 0) + st.get("fort", 0), nontrivial=bool(res.out or res.err))

    def wrong(self, case, res):
        if res.rc in (97, "timeout", -25):
            # a program may run for ever, or print for ever
            d = None
            if "Sanitizer" in res.err or "runtime error: " in res.err:
                d = res.err[-1500:]
            return d
        d = abnormal(res)
        if d:
            return d
        if "MemorySanitizer" in res.err:
            return res.err[:1500]
        if "Assertion" in res.err and "failed" in res.err:
            return res.err[-500:]
        if "program corrupt" in res.err or "unknown opcode" in res.err or "stack empty" in res.err:
            return "corrupt state reported: " + res.err[-300:]
        ok = (0, 1) if case["mode"] == "batch" else (0,)
        if res.rc not in ok:
            return "exit status %r: %s" % (res.rc, res.err[-300:])
        if "out of memory" in res.err or "out of memory" in res.out:
            return "out of memory: %r" % res.err[-200:]
        if case["mode"] == "batch":
            modal = [o for o in case["opts"] if o in ("-l", "-n", "-p", "-c")]
            if res.rc == 1 and not modal:
                try:
                    model.parse_file(case["prog"])
                except model.LoadErr:
                    return None
                if "\x00" not in case["prog"]:
                    return "exit status 1 for a program that loads: %s" % res.err[-300:]
        elif case.get("alive") and "alive" not in res.out and "end of input" not in res.err and not re.search(r"(?im)^[ \t]*BYE[ \t]*$", case["stdin"]):
            return "the session does not go on: %r %r" % (res.out[-200:], res.err[-200:])
        return None

    def nontrivial(self, e):
        return True

    def finish(self, cov):
        return []


LEDGER = ['PRINT:PRINT "<"+"<"', "LIST", 'PRINT ">"+">"', "*ledger"]


class M02(Check):
    prop = "M02"
    quick = 7500
    thorough = 113000
    variants = ("asan", "count")
    rule = ("one case = a program or session of any other check's kind, also with runtime errors, breaks, failing files and random "
            "changes to the text, run (a) under LeakSanitizer, (b) with --report-memory, whose counts must be equal, (c) with "
            "a ledger of every block and stream, which must be empty at exit; or a session repeating the same lines 8, 16 and "
            "32 times, where blocks and open files at the prompt must not grow; non-trivial = it allocated and exited normally")
    assumptions = ["LeakSanitizer reports unreachable blocks", "all blocks come from malloc, calloc, realloc, strdup and strndup called by the sources"]
    OPS = ["LOAD \"p\"", "SAVE \"s\"", "LOAD \"s\"", "LOAD \"none\"", "LOAD \"bad\"", "SAVE \"dir\"", "SAVE \"/dev/full\"", "SAVE \"no/such\"", "RUN", "RUN", "RENUM", "RENUM 100,10,5", "RENUM 65535", "LIST", "LIST 10-20", "NEW", "CLEAR", "CONT", "COMPILE", "PRINT A$+\"x\"+CHR$(65)", "A$=\"abc\"+A$",
           "A$=LEFT$(A$,3)", "DIM Q(20)", "DIM Q$(5,5)", "Q$(1,1)=\"str\"+\"ing\"", "V(3)=1", "L$(2)=\"x\"+A$", "DEF FNA(X)=X+1", "PRINT FNA(2)", "DEF FNT$(X)=\"s\"+STR$(X)", "PRINT FNT$(1)+\"y\"", "PRINT LOG(0)", "PRINT \"a\"+\"b\";MID$(\"x\",9,1)", "PRINT \"a\"+STR$(LOG(0))",
           "A$=\"x\"+CHR$(999)", "PRINT (", "A=", "PRINT \"unclosed", "@", "DEF FNA(X)=", "DIM Z(", "FOR I=1 TO 3:PRINT I:NEXT", "FOR I=1 TO 3", "NEXT", "RETURN", "READ A$:PRINT A$", "READ A$,B$:DATA p,\"q\"", "RESTORE", "DATA x,y,\"z\"", "10 PRINT \"ten\";A$", "10", "20 REM new text", "20", "15 A$=A$+\"z\":GOTO 30", "15",
           "5 DEF FNA(X)=X*A", "5", "7 DIM W(5):W(1)=2", "8 PRINT (", "8", "9 STOP", "9", "x" * 140, "GOTO 10", "GOSUB 10", "GOTO 64321", "HELP", "*true", "IF A$=\"x\" THEN PRINT \"y\" ELSE PRINT \"n\"", "ON 1 GOTO 10", "INPUT A$", "hello,there", "LINE INPUT B$", "PRINT STR$(VAL(\"12\"))", "PRINT VAL(\"x\"+\"y\")", "RANDOMIZE 5",
           "B$=\"\"", "A$=\"\"", "Q$(1,1)=\"\"", "PRINT RIGHT$(\"hello\",2)+LEFT$(\"abc\",1)", "PRINT FNA(LOG(0))", "PRINT FNT$(LOG(0))", "DIM Q$(5,5),R(LOG(0))", "RUNX", "NOSUCH(1)=2", "PRINT NEWNAME", "PRINT ZZZ(1,1)"]

    def gen(self, r, i):
        if i % 3 == 2:
            return self.growth(r)
        if i % 30 == 7:
            # hardly a program at all, in every mode
            n = r.choice([0, 0, 1, 1, 1, 2, 3])
            t = "".join("%d %s\n" % (k + 1, r.choice(["END", "REM", "A=1", "A$=\"x\"", "PRINT \"a\"", "GOTO 1" if r.random() < .2 else "STOP", "DATA 1,x", "DATA", ":", "INPUT \"p\";A", "DEF FNA(X)=X", "DIM A$(1)", "PRINT (", "A=\"", "READ A$",
                                                                "' c", "FOR I=1 TO 2", "NEXT", "RETURN", "PRINT LOG(0)", "LINE INPUT A$", "@", "Z=Y+X", "RANDOMIZE"])) for k in range(n))
            if r.random() < .1:
                t = t.rstrip("\n") + r.choice(["", "\n\n", "\nx\n", "\n1 A\n"])
            return batch(t, stdin=r.choice(["", "1\n", "1"]), opts=["-q"] + r.choice([[], ["-l"], ["-n"], ["-p"], ["-c"], ["-c", "-k"], ["-r"], ["-t"], ["-n", "-k"], ["-z"], ["-f"]]), max_ops=5000)
        c = workload(r, i // 3 if i % 3 else r.randrange(1000))
        if r.random() < 0.25:
            f = r.choice(["prog", "stdin"]) if c["mode"] == "batch" else "stdin"
            c[f] = spoil(r, c.get(f, ""))
        if c["mode"] == "session":
            c["stdin"] = re.sub(r"(?m)^([ \t]*)\*.*$", r"\1*true", c["stdin"])
            if r.random() < 0.3:
                hi = r.size([30, 200])
                c["env"] = {"LB_INT": ",".join(str(x) for x in sorted(r.sample(range(1, hi), r.choice([1, 3, 8]))))}
        if c["mode"] == "batch" and r.random() < 0.15:
            c["opts"] = c["opts"] + [r.choice(["-l", "-n", "-p", "-c"])]
        return c

    def growth(self, r):
        p = session_program(r)
        ops = []
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            ops.append(r.choice(self.OPS))
        if r.random() < 0.3:
            ops += [r.choice(["RUN", "NEW", "LOAD \"p\""])]
        big = r.choice([127, 128, 128, 129, 255, 256, 256, 384, 512])
        if r.random() < .25:
            ops.insert(r.randint(0, len(ops)), "LOAD \"big\"")
            if r.random() < .6:
                ops.append(r.choice(["NEW", "NEW", "LOAD \"p\"", "LOAD \"bad\"", "RUN", "1 REM", "COMPILE", "LIST 1"]))
        if any(o.startswith("RENUM") for o in ops):
            ops.append("LOAD \"p\"")      # renumbering and entering a line again grows the program
        pre = ["LOAD \"p\""] + (["RUN"] if r.random() < 0.3 else [])
        lines = list(pre)
        for k in (8, 8, 16):
            lines += ops * k + LEDGER
        c = session(lines, files={"p": p.text, "bad": "10 PRINT 1\nx\n", "big": "".join("%d A=%d\n" % (k, k) for k in range(1, big + 1))}, unwritable=["dir"], ops=ops)
        if r.random() < 0.2:
            c["env"] = {"LB_INT": ",".join(str(x) for x in range(5, 20000, r.size([7, 50, 333])))}
        return c

    def shrink(self, case):
        if "ops" not in case:
            return shrink(self, case)
        for o in list(case["ops"]):
            if len(case["ops"]) < 2:
                break
            ops = [x for x in case["ops"] if x != o]
            if not ops:
                break
            lines = ["LOAD \"p\""]
            for k in (8, 8, 16):
                lines += ops * k + LEDGER
            c = Case(case, ops=ops, stdin="".join(l + "\n" for l in lines))
            if self.judge_case(c).kind == "bad":
                case = c
        return case

    def ledger(self, case, env):
        d = tempfile.mkdtemp(prefix="lbl")
        try:
            f = os.path.join(d, "ledger")
            res = run_case(self.exe["count"], case, env=dict(env, LB_LEDGER=f))
            text = open(f).read() if os.path.exists(f) else ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res, [l.split() for l in text.split("\n") if l]

    def judge_case(self, case):
        env = dict(case.get("env", {}), LB_STEPS="200000")
        st = {}
        runs = 0
        run = Case(case, opts=[o for o in case["opts"] if o not in ("-m",)] + ["-m"])
        res, led = self.ledger(run, env)
        runs += 1
        if res.rc == "timeout":
            return Outcome("inconclusive", case, "timeout")
        if res.rc in (97, -25, -24):
            return Outcome("skip", case, "endless")
        normal = res.rc == 0
        if normal:
            m = props_lang.MEM.search(res.out)
            if not m:
                return Outcome("bad", case, "no memory report at exit: %r" % res.out[-100:])
            if m.group(1) != m.group(2):
                return Outcome("bad", case, "memory report: %s blocks allocated, %s released" % m.groups())
            st["reports"] = 1
            end = [l for l in led if l[0] == "end"]
            if not end:
                return Outcome("bad", case, "no ledger at exit")
            b, _, s, a, _ = map(int, end[0][1:])
            st["blocks"] = a
            if b or s:
                return Outcome("bad", case, "at exit %d of %d blocks and %d streams are still held" % (b, a, s))
        elif res.rc != 1:
            return Outcome("bad", case, "exit status %r %s" % (res.rc, res.err[-200:]))
        marks = [tuple(map(int, l[1:])) for l in led if l[0] == "mark"]
        for b, _, s in marks:
            if s:
                return Outcome("bad", case, "%d files open at the prompt" % s)
        shown = re.findall(r"<<\n(.*?)>>\n", res.out, re.S)
        if len(marks) == 3 and "ops" in case and not (len(shown) == 3 and shown[0] == shown[1] == shown[2]):
            st["growth sessions with a changing program"] = 1
        elif len(marks) == 3 and "ops" in case:
            g1, g2 = marks[1][0] - marks[0][0], marks[2][0] - marks[1][0]
            st["growth sessions"] = 1
            if g1 >= 8 and g2 >= 16:
                return Outcome("bad", case, "blocks held at the prompt grow with repetition: %s for 8, 16 and 32 times %r" % ([x[0] for x in marks], case["ops"]))
            h1, h2 = marks[1][1] - marks[0][1], marks[2][1] - marks[1][1]
            if h1 >= 64 and h2 >= 2 * h1 - 16 and h2 >= 16 * 24:
                return Outcome("bad", case, "bytes held at the prompt grow with repetition: %s for 8, 16 and 32 times %r" % ([x[1] for x in marks], case["ops"]))
        # leaks that the counts cannot see
        res = run_case(self.exe["asan"], Case(case), env=env, leaks=1)
        runs += 1
        if res.rc == "timeout":
            return Outcome("inconclusive", case, "timeout")
        if normal or "LeakSanitizer" not in res.err:
            d = abnormal(res) if res.rc not in (97, -25, -24) else None
            if d:
                return Outcome("bad", case, d)
        st["LeakSanitizer runs"] = 1
        for k in ("Runtime error", "Break"):
            if k in res.err or k in res.out:
                st[k] = 1
        return Outcome("ok", case, stats=st, runs=runs, nontrivial=normal)


class M03(Check):
    prop = "M03"
    quick = 320
    thorough = 5000
    level = "fault_enumeration"
    variants = ("fail",)
    rule = ("one case = a program or session of any other check's kind run once to count its allocations and then once per failing "
            "allocation (all of them up to a bound per case, otherwise the first, the last and a random sample), under ASan and "
            "UBSan; each run must end with status 1 and the fatal out-of-memory message, having printed a prefix of the "
            "full output; non-trivial = at least one allocation was made to fail")
    assumptions = ["allocations go through malloc, calloc, realloc, strdup and strndup", "blocks the C library allocates for itself never fail"]

    def gen(self, r, i):
        k = i % 4
        if k == 0:
            p = session_program(r)
            ops = [r.choice(M02.OPS) for _ in range(r.randint(2, 12))]
            return session(["LOAD \"p\""] + ops, files={"p": p.text, "bad": "10 PRINT 1\nx\n"}, unwritable=["dir"])
        if k == 1:
            n = r.size([3, 127, 128, 129, 260])
            names = r.choice([1, 90, 90, 200, 1000])
            lines = ["%d A%d=%d:PRINT A%d" % (10 * j + 10, j % names, j, j % names) for j in range(n)]
            if r.random() < 0.5:
                return batch("\n".join(lines) + "\n", opts=["-q"] + r.choice([[], ["-c"], ["-n"], ["-l"], ["-p"]]))
            r.shuffle(lines)
            return session(lines + ["RUN", "RENUM 5,1,5", "LIST", "%d" % r.randint(1, 999), "SAVE \"x\"", "LOAD \"x\""])
        c = workload(r, r.randrange(1000))
        if c["mode"] == "session":
            c["stdin"] = re.sub(r"(?m)^([ \t]*)\*.*$", r"\1*true", c["stdin"])
        c["opts"] = [o for o in c["opts"] if o != "-m"]
        return c

    def judge_case(self, case):
        d = tempfile.mkdtemp(prefix="lbf")
        try:
            f = os.path.join(d, "n")
            base = run_case(self.exe["fail"], case, env={"LB_ALLOCS": f, "LB_STEPS": "60000"})
            n, *sites = [int(x) for x in open(f).read().split()] if os.path.exists(f) else [0]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if base.rc == "timeout":
            return Outcome("inconclusive", case, "timeout")
        if base.rc not in (0, 1):
            return Outcome("skip", case, "endless") if base.rc in (97, -25, -24) else Outcome("bad", case, "no failure injected: status %r %s" % (base.rc, base.err[-300:]))
        if n == 0:
            return Outcome("skip", case, "no allocation")
        r = literals.Random(case.key())
        cap = 70 if self.tier == "quick" else 400
        which = list(range(1, n + 1))
        if n > cap:
            # one of every place in the code, and of the growing of tables; the rest at random
            sites = sorted(set(x for x in sites if 0 < x <= n))
            first = r.sample(sites, min(len(sites), cap * 4 // 7))
            which = sorted(set(list(range(1, 4)) + list(range(n - 9, n + 1)) + first + r.sample(which, cap - 13 - len(first))))
        if "only" in case:
            which = [case["only"]]
        st = {"allocation failures injected": 0}
        # two runs print different things if they look at the clock
        clock = re.search(r"(?i)time|randomi[sz]e|-z", repr(sorted(case.items())))
        for k in which:
            env = {"LB_FAIL": str(k), "LB_STEPS": "60000"}
            if r.random() < 0.3:
                env["LB_FAIL_ALL"] = "1"
            res = run_case(self.exe["fail"], case, env=env)
            st["allocation failures injected"] += 1
            if res.rc == "timeout":
                continue
            bad = abnormal(res)
            if bad is None and res.rc != 1:
                bad = "exit status %r" % res.rc
            if bad is None and not re.search("(?i)fatal.*out of memory|out of memory", res.err):
                bad = "no out-of-memory message: %r" % res.err[-200:]
            if bad is None and not clock and not base.out.startswith(res.out):
                bad = "printed before the failure " + diff_text(base.out, res.out)
            if bad:
                return Outcome("bad", Case(case, only=k), "allocation %d of %d fails: %s" % (k, n, bad), stats=st, runs=st["allocation failures injected"] + 1)
        return Outcome("ok", case, stats=st, runs=st["allocation failures injected"] + 1)

    def shrink(self, case):
        return case
