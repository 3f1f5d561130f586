"""S01 S02 S03 I01: the stored program, files, renumbering, the prompt."""
import os
import re
import shutil
import subprocess
import tempfile

import gen
import model
from gen import G, Prog, rcase, numbers
from harness import *
from props_expr import fits

TEXTS = ["PRINT \"k%d\"", "PRINT %d", "REM %d", "A=%d:PRINT A", "PRINT \"v\";%d:", "?%d", "LET B=B+%d:PRINT B", "PRINT \"x\",%d", "DATA %d", "IF %d THEN PRINT \"t\" ELSE PRINT \"f\"",
         " PRINT %d", "  PRINT %d", "print %d ", "PRINT \"trailing\";%d   ", "REM  two  blanks %d", ":", "REM", "\tPRINT %d", "PRINT \"a\tb\";%d", "REM %d \x80\xff", "'%d", "PRINT 1 2 %d",
         "10 PRINT %d", "PRINT \"unclosed %d", "rem %d:print 4", "C=%d:D=C*2:PRINT C;D", "END", "PRINT \"GOTO %d\"", "X$=\"%d\":PRINT X$;LEN(X$)"]


def textof(r, ok=False):
    t = r.choice(TEXTS[:11] + TEXTS[13:15] if ok else TEXTS)
    t = t % r.randint(0, 9999) if "%d" in t else t
    if r.random() < .06 and "unclosed" not in t:
        # as long as can be typed, or nearly
        t = (t + ":REM " + "abcdefghij" * 12)[:r.choice([40, 60, 64, 65, 80, 100, 110, 115])]
    return t


def nearly(r, t):
    """the text of a line changed ever so slightly"""
    k = r.randrange(10)
    if k == 9:
        i = len(t) - 1 - r.randrange(min(len(t), 5))
        return t[:i] + (r.choice("0123456789") if t[i].isdigit() else r.choice("xyz") if t[i].isalpha() else t[i]) + t[i + 1:]
    if k < 2:
        i = t.find('"') + 1 if k else 0
        return t[:i] + "".join(c.swapcase() if c.isascii() else c for c in t[i:])
    if k == 2:
        return t + r.choice([" ", "  ", ":", "\t", " :"])
    if k == 3:
        return r.choice([" ", "  ", "\t"]) + t
    if k == 4:
        return t.rstrip() or t
    if k == 5:
        return t[:-1] or t
    if k == 6:
        i = r.randrange(len(t))
        return t[:i] + (chr(ord(t[i]) ^ 1) if t[i].isalnum() else t[i]) + t[i + 1:]
    if k == 7:
        return t.replace(" ", "  ", 1)
    return t.replace(" ", "", 1) or t


def spell(r, n):
    """a line number as typed"""
    k = r.random()
    if k < 0.85:
        return str(n)
    if k < 0.93:
        return "0" * r.randint(1, 6) + str(n)
    return " " * r.randint(1, 3) + str(n)


def listing(r, nums):
    a, b = r.choice(nums), r.choice(nums)
    if r.random() < 0.3:
        a += r.choice([-1, 1])
    if r.random() < 0.3:
        b += r.choice([-1, 1])
    a, b = max(a, 0), max(b, 0)
    c = rcase(r, "LIST")
    return r.choice([c, c, c, "%s %d" % (c, a), "%s %d-" % (c, a), "%s -%d" % (c, b), "%s %d-%d" % (c, a, b),
                     "%s%d - %d" % (c, min(a, b), max(a, b)), "%s -" % c, "%s %d-%d" % (c, a, a),
                     "%s %d-%d " % (c, min(a, b), max(a, b)), "%s 0-" % c, "%s 99999999999-" % c, "%s x" % c, "%s 1,2" % c, "%s %d %d" % (c, a, b), "%s-%d-%d" % (c, a, b)])


class S01(Check):
    prop = "S01"
    quick = 18750
    thorough = 282000
    events = ("insert line", "replace line", "delete line")
    rule = ("one case = a session entering, replacing, deleting, listing (whole, ranges, paged) and running lines, with NEW, "
            "LOAD, immediate statements and bad numbers in between: dense number pools, hundreds of lines around the "
            "growth boundaries entered in every order, numbers at both ends of the range; the program is compared with a "
            "sorted map by LIST, RUN and SAVE at the end of every session")

    def dense(self, r):
        pool = sorted(r.sample(range(1, r.size([12, 40, 400])), r.choice([3, 6, 10])))
        k = r.random()
        if k < 0.15:
            pool = [65533, 65534, 65535, 65536, 65537, 4294967293, 4294967294]
        elif k < 0.3:
            pool = [1, 398, 795, 10, 407, 10 + 794, 397, 794]      # equal hashes
        elif k < 0.35:
            pool = [5, 65541, 131077, 10, 65546]    # equal in 16 bits
        cmds = []
        cur = {}
        files = {"f": "".join("%d %s\n" % (n, textof(r)) for n in pool[::2]), "bad": "10 A=1\n5 A=2\n", "e": ""}
        for _ in range(r.randint(5, 40)):
            k = r.random()
            n = r.choice(pool)
            if k < 0.45:
                t = textof(r, r.random() < 0.8)
                cmds.append(spell(r, n) + r.choice([" ", " ", " ", ""] if not t[:1].isdigit() else [" "]) + t)
                cur[n] = t
            elif k < 0.56 and cur:
                n = r.choice(sorted(cur))
                if r.random() < 0.75:
                    t = nearly(r, cur[n])
                    if t.strip() and not t[:1].isdigit():
                        cur[n] = t
                cmds.append("%d %s" % (n, cur[n]))
                if r.random() < 0.3:
                    cmds.append(r.choice(["LIST", "RUN", "LIST %d" % n]))
            elif k < 0.65:
                cmds.append(spell(r, n))
                cur.pop(n, None)
            elif k < 0.68:
                cmds.append(r.choice(["0", "0 PRINT", "00", "4294967295 PRINT 1", "4294967296 PRINT 2", "99999999999999999999", "4294967295", "%d " % n, "%d  " % n, "000000000000000000000%d REM z" % n]))
                if cmds[-1].endswith(" "):
                    cur.pop(n, None)
            elif k < 0.85:
                cmds.append(listing(r, pool))
            elif k < 0.905:
                cmds.append("RUN")
            elif k < 0.92:
                # a stopped program that is not changed, or is
                cmds += ["%d %s" % (n, r.choice(["STOP", "PRINT 1:STOP:PRINT 2"])), "RUN"]
                cur[n] = "STOP"
                cmds.append(r.choice(["%d" % (n + r.randint(0, 2)), "%d" % r.randint(1, 70000), "LIST", "LOAD \"none\"", "%d" % r.choice(pool), "0", "SAVE \"g\"", "RENUM 0", "LISTS"]))
                cmds.append("CONT")
                if cmds[-2].isdigit():
                    cur.pop(int(cmds[-2]), None)
            elif k < 0.94:
                cmds.append("NEW")
                cur = {}
            elif k < 0.97:
                cmds.append(r.choice(["LOAD \"f\"", "LOAD \"bad\"", "LOAD \"none\"", "LOAD \"e\""]))
            else:
                cmds.append(r.choice(["PRINT B", "CONT", "A=1", "LISTS", "CLEAR", "COMPILE", "SAVE \"g\"", "LOAD \"g\"", "RENUM", "", " "]))
        return session(cmds + ["LIST", "RUN", "SAVE \"out\""], files=files)

    def many(self, r):
        n = r.size([126, 127, 128, 129, 130, 255, 256, 257, 300, 500, 513])
        nums = r.choice([list(range(1, n + 1)), [10 * k for k in range(1, n + 1)], sorted(r.sample(range(1, 65536), n)), [k * 397 % 65536 + 1 for k in range(n)] if n < 160 else list(range(1000, 1000 + n))])
        nums = sorted(set(nums))
        order = list(nums)
        k = r.randrange(4)
        if k == 0:
            order.reverse()
        elif k == 1:
            r.shuffle(order)
        elif k == 2:
            order = order[::2] + order[1::2]
        cmds = ["%d %s" % (x, r.choice(["PRINT %d;" % x, "PRINT %d;" % x, "S=S+%d" % x, "REM %d" % x, "V(%d)=1" % (x % 11)])) for x in order]
        files = {}
        if r.random() < 0.3:
            half = sorted(order[:len(order) // 2])
            files["f"] = "".join("%d PRINT \"f\";%d;\n" % (x, x) for x in half)
            cmds = ["LOAD \"f\""] + cmds[len(order) // 2:]
        for _ in range(r.randint(0, 40)):
            x = r.choice(nums)
            cmds.append(r.choice(["%d" % x, "%d" % x, "%d PRINT \"again\";%d;" % (x, x), "%d PRINT \"new\";" % (x + 1), listing(r, nums), "RUN", "GOTO %d" % x if x < 65536 else "RUN"]))
        if r.random() < 0.2:
            dele = list(nums)
            r.shuffle(dele)
            keep = r.randint(0, 3)
            cmds += ["%d" % x for x in dele[keep:]]
            cmds += ["LIST", "RUN"]
            cmds += ["%d PRINT %d" % (x, x) for x in dele[:r.randint(0, 200)]]
        cmds += ["LIST", "RUN", "PRINT S"]
        if r.random() < 0.4:
            a = r.choice(nums)
            cmds += [r.choice(["LIST P", "LIST %d-P" % a, "LISTP", "LIST -%d p" % a])] + [r.choice(["", "x", "LIST"])] * r.randint(0, 30) + ["PRINT 1"]
        return session(cmds + ["SAVE \"out\""], files=files, max_ops=20000)

    def crowd(self, r):
        """a program of more than a thousand lines, some of them typed"""
        n = r.choice([990, 1023, 1024, 1025, 1100, 2047, 2049, 2500]) + r.randint(0, 3)
        step = r.choice([1, 2, 10, 25])
        nums = [step * (k + 1) for k in range(n)]
        typed = set(r.sample(nums, r.randint(1, 120)))
        text = lambda x: r.choice(["PRINT %d;" % x, "S=S+%d" % x, "REM %d" % x, "A"]) if x % 3 else "S=S+1"
        cmds = ["LOAD \"f\""] + r.sample(["%d S=S+%d" % (x, x) for x in typed], len(typed))
        for _ in range(r.randint(1, 6)):
            a, b = sorted(r.sample(nums, 2))
            cmds.append(r.choice(["LIST", "LIST %d-%d" % (a, b), "LIST %d-" % a, "LIST -%d" % b, "%d" % a, "%d PRINT \"n\"" % b, "RENUM", "RUN", "GOTO %d" % b, "LIST %d" % b]))
        return session(cmds + ["LIST", "RUN", "PRINT S", "SAVE \"out\""], files={"f": "".join("%d %s\n" % (x, text(x).replace("A", "A=1") if text(x) == "A" else "S=S+2") for x in nums if x not in typed)}, max_ops=30000)

    def gen(self, r, i):
        if i % 400 == 203:
            return self.crowd(r)
        return self.many(r) if i % 5 == 4 else self.dense(r)


BAD_FILES = {
    "nonum": "10 PRINT 1\nPRINT 2\n30 PRINT 3\n", "order": "10 PRINT 1\n30 PRINT 2\n20 PRINT 3\n", "dup": "10 PRINT 1\n10 PRINT 2\n",
    "empty": "10 PRINT 1\n\n20 PRINT 2\n", "zero": "0 PRINT 1\n10 PRINT 2\n", "huge": "10 PRINT 1\n4294967296 PRINT 2\n", "huge2": "99999999999999999999999 REM\n",
    "blank1": "\n10 PRINT 1\n", "text": "hello world\n", "last": "10 PRINT 1\nlast", "neg": "-10 PRINT 1\n", "space": "10 PRINT 1\n   \n",
    "lead": " 10 PRINT 1\n", "tab": "\t10 PRINT\n", "lastblank": "10 PRINT 1\n20 PRINT 2\n\n"}


class S02(Check):
    prop = "S02"
    quick = 12500
    thorough = 188000
    events = ("cmd SAVE", "cmd LOAD")
    rule = ("one case = a session with a random program (typed or loaded, long lines, odd bytes, any numbers) saved, cleared, "
            "loaded, changed, saved over, run again, with failing SAVEs (missing folder, a folder, a full device, a device "
            "full after n bytes) and failing LOADs of every kind in between; listings, runs, reports and the bytes of every "
            "file are compared; the saved file is also run as a program file")

    def text(self, r):
        k = r.random()
        if k > .96:
            # as other systems write files
            return [(n, t + r.choice(["\r", "\r", "\r", " \r", "\r\r", "\rx"])) for n, t in self.text(r)]
        if k < 0.35:
            p = Prog(r, errors=0.01, stdin=False, size=r.size([3, 8, 20])).build()
            return p.out
        n = r.size([1, 3, 10, 40])
        nums = numbers(r, n) if r.random() < .8 else sorted(r.sample(range(1, 4294967294), n))
        out = []
        for x in nums:
            t = textof(r, r.random() < 0.8)
            if r.random() < 0.1:
                t = "PRINT \"%s\"" % "".join(r.choice("abcXYZ ,:;'0123()$%\\\x80\xfe") for _ in range(r.randint(0, 60)))
            if r.random() < 0.1:
                t = "PRINT " + ";".join("\"%s\"" % ("y" * r.randint(0, 120)) for _ in range(r.randint(2, 20)))
            out.append((x, t))
        return out

    def gen(self, r, i):
        files = {}
        cmds = []
        prog = self.text(r)
        if i % 40 == 7:
            # lengths around buffer sizes
            prog = [(10, "PRINT \"%s\"" % ("z" * k)) for k in (100,)] + [(20 + j, "REM " + "r" * r.size([120, 127, 128, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 510, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 9000])) for j in range(6)]
            if i % 120 == 7:
                prog.insert(r.randint(0, len(prog) - 1), (15, "REM " + "w" * r.choice([16383, 16384, 32760, 32767, 32768, 65530, 65535, 65536, 65537, 70000, 131072, 140000])))
                prog.sort()
        exact = i % 40 == 27
        if exact:
            # lines of the file whose whole length is that of a buffer, the last one often without a newline
            prog = [(10, "PRINT 1")]
            for n in range(20, 20 + r.randint(1, 4)):
                head = "PRINT %d:REM " % n
                prog.append((n, head + "x" * (r.choice([127, 128, 255, 255, 256, 511, 511, 512, 1023, 1023, 1024, 2047, 4095, 4096, 8191]) + r.choice([-1, 0, 0, 0, 1]) - len(head) - 3)))
        typed = not exact and all(fits("%d %s" % l) and "\n" not in l[1] for l in prog) and r.random() < 0.6
        if typed:
            cmds += ["%d %s" % l for l in prog]
        else:
            t = model.file_text(prog)
            if r.random() < (0.7 if exact else 0.3):
                t = t[:-1]
            files["src"] = t
            cmds.append("LOAD \"src\"")
        names = ["f", "g.bas", "with space", "UPPER", "x.y.z"] if r.random() < .7 else r.sample(["a:b", "a", "a::c", "s;m", "c,d", "q'q", "%d%s%n", "-x", "#1", "REM", "10", "f" * 80, "x=y", "(z", "t~", "NEW", "f?", "u_v", "m*", "k:"], 5)
        bad = sorted(BAD_FILES)
        for b in r.sample(bad, 3):
            files[b] = BAD_FILES[b]
        nums = [n for n, _ in prog]
        for _ in range(r.randint(2, 14)):
            k = r.random()
            if k < 0.3:
                cmds.append("%s \"%s\"" % (rcase(r, "SAVE"), r.choice(names[:2] if r.random() < .7 else names)))
            elif k < 0.5:
                cmds.append(r.choice(["LOAD \"f\"", "LOAD \"f\"", "LOAD \"g.bas\"", "load\"f\"", "LOAD \"with space\"", "LOAD \"UPPER\""]))
            elif k < 0.62:
                cmds.append("LOAD \"%s\"" % r.choice(bad + ["none", "", "dir", "no/such/file"]))
            elif k < 0.72:
                cmds.append("SAVE \"%s\"" % r.choice(["dir", "no/such/file", "/dev/full", "", "/dev/full"]))
            elif k < 0.8:
                cmds.append(r.choice(["LIST", "RUN", "LIST", "RUN"]))
            elif k < 0.9:
                n = r.choice(nums)
                cmds.append(r.choice(["%d" % n, "%d PRINT \"edit\"" % n, "%d REM new" % (n + 1), "NEW", "NEW", "A=5", "RENUM"]))
            else:
                cmds.append(r.choice(["SAVE", "LOAD", "SAVE f", "LOAD f", "SAVE \"f", "LOAD \"f", "SAVE \"f\" x", "LOAD \"f\" 1", "PRINT A", "CONT", "SAVE\"f\"  ", "PRINT A;A$"]))
        cmds += ["SAVE \"last\"", "NEW", "LIST", "LOAD \"last\"", "LIST", "RUN"]
        c = session(cmds, files=files, unwritable=["dir"], max_ops=15000)
        if i % 6 == 1 and files.get("src") is None or i % 6 == 2:
            c["fsize"] = r.size([0, 1, 10, 100, 500, 1000, 4095, 4096, 4097, 5000])
        return c

    def judge_case(self, case):
        if "fsize" in case:
            return self.full(case)
        o = super().judge_case(case)
        if o.kind != "ok":
            return o
        # the saved file as a program of its own, against LOAD of it
        e = expect(case)
        text = e.files.get("last")
        if text:
            o2 = super().judge_case(batch(text, max_ops=15000))
            o.runs += 1
            if o2.kind == "bad":
                return Outcome("bad", case, "running the saved file: " + o2.detail, runs=o.runs)
        return o

    def full(self, case):
        """The device is full after fsize bytes: what SAVE says, and that nothing else is lost."""
        first = [l for l in case["stdin"].split("\n") if re.match(r"\d|LOAD \"src\"", l)]
        cmds = [l for l in first if not re.fullmatch(r"\d+", l)] + ["SAVE \"t\"", "LIST", "RUN", "LIST"]
        base = session(cmds, files=case["files"], max_ops=15000)
        base["fsize"] = case["fsize"]
        try:
            e = expect(base)
        except (model.Limit, model.Unsure) as x:
            return Outcome("skip", case, detail=type(x).__name__)
        if e.m.source is None:
            return Outcome("skip", case, detail="no program")
        want = e.files.get("t")
        fails = len(want) > case["fsize"]
        if fails:
            e = expect(Case(base, unwritable=["t"]))
        d = tempfile.mkdtemp(prefix="lbv")
        try:
            for n, t in case["files"].items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(t.encode("latin-1"))
            p = subprocess.run([self.exe["plain"], "-q"], input=base["stdin"].encode("latin-1"), capture_output=True, cwd=d, timeout=120,
                               env={"PATH": "/usr/bin:/bin", "LB_FSIZE": str(case["fsize"]), "MALLOC_PERTURB_": "165"})
            got = None
            if os.path.exists(os.path.join(d, "t")):
                got = open(os.path.join(d, "t"), "rb").read().decode("latin-1")
        except subprocess.TimeoutExpired:
            return Outcome("inconclusive", case, "timeout")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res = Result(p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), None)
        e.files = None
        bad = judge(base, e, res)
        if bad is None and not fails and got != want:
            bad = "file t: " + diff_text(want, got or "<absent>")
        if bad:
            return Outcome("bad", case, "device full after %d bytes (%d needed): %s" % (case["fsize"], len(want), bad))
        return Outcome("ok", case, stats={"device full": int(fails), "device not full": int(not fails)}, nontrivial=fails)


REFS = ["GOTO %s", "GOSUB %s", "IF A THEN %s", "IF A=1 THEN %s ELSE %s", "ON A GOTO %s,%s,%s", "ON A+1 GOSUB %s , %s", "RESTORE %s", "IF A THEN GOTO %s ELSE GOSUB %s",
        "IF A THEN PRINT %s ELSE %s", "GOTO%s", "IF A<%s THEN %s", "A=%s:GOTO %s", "PRINT %s,%s", "PRINT \"GOTO %s\":GOTO %s", "REM GOTO %s", "DATA %s,%s", "GOSUB %s:GOSUB %s:PRINT %s",
        "IF A THEN IF B THEN %s ELSE %s", "goto %s", "Gosub 00%s", "RESTORE %s:READ A", "GOTO %s:REM GOTO %s", "ON 2 GOTO %s,%s:GOTO %s", "IF 0 THEN %s", "GOTO  %s ", "DATA GOTO %s:GOTO %s",
        "DEF FNA(X)=X+%s", "FOR I=%s TO %s", "A=%s*2:V(%s)=1", "PRINT TAB(%s);%s", "DIM V(%s)", "RANDOMIZE %s:GOSUB %s", "IF A THEN RESTORE %s ELSE RESTORE %s", "? %s:?\"%s\":goto %s", "REM %s", "THEN %s",
        "ELSE %s", "INPUT \"GOTO %s\";A", "DATA \"GOTO %s\",%s", "LET GOTOX=%s", "IF A THEN END ELSE %s:PRINT %s"]


class Recorder:
    def __init__(self):
        self.seen = set()

    def __contains__(self, n):
        self.seen.add(n)
        return False


def refs(text, crunch):
    """line numbers text refers to"""
    rec = Recorder()
    try:
        model.renum_text(text, rec, crunch)
    except model.SyntaxErr:
        return {-1}
    return rec.seen


class S03(Check):
    prop = "S03"
    quick = 18750
    thorough = 282000
    events = ("cmd RENUM", "cmd RENUMBER")
    rule = ("one case = a session with a random program (runnable, or line references of every form and look-alikes in strings, "
            "remarks, data and arithmetic), listed and run before and after one to four RENUMs with random, default, "
            "boundary and refused arguments, numbers growing and shrinking in length; listings are compared with the "
            "model's renumbering and the runs before and after must print the same")

    def soup(self, r):
        n = r.size([2, 4, 8, 15, 40, 130, 300]) if r.random() < .3 else r.randint(2, 12)
        nums = numbers(r, n)
        if r.random() < 0.1:
            nums = sorted(set(nums[:-1] + r.sample(range(65536, 4294967294), 1)))
        out = []
        for x in nums:
            t = r.choice(REFS)
            if r.random() < 0.03:
                t = r.choice(["ON A GOTO ", "ON 3 GOSUB ", "IF A THEN ON A GOTO ", "PRINT 1:ON B GOTO"]) + r.choice([",", " , ", ", "]).join(["%s"] * r.size([7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 255, 256, 257])) + r.choice(["", ":GOTO %s", " ELSE %s"])
            elif r.random() < 0.03:
                t = ":".join([r.choice(["GOTO %s", "GOSUB %s", "IF A THEN %s", "RESTORE %s", "IF A THEN GOTO %s ELSE %s"]) for _ in range(r.size([7, 8, 9, 16, 17, 32, 33, 64, 65, 130]))])
            while "%s" in t:
                t = t.replace("%s", str(r.choice(nums) if r.random() < 0.85 else r.choice([r.choice(nums) + 1, 0, 65535, 65536, 70000, 5])), 1)
            if r.random() < 0.2:
                t += ":" + r.choice(REFS).replace("%s", str(r.choice(nums)))
            if r.random() < 0.04:
                t = r.choice(["PRINT \"unclosed %d" % nums[0], "@ GOTO %d" % nums[0], "GOTO %d.5" % nums[0], "GOTO 1E1", "IF THEN %d" % nums[-1], "GOTO %d %d" % (nums[0], nums[-1]),
                              "GOTO ,%d" % nums[0], "GOTO %d,,%d" % (nums[0], nums[0]), "RESTORE %d,%d" % (nums[0], nums[-1]), "THEN %d,%d" % (nums[0], nums[-1])])
            out.append((x, t))
        return out

    def args(self, r, nums):
        k = r.random()
        c = r.choice(["RENUM", "RENUM", "RENUMBER", "renum"])
        if k < 0.2:
            return c
        new = r.size([1, 10, 100, 1000, 5, 60000, 9, 99, 65000, 65535])
        if k < 0.4:
            return "%s %d" % (c, new)
        old = r.choice(nums + [r.choice(nums) + 1])
        if k < 0.6:
            return "%s %d,%d" % (c, r.choice([new, old, old + 1, old * 2, old + 1000]), old)
        inc = r.size([1, 2, 5, 10, 100, 1000, 30000, 65535, 0, 4294967295])
        if k < 0.8:
            return "%s %d,%d,%d" % (c, r.choice([new, old, old + 1]), old, inc)
        return r.choice(["%s ,%d" % (c, old), "%s ,,%d" % (c, inc), "%s %d,,%d" % (c, new, inc), "%s 0" % c, "%s 65536" % c, "%s 99999999999" % c, "%s x" % c, "%s 10,20,30,40" % c, "%s 10 20" % c, "%s -5" % c,
                         "%s 10,99999999999" % c, "%s 4294967295,1,4294967295" % c, "%s 65535,%d,1" % (c, nums[-1])])

    def gen(self, r, i):
        if i % 3 == 0:
            p = Prog(r, errors=0.0, stdin=False, size=r.size([5, 10, 20, 30])).build()
            prog = p.out
        else:
            prog = self.soup(r)
        nums = [n for n, _ in prog]
        opts = ["-q"]
        if r.random() < 0.1:
            opts.append("-k")
            prog = [(n, t.replace("GOTO ", r.choice(["GOTO", "GOTO "])).replace(" THEN ", r.choice(["THEN", " THEN "]))) for n, t in prog]
        cmds = ["LOAD \"p\""]
        m = r.choice([1, 1, 1, 2, 4])
        cmds += ["RANDOMIZE 1:PRINT \"<run>\"", "RUN", "PRINT \"<end>\""]
        for _ in range(m):
            cmds += [self.args(r, nums), "LIST", "RANDOMIZE 1:PRINT \"<run>\"", "RUN", "PRINT \"<end>\""]
            if r.random() < 0.15:
                cmds += [r.choice(["CONT", "A=4", "%d REM more" % r.choice(nums), "PRINT A"])]
        cmds += ["SAVE \"out\""]
        return session(cmds, opts=opts, files={"p": model.file_text(prog)}, max_ops=6000)

    def judge_case(self, case):
        o = super().judge_case(case)
        if o.kind != "ok" or "more" in case["stdin"]:
            return o
        e = expect(case)
        src = model.parse_file(case["files"]["p"])
        have = {n for n, _ in src}
        dang = any(refs(t, case.crunch) - have for _, t in src)
        if dang or any(k != "run" for k, _ in e.err):
            return o
        segs = re.findall(r"<run>\n> (.*?)> <end>", e.out, re.S)
        norm = [re.sub(r"(?m)^\d+ (.*)\nStopped$", "Stopped", s) for s in segs]
        if any(s != norm[0] for s in norm):
            return Outcome("bad", case, "RUN after RENUM prints something else: %r" % [s[:200] for s in norm])
        o.stats["same behaviour checked"] = 1
        return o


class I01(Check):
    prop = "I01"
    context = 11
    quick = 18000
    thorough = 270000
    events = ("immediate",)
    rule = ("one case = a session of up to 60 typed lines mixing random immediate statements, program lines, RUN, GOTO into "
            "the program, NEXT of its loops, CONT, commands right and wrong, syntax errors in every position, runtime "
            "errors, over-long lines and edits, with the state shown again and again; every byte printed and every "
            "error reported is compared with the model")

    WRONG = ["PRINT (", "A=", "=5", "FOR", "NEXT 5", "PRINT \"unclosed", "@", "A$=5", "A=\"x\"", "PRINT A B", "IF", "IF A", "IF A THEN", "GOTO", "GOTO X", "DIM", "DIM A", "DEF FNA(X)", "DEF FNA(X)=X:DEF FNA(Y)=",
             "ON A", "ON A GOTO", "READ", "READ 5", "LET", "LET PRINT=5", "THEN 5", "ELSE", "1.5.5", "PRINT LEFT$(A$)", "PRINT LEN(5)", "PRINT CHR$(A$)", "INPUT", "PRINT ZZ(1,2,3)", "PRINT A$+5", "PRINT NOT A$",
             "X Y", "PRINT 1e", "FOR A$=1 TO 2", "FOR I=1", "NEXT I,", "RESTORE X", "RANDOMIZE A$", "DATA 1:)", "GOSUB 1E3", "PRINT FNQ(1)", "WIBBLE", "WIBBLE(", "B=1:C=", "PRINT \"ok\":PRINT (",
             "D9=1:ON D9", "PRINT \xff", "RUN\x80", "\x1b[A", "A(1)=", "B3(1,2", "DIM T9(3),", "NEW X", "BYE X", "LIST X", "SAVE", "LOAD", "LOAD \"none\"", "SAVE \"dir\"", "LOAD \"bad\"", "RENUM X", "HELPX=1:PRINT HELPX", "GOTO 64321",
             "GOSUB 64321", "RESTORE 64321", "RETURN", "NEXT", "NEXT QQ", "PRINT LOG(0)", "PRINT MID$(A$,0,1)", "PRINT V(-1)", "V(99)=1", "PRINT CHR$(256)", "PRINT VAL(\"x\")", "READ A", "PRINT 1 AND .5",
             "B4=1:B4=LOG(0):B4=3", "PRINT \"a\";LOG(0);\"b\"", "FOR I=1 TO LOG(0)", "DIM V(5),V(-1)", "DIM Z(3),Y(1e9)", "PRINT TAB(-1)", "A$=CHR$(1e9)", "ON .5 GOTO 10", "PRINT FNA(LOG(0))", "x" * 127, "PRINT \"" + "y" * 130 + "\"",
             "PRINT 1:" * 20, "A=1:" * 40, "REM " + "r" * 200, "10 REM " + "r" * 200, "99999999999 A", "0 A=1",
             'LOAD "good" 3', 'LOAD "good"x', 'LOAD "good" "bad"', 'LOAD "good":RUN', 'SAVE "good" 3', 'SAVE "good"x', 'SAVE "good":RUN', "LIST 10 X", "LIST 10-20,30", "RENUM 10,20,30,40", "RENUM 10,20 X", "RENUM 500:RUN", "NEW:RUN", "NEW 5", "BYE 5", "BYE:RUN"]

    def stacks(self, r):
        """Typed FOR and GOSUB whose code is gone by the next line, mixed with those of the program, which stay."""
        nl = ["10 FOR J=1 TO 3", "20 FOR K=1 TO 2", "30 " + r.choice(["END", "STOP", "PRINT LOG(0)", "PRINT J;K:STOP"]), "40 PRINT \"after\";J;K", "50 NEXT", "60 NEXT",
              "70 PRINT \"end\";J;K", "80 END", "100 GOSUB 120", "110 PRINT \"back\":END", "120 " + r.choice(["END", "STOP", "PRINT \"sub\":STOP", "FOR J=5 TO 6:STOP"]), "130 PRINT \"more\"", "140 RETURN", "150 FOR I=10 TO 11:PRINT \"prog\";I",
              "160 " + r.choice(["STOP", "END", "PRINT I"]), "170 NEXT I", "180 PRINT \"last\":NEXT", "190 RETURN",
              "5 DEF FNA(X)=LOG(X)+J:DEF FNB(X)=FNA(X-1)*2"]
        if r.random() < .3:
            nl[2] = "30 " + r.choice(["PRINT FNA(0)", "PRINT FNB(1)", "FOR Q=1 TO 2:PRINT FNB(1)", "IF FNA(0) THEN"])
        nl = [l for l in nl if r.random() < .93]
        cmds = list(nl)
        for _ in range(r.randint(3, 16)):
            t = r.choice([10, 10, 20, 40, 70, 100, 120, 130, 150, 160])
            cmds.append(r.choice([
                "FOR I=1 TO 3:PRINT I:GOTO %d" % t, "FOR I=1 TO 3:GOSUB %d:PRINT \"gs\":NEXT" % t, "GOSUB %d:PRINT \"ret\"" % t, "FOR J=1 TO 3:FOR I=1 TO 2:GOTO %d" % t, "GOTO %d" % t, "RUN", "CONT", "CONT",
                "NEXT I", "NEXT J", "NEXT K", "NEXT", "RETURN", "FOR I=1 TO 2", "FOR J=7 TO 9", "FOR K=1 TO 2:PRINT K", "NEXT I:PRINT \"typed\"", "NEXT:PRINT \"typed\"", "PRINT I;J;K",
                "FOR I=1 TO 2:FOR J=1 TO 2:PRINT I;J:NEXT:NEXT", "FOR I=1 TO 3:PRINT I:PRINT LOG(0)", "GOSUB %d:GOTO %d" % (t, t), "FOR Q=1 TO 2:STOP", "RETURN:PRINT \"no\"", "PRINT FNA(0)", "PRINT FNA(1)", "PRINT FNB(1)", "CLEAR", "%d PRINT \"new\"" % t]))
            if r.random() < .6:
                cmds.append(r.choice(["NEXT I", "NEXT J", "NEXT", "RETURN", "NEXT K", "CONT", "NEXT Q"]))
        cmds += ["PRINT I;J;K", "NEXT", "RETURN", "LIST"]
        return session("".join(c + "\n" for c in cmds), opts=["-q"] + (["-t"] if r.random() < .1 else []), max_ops=4000)

    def items(self, r):
        """The program's DATA read in turn by the program and by lines of any length typed while it is stopped."""
        nd = r.randint(3, 12)
        nl = ["READ A:PRINT \"p\";A", "STOP", "READ B$:PRINT \"q\";B$", "STOP", "FOR I=1 TO 2:READ V(I):PRINT V(I):STOP:NEXT", "GOSUB 900", "READ A,B:PRINT A;B", "RESTORE", "RESTORE 910", "PRINT LOG(0)"]
        prog = [r.choice(nl) for _ in range(r.randint(3, 9))]
        lines = ["%d %s" % (10 * k + 10, l) for k, l in enumerate(prog)] + ["800 END", "900 READ A:STOP:RETURN", "910 DATA " + ",".join(str(k) for k in range(1, nd)), "920 DATA " + ",".join(str(100 + k) for k in range(nd))]
        cmds = ["RUN"]
        for _ in range(r.randint(3, 12)):
            s = r.choice(["READ A:PRINT A", "READ A,B$:PRINT A;B$", "READ V(1):PRINT V(1)", "RESTORE", "RESTORE 920", "RESTORE 910", "READ C:DATA 55", "PRINT A", "A=1", "READ A:READ B:READ C:PRINT C", "READ A:PRINT LOG(0)", "READ A:PRINT (", "FOR I=1 TO 2:READ A:PRINT A:NEXT", "GOSUB 900", "CLEAR"])
            pad = r.choice([0, 0, 0, 3, 8, 20, 28])
            for _ in range(pad):
                t = r.choice(["B=1", "C=2", "D=C", "B=B+C", "PRINT", "?A;", "X$=\"\""])
                if fits(s + ":" + t) and "DATA" not in s:
                    s = s + ":" + t if r.random() < .5 and "RESTORE" not in s else t + ":" + s
            cmds.append(s)
            if r.random() < .6:
                cmds.append(r.choice(["CONT", "CONT", "CONT", "RUN", "GOTO 10", "READ A:PRINT A"]))
        return session(lines + cmds, max_ops=5000)

    def full(self, r):
        """A program stopped inside as many loops and subroutines as there can be; what is typed leaves them alone."""
        vs = list("IJKLMNPQ")
        r.shuffle(vs)
        d, e = r.choice([0, 1, 6, 7, 8, 8, 8]), r.choice([0, 1, 6, 7, 8, 8])
        open_ = ["FOR %s=1 TO %d" % (v, r.choice([1, 1, 2])) for v in vs[:d]] + ["GOSUB"] * e
        if r.random() < .5:
            r.shuffle(open_)
        lines = []
        for o in open_:
            if o == "GOSUB":
                n = 10 * len(lines) + 10
                lines += ["GOSUB %d:PRINT \"back%d\"" % (n + 20, n), "END"]
            else:
                lines.append(o)
        lines.append("PRINT \"inside\":%s:PRINT \"after\"" % r.choice(["STOP", "STOP", "END", "PRINT LOG(0)", "DEF FNA(X)=LOG(X):PRINT FNA(0)", "DEF FNA(X)=LOG(X):DEF FNB(Y)=FNA(Y):PRINT FNA(2);FNB(0)"]))
        for v in reversed(vs[:d]):
            lines.append("NEXT" + r.choice(["", " " + v]) + r.choice(["", "", ":STOP"]))
        lines += ["PRINT \"left\"", "RETURN"]
        cmds = ["%d %s" % (10 * i + 10, l) for i, l in enumerate(lines)] + ["RUN"]
        for _ in range(r.randint(2, 10)):
            cmds.append(r.choice(["PRINT I;J;K", "A=A+1", "DIM V%s(3)" % r.choice("ABCD"), "REM", "", "LIST 10", "PRINT (", "READ A", "PRINT FNA(1)", "PRINT FNA(1)", "PRINT FNB(1)", "PRINT FNB(0)", "DEF FNA(X)=X", "RESTORE", "A$=\"x\"", "PRINT LOG(0)", "FOR Z=1 TO 2:NEXT",
                                  "GOSUB %d" % (10 * len(lines)), "GOTO %d" % (10 * len(lines)), "IF 1 THEN A=2", "ON 0 GOTO 10", "DATA 1", "RANDOMIZE 3", "LET B=2", "*true", "SAVE \"s\"", "STOP", "END"]))
            cmds.append(r.choice(["CONT", "CONT", "NEXT", "NEXT " + r.choice(vs), "RETURN", "CONT"]))
        cmds.append("PRINT I;J;K;L;M;N;P;Q")
        return session(cmds, opts=["-q"] + (["-t"] if r.random() < .1 else []), max_ops=6000)

    def gen(self, r, i):
        if i % 5 == 2:
            return self.stacks(r)
        if i % 15 == 4:
            return self.full(r)
        if i % 30 == 9:
            return self.items(r)
        g = Prog(r, errors=0.03, size=r.choice([2, 4, 8]), stops=0.6, stdin=r.random() < 0.3)
        p = g.build()
        r2 = r
        nums = p.nums
        text = [l for l in p.text.split("\n")[:-1]]
        files = {"empty": "", "bad": "10 A=1\nxx\n", "good": "10 A=A+1:PRINT \"good\";A;V(1)\n20 B$=\"g\"\n"}
        cmds = []
        if r.random() < 0.75:
            if any(not fits(l) for l in text):
                files["p"] = p.text
                cmds.append("LOAD \"p\"")
            else:
                cmds += text
        g.subs_at = []
        for _ in range(r.randint(5, 60)):
            k = r.random()
            n = r.choice(nums)
            if k < 0.38:
                s = re.sub(r"@\w+@", str(n), g.line_stmt(1))
                if r.random() < .12:
                    # as many statements as a line can hold
                    for _ in range(30):
                        t = re.sub(r"@\w+@", str(n), g.simple(1)) or "A=A+1"
                        if "DATA" not in t and "REM" not in t and fits(s + ":" + t):
                            s += ":" + t
                if fits(s):
                    cmds.append(s)
            elif k < 0.5:
                cmds.append(r.choice(self.WRONG) if r.random() < .8 else self.mutant(r, g, n))
            elif k < 0.6:
                cmds.append(r.choice(["PRINT A;B;C;X;Y;Z1;count;N", "PRINT A$;\"|\";B$;\"|\";name$", "PRINT V(1);V(2);L$(1);A(1)", "FOR Q=0 TO 3:PRINT V(Q);A$(Q);:NEXT", "PRINT I;J;K", "LIST", "PRINT FNA(1)", "PRINT FNsq(2);FNA$(1)"]))
            elif k < 0.68:
                cmds.append(r.choice(["RUN", "CONT", "RUN", "CONT", "NEXT", "NEXT I", "RETURN", "GOTO %d" % n, "GOSUB %d" % n, "GOSUB %d:PRINT \"back\"" % n, "FOR I=1 TO 3:GOSUB %d:NEXT" % n, "STOP",
                                      "IF A THEN GOTO %d ELSE PRINT \"no\"" % n, "ON 1 GOTO %d" % n, "FOR I=1 TO 2", "PRINT I:NEXT I", "READ A$:PRINT A$", "RESTORE", "END", "PRINT 1:STOP:PRINT 2", "A=A+1:GOTO %d" % n]))
            elif k < 0.78:
                cmds.append(r.choice(["%d" % n, "%d PRINT \"new\";A;V(1)" % n, "%d A=A+1" % n, "65535 PRINT \"last\"", "1 DIM V(20)", "1 DEF FNA(X)=X*A", "%d STOP" % n, "%d PRINT (" % n, "%d FOR I=1 TO 3" % n, "%d NEXT" % n]))
            elif k < 0.8:
                # names that are nearly commands
                w = r.choice(["BYE", "HELP", "LIST", "RUN", "CONT", "CONTINUE", "LOAD", "SAVE", "NEW", "RENUM", "COMPILE", "CLEAR"])
                w = r.choice([w[:-1], w + r.choice("SXB1"), w[1:], w[:1], w[:2], w[:3], w + w[-1], w[0] + w, w[:-1] + r.choice("AX"), w[:-1] + r.choice("019")])
                w = rcase(r, w)
                if w.upper() not in model.KEYSET and w.upper() not in model.BUILTINS:
                    cmds.append(r.choice(["%s=5:PRINT %s", "%s(2)=7:PRINT %s(2)", "%s =A+1:PRINT %s", "LET %s=3:PRINT %s", "FOR %s=1 TO 2:NEXT %s"]) % (w, w))
            elif k < 0.84:
                cmds.append(r.choice(["CLEAR", "COMPILE", "LOAD \"good\"", r.choice(["LOAD \"good\"", "LOAD \"empty\""]), "NEW", "SAVE \"s\"", "RENUM", "LIST %d" % n, "*echo hi", "* true", "*false", "HELP", "help", "", "   ", "run", "list", "DIM V(7)", "DIM V(3,3)", "BYE 1", "compile",
                                      "DEF FNA(X)=X+A", "DEF FNA(X)=LOG(X)+A", "PRINT FNA(-1)", "PRINT FNA(2)", "DEF FNB(X)=V(X)", "PRINT FNB(99)", "DEF FNB(A)=A*2:PRINT FNB(4);A", "DATA 5,6:READ A:PRINT A"]))
            elif k < 0.9:
                cmds.append(r.choice(["A", "B", "V(1)", "A(2)"]) + "=" + r.choice(["1", "2", "A+1", "V(1)+1"]))
            else:
                cmds.append("PRINT " + g.num(2) + ";" + g.str(1))
        cmds = [re.sub(r"@\w+@", "10", c) for c in cmds]
        cmds += ["PRINT A;B;C;A$;B$;V(1)", "LIST"]
        if r.random() < 0.15:
            cmds += ["BYE"]
            if r.random() < 0.5:
                cmds.insert(r.randrange(len(cmds)), "BYE")
        t = "".join(c + "\n" for c in cmds)
        if r.random() < 0.1:
            t = t[:-1]
        opts = ["-q"]
        if r.random() < 0.1:
            opts.append("-k")
        if r.random() < 0.05:
            opts.append("-t")
        return session(t, files=files, opts=opts, unwritable=["dir"], max_ops=8000)

    def mutant(self, r, g, n):
        s = re.sub(r"@\w+@", str(n), g.simple(1))
        if not s:
            return "("
        if r.random() < 0.5:
            return gen.spoilt(r, s)
        i = r.randrange(len(s))
        return s[:i] + r.choice(["", "(", ")", ",", "\"", "$", "=", " ", "THEN", "1", "@", ";"]) + s[i + r.randint(0, 3):]
