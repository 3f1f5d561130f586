"""O03 X01 E06: the terminal, the command line, the clock."""
import errno
import fcntl
import os
import re
import select
import shutil
import signal
import subprocess
import tempfile
import termios
import time

import model
from gen import Prog, numbers
from harness import *
from props_expr import fits

WAIT = 20.0


# ---------------------------------------------------------------- a model that knows when it waits

class Errs(list):
    def __init__(self, m):
        super().__init__()
        self.m = m
        self.at = []

    def append(self, x):
        self.at.append(self.m.outlen)
        super().append(x)


class Break(Exception):
    pass


class Waits:
    """plan: (length of the output by then, number of errors by then, what to send)"""

    def watch(self, hang=None, ctrlc=()):
        self.ctrlc = ctrlc
        self.asked = 0
        self.ended = False
        self.pending = self.asking = False
        self.err = Errs(self)
        self.plan = []
        self.hang = hang
        self.passes = 0
        return self

    def wait(self):
        p = self.inpos
        if p and self.stdin[p - 1] != "\n" or self.ended:
            return
        self.ended = "\n" not in self.stdin[p:]    # no wait after the end of the input
        if self.asking:
            if self.asked in self.ctrlc:
                for _ in range(1 + (self.asked % 5 == 0)):
                    self.plan.append((self.outlen, len(self.err), "\x03"))
                self.pending = True
            self.asked += 1
        j = self.stdin.find("\n", p)
        self.plan.append((self.outlen, len(self.err), self.stdin[p:j + 1] if j >= 0 else self.stdin[p:]))

    def fgets(self, size):
        self.wait()
        return super().fgets(size)

    def skip_line(self):
        self.asking = True      # LIST P: for INPUT it does not wait here
        self.wait()
        self.asking = False
        super().skip_line()

    def page_break(self):
        p, self.pending = self.pending, False
        return p

    def step(self):
        if self.pending:
            self.pending = False
            self.count("break at INPUT")
            raise Break(None)
        if self.hang is not None and self.prog is not None and self.state.code is self.prog:
            op = self.prog.ops[self.state.pc]
            if op[0] == "PSTR":
                self.passes += 1
            if op[0] == "GOTO" and self.passes and self.prog.lines[self.state.line][0] == self.hang:
                raise Break("\x03")
            self.asking = op[0] == "INPUT"
        elif self.state.code.ops[self.state.pc][0] == "INPUT":
            self.asking = True
        super().step()
        self.asking = False

    def run(self):
        self.passes = 0
        self.pending = False
        try:
            return super().run()
        except Break as x:
            if x.args[0]:
                self.plan.append((self.outlen, len(self.err), x.args[0]))
            self.write("Break\n")
            self.count("break")
            if self.state.code is self.prog:
                self.stopped_at = self.state.copy()
                self.stopped_input = self.buf, self.bp
            return True


class LiveBatch(Waits, model.Machine):
    pass


class LiveSession(Waits, model.Session):
    pass


def squeeze(s):
    return re.sub("~+", "~", s)


class Live:
    """The interpreter at the other end of pipes or a terminal, driven step by step."""

    def __init__(self, exe, case, tty):
        self.tty = tty
        self.dir = tempfile.mkdtemp(prefix="lbv")
        for name, text in case.get("files", {}).items():
            with open(os.path.join(self.dir, name), "wb") as f:
                f.write(text.encode("latin-1"))
        args = [exe] + list(case["opts"])
        if case["mode"] == "batch":
            with open(os.path.join(self.dir, "p.bas"), "wb") as f:
                f.write(case["prog"].encode("latin-1"))
            args.append("p.bas")
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TERM": "dumb", "LB_NOFLUSH": "1", "LB_STEPS": "300000" if case.get("kind") == "hang" else "20000000"}
        self.text = {}
        if tty:
            m, s = os.openpty()
            a = termios.tcgetattr(s)
            a[0] = a[1] = 0
            a[3] = termios.ICANON | termios.NOFLSH | termios.ISIG
            a[6] = [b"\0"] * len(a[6])
            a[6][termios.VEOF] = b"\x04"
            a[6][termios.VINTR] = b"\x03"
            termios.tcsetattr(s, termios.TCSANOW, a)

            def own():
                fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            self.p = subprocess.Popen(args, stdin=s, stdout=s, stderr=s, cwd=self.dir, env=env, start_new_session=True, preexec_fn=own)
            os.close(s)
            self.to, self.fds = m, {m: "out"}
        else:
            self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=env, bufsize=0)
            self.to = self.p.stdin.fileno()
            self.fds = {self.p.stdout.fileno(): "out", self.p.stderr.fileno(): "err"}
        self.got = {"out": "", "err": ""}

    def pump(self, timeout):
        """False when nothing came"""
        if not self.fds:
            return False
        r = select.select(list(self.fds), [], [], timeout)[0]
        for f in r:
            try:
                b = os.read(f, 65536)
            except OSError as x:
                if x.errno != errno.EIO:
                    raise
                b = b""
            if not b:
                del self.fds[f]
            k = self.fds.get(f)
            if k:
                t = b.decode("latin-1")
                self.got[k] = squeeze(self.got[k] + t) if "~" in t else self.got[k] + t
        return bool(r)

    def until(self, ready):
        end = time.monotonic() + WAIT
        while not ready():
            left = end - time.monotonic()
            if left <= 0 or not self.fds:
                return ready()
            self.pump(min(left, 1))
        return True

    def send(self, s):
        try:
            os.write(self.to, s.encode("latin-1"))
        except BrokenPipeError:
            pass

    def eof(self):
        if self.tty:
            self.send("\x04")
        else:
            self.p.stdin.close()

    def finish(self):
        end = time.monotonic() + WAIT
        while self.fds and time.monotonic() < end:
            self.pump(1)
        try:
            return self.p.wait(timeout=max(0.1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            return "does not end"

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        if self.tty:
            os.close(self.to)
        else:
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                f.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class O03(Check):
    prop = "O03"
    quick = 8000
    thorough = 120000
    rule = ("one case = one program or session driven over pipes or a pseudo-terminal by a driver that types each line only when everything "
            "printed before has arrived: at every wait the text received must be exactly what the model has printed, on a terminal with the "
            "errors in their places; programs that end in an endless silent loop must have shown everything; CTRL-C typed on the terminal")

    def gen(self, r, i):
        k = i % 8
        if k == 7:
            return self.endless(r)
        c = self.breaks(r) if k == 3 else self.asks(r) if k == 5 else self.plain(r, k)
        if c["tty"] and r.random() < .6:
            c["ctrlc"] = sorted(x for x in range(12) if r.random() < .3)
        return c

    def plain(self, r, k):
        p = Prog(r, errors=r.choice([0, 0, 0.02]), stops=r.choice([0, 0, 0.3]), size=r.size([3, 6, 12])).build()
        tty = r.random() < .5
        if k % 2:
            return batch(p.text, stdin=p.stdin(), max_ops=8000, kind="plain", tty=tty)
        cmds = ["LOAD \"p\""] if any(not fits(l) for l in p.text.split("\n")) or r.random() < .5 else p.text.split("\n")[:-1]
        c = session(cmds, files={"p": p.text}, max_ops=8000, kind="plain", tty=tty)
        n = r.choice(p.nums)
        for x in range(r.randint(1, 8)):
            t = r.choice(["RUN", "RUN", "CONT", "INPUT \"q\";A:PRINT A", "LINE INPUT A$:PRINT A$;", "PRINT A;A$;", "PRINT \"no newline\";", "LIST", "LIST %d" % n, "GOTO %d" % n, "NEXT", "PRINT (", "LOAD \"gone\"", "RENUM 0", "10x",
                          "%d PRINT \"new\";" % n, "BYE now", "*echo hi", "", "PRINT SPC(20);", "FOR I=1 TO 3:PRINT I;:INPUT Q$:NEXT", "LIST P", "z" * 200, "PRINT 1/0;\"x\",", "PRINT TAB(9);", "COMPILE", "CONT", "SAVE \"s\""])
            c["stdin"] += t + "\n"
            if r.random() < .4:
                c["stdin"] += r.choice(["5", "x", "1,2", "", "abc", "7,8,9"]) + "\n"
        return c

    def shrink(self, case):
        return case

    def asks(self, r):
        """a session of many questions, with CTRL-C typed instead of or before the reply"""
        item = lambda: ",".join(r.choice(["A", "B", "A$", "B$", "V(A)", "X", "L$(2)", "V(V(0))"]) for _ in range(r.randint(1, 3)))
        lines = []
        for _ in range(r.randint(1, 6)):
            lines.append(r.choice(["INPUT " + item(), "INPUT \"q\";" + item(), "LINE INPUT A$", "FOR I=1 TO %d:INPUT V(I):NEXT" % r.randint(1, 3), "PRINT A;B;A$;B$;", "IF A THEN INPUT B ELSE INPUT A$,B", "INPUT A:INPUT B:PRINT A+B", "STOP", "GOSUB @S@", "PRINT V(0);V(1);X"]))
        nums = numbers(r, len(lines) + 2)
        lines += ["PRINT \"end\":END", "INPUT \"sub\";X:PRINT X:RETURN"]
        text = "".join("%d %s\n" % (n, l.replace("@S@", str(nums[-1]))) for n, l in zip(nums, lines))
        if r.random() < .2:
            text += "".join("%d REM %d\n" % (nums[-1] + x, x) for x in range(1, r.choice([5, 22, 30, 60])))
        out = "LOAD \"p\"\nRUN\n"
        reply = lambda: r.choice(["5", "1", "2,3", "x", "a,b", "1,2,3", "", "7,seven,1", "0", "a long line of text, with a comma", "9" * r.size([3, 130, 200])]) + "\n"
        for _ in range(r.randint(2, 14)):
            out += reply() if r.random() < .55 else r.choice(["CONT", "CONT", "CONT", "INPUT A", "INPUT B$,B", "PRINT A;B;A$;B$;V(0);V(1)", "LIST P", "LIST P", "RUN", "GOSUB %d" % nums[-1], "PRINT 1:LINE INPUT B$:PRINT B$", "CLEAR", "%d REM" % nums[0], "FOR I=1 TO 2:INPUT A:NEXT", "BYE"]) + "\n"
        return session(out, files={"p": text}, kind="plain", tty=r.random() < .8, max_ops=4000)

    def body(self, r):
        lines = []
        for _ in range(r.randint(1, 8)):
            lines.append(r.choice(["PRINT \"ab\";", "PRINT 1;2", "PRINT TAB(%d);" % r.randint(1, 40), "PRINT SPC(%d);" % r.randint(0, 30), "PRINT \"x\",", "PRINT", "PRINT A$;A;", "A=A+1", "A$=A$+\"q\"", "FOR I=1 TO %d:PRINT I;:NEXT" % r.randint(1, 5),
                                   "INPUT \"name\";B$", "INPUT N", "LINE INPUT \"l\";C$:PRINT C$;", "PRINT \"%s\";" % ("w" * r.size([1, 10, 100, 200])), "FOR J=1 TO %d:PRINT \"%s\";:NEXT" % (r.size([1, 10, 50]), "v" * r.size([1, 9, 80])), "GOSUB @S@", "PRINT \"a\";TAB(9);\"b\";",
                                   "PRINT CHR$(10);\"c\";", "READ A$:PRINT A$;", "PRINT RND*0;"]))
        return lines

    def endless(self, r):
        lines = self.body(r)
        nums = numbers(r, len(lines) + 3)
        h = nums[len(lines)]
        lines += [r.choice(["GOTO @H@", "A=A:GOTO @H@", "FOR Z=1 TO 2 STEP 0:NEXT", "IF 1 THEN @H@", "GOSUB @R@:GOTO @H@"]), "PRINT \"sub\";:RETURN", "RETURN:DATA one,two,three,4,5,6,7,8"]
        prog = "".join("%d %s\n" % (n, l.replace("@H@", str(h)).replace("@S@", str(nums[-2])).replace("@R@", str(nums[-1]))) for n, l in zip(nums, lines))
        stdin = "".join(r.choice(["5", "6", "seven", "8,9", ""]) + "\n" for _ in range(r.randint(8, 20)))
        return batch(prog, stdin=stdin, kind="hang", tty=True, hang=h, max_ops=2500)

    def breaks(self, r):
        """CTRL-C typed while a program loops"""
        lines = self.body(r)
        nums = numbers(r, len(lines) + 3)
        h = nums[len(lines)]
        lines += ["PRINT \"~\";:GOTO @H@", "PRINT \"sub\";:RETURN", "DATA one,two,three,4,5,6,7,8"]
        prog = "".join("%d %s\n" % (n, l.replace("@H@", str(h)).replace("@S@", str(nums[-2]))) for n, l in zip(nums, lines))
        t = "LOAD \"p\"\nRUN\n" + "".join(r.choice(["5", "6", "77"]) + "\n" for l in lines if "INPUT" in l)
        for _ in range(r.randint(1, 6)):
            t += r.choice(["CONT", "CONT", "CONT", "PRINT A;A$;B$", "A=5", "PRINT A", "GOTO %d" % h, "LIST %d" % h, "PRINT (", "%d PRINT \"~\";:GOTO %d" % (h, h), "%d PRINT 1" % nums[0], "A$=\"z\"", "CLEAR", "PRINT 1/0;", "GOSUB %d" % nums[-2]]) + "\n"
        return session(t, files={"p": prog}, kind="break", tty=True, hang=h, max_ops=4000)

    def live(self, case):
        kw = {"max_ops": case["max_ops"], "crunch": case.crunch}
        if case["mode"] == "batch":
            m = LiveBatch(case["stdin"], **kw).watch(None, case.get("ctrlc", ()))
            m.source = model.parse_file(case["prog"])
            try:
                m.run_program()
            except model.Limit:
                if case["kind"] != "hang" or not case["hang"] <= m.prog.lines[m.state.line][0]:
                    raise
                m.count("endless")
            else:
                if case["kind"] == "hang":
                    raise model.Unsure("ends")
        else:
            m = LiveSession(case["stdin"], files=case.get("files"), **kw).watch(case.get("hang"), case.get("ctrlc", ()))
            m.go()
        if m.nan or len(m.err) > 8 or m.outlen > 20000 or any(k == "maybe" for k, _ in m.err) or model.HELP_MARK in "".join(m.out):
            raise model.Unsure("not followed live")
        return m

    def judge_case(self, case):
        try:
            m = self.live(case)
        except (model.Limit, model.Unsure, model.LoadErr) as x:
            return Outcome("skip", case, detail="%s: %s" % (type(x).__name__, x))
        d = self.drive(case, m)
        if d:
            d2 = self.drive(case, m)
            if not d2:
                return Outcome("inconclusive", case, detail="not repeated: " + d)
            return Outcome("bad", case, detail=d2, stats=m.stats)
        m.stats["waits observed"] = len(m.plan)
        m.stats["over a terminal" if case["tty"] else "over pipes"] = 1
        return Outcome("ok", case, stats=m.stats, nontrivial=len(m.plan) > 0 or case["kind"] == "hang")

    def drive(self, case, m):
        want = "".join(m.out)
        live = Live(self.exe["plain"], case, case["tty"])
        got = live.got

        def pattern(length, nerr):
            pos, pat = 0, ""
            for k in range(nerr):
                pat += re.escape(squeeze(want[pos:m.err.at[k]])) + ("(?:Runtime error:.+?\n)" if m.err[k][0] == "run" else "(?:.+?\n)")
                pos = m.err.at[k]
            return re.compile(pat + re.escape(squeeze(want[pos:length])), re.S)

        def arrived(length, nerr):
            if not case["tty"]:
                w = squeeze(want[:length])
                return lambda: len(got["out"]) >= len(w) and got["err"].count("Runtime error:") >= sum(k == "run" for k, _ in m.err[:nerr])
            if nerr == 0:
                w = squeeze(want[:length])
                return lambda: len(got["out"]) >= len(w)
            pat = pattern(length, nerr)
            return lambda: pat.fullmatch(got["out"]) is not None
        try:
            last = None
            for k, (length, nerr, text) in enumerate(m.plan):
                ready = arrived(length, nerr)
                if not live.until(ready) or not pattern(length, nerr if case["tty"] else 0).fullmatch(got["out"]):
                    w = squeeze(want[:length])
                    return "before input %d (%r) %s: %s%s" % (k + 1, text[:20], "on the terminal" if case["tty"] else "over pipes", diff_text(w, got["out"]),
                                                              "" if live.p.poll() is None else " (ended with status %r)" % live.p.poll())
                if text == "":
                    live.eof()
                else:
                    if text == last == "\x03":
                        time.sleep(0.02)
                    last = text
                    live.send(text)
                    if not text.endswith("\n") and text != "\x03":
                        # the last line has no newline
                        live.eof()
                        if case["tty"]:
                            live.eof()
            rc = live.finish()
            out = got["out"]
            exp = 97 if case["kind"] == "hang" else 0
            if case["kind"] == "hang":
                mark = "\nMONITOR: step budget exceeded\n"
                if out.endswith(mark):
                    out = out[:-len(mark)]
            if rc != exp:
                return "exit status %r, expected %d: %r %r" % (rc, exp, out[-200:], got["err"][-200:])
            if case["tty"]:
                if not pattern(len(want), len(m.err)).fullmatch(out):
                    return "on the terminal, at the end: " + diff_text(squeeze(want), out)
            else:
                if out != squeeze(want):
                    return "at the end: " + diff_text(squeeze(want), out)
                d = check_err(m.err, got["err"])
                if d:
                    return d
            return None
        finally:
            live.close()


# ---------------------------------------------------------------- X01

SPELL = {"-c": "--code", "-h": "--help", "-hh": "--help-full", "-k": "--keywords-anywhere", "-l": "--list", "-n": "--list-names", "-p": "--parse", "-q": "--quiet",
         "-z": "--randomize", "-m": "--report-memory", "-r": "--run", "-t": "--trace-basic", "-f": "--trace-for", "-g": "--trace-log", "-v": "--version"}
MODES = ["-c", "-l", "-n", "-p", "-r"]
OTHER = ["-k", "-q", "-m", "-t", "-f", "-g", "-z"]
KNOWN = set(SPELL) | set(SPELL.values()) | {"-?", "/?", "-i", "--time", "-unittest", "--unit-tests"}
VERSION = re.compile(r"\ALegacy Basic \d+\.\d+\.\d+ [^\n]*\n\n")
TYPEHELP = "Type HELP to list commands\n\n"
MEMORY = re.compile(r"\nmalloc: +(\d+)\nfree: +(\d+)\n\Z")


class X01(Check):
    prop = "X01"
    quick = 6000
    thorough = 90000
    rule = ("one case = one command line (any set of options, a program file, a missing one, a folder, none, two) in several orders and spellings with "
            "repetitions: all of them must give the same output, errors, status and files; run, list, parse and sessions are compared with the model, help "
            "and version must execute and read nothing, and command lines with an unknown option, two files or a mode without file must be refused")

    def gen(self, r, i):
        crunch = r.random() < .2
        p = Prog(r, errors=r.choice([0, 0.03]), size=r.size([2, 4, 8])).build()
        text = p.text
        if r.random() < .15:
            text = r.choice([text + "oops\n", "10 PRINT \"a\n20 FOR\n", "", "10 PRINT 1\n5 PRINT 2\n", "10 PRINT \"never\"\n20 PRINT (\n"])
        opts = r.sample(OTHER, r.choice([0, 1, 1, 2, 3, 5]))
        if "RND" in text.upper():
            opts = [o for o in opts if o != "-z"]
        if crunch and "-k" not in opts:
            opts.append("-k")
        mode = r.choice([None, None, "-r"] + MODES)
        what = r.choice(["file"] * 8 + ["none"] * 3 + ["help", "version", "unknown", "two", "modeonly", "missing", "folder"])
        names = ["p.bas"]
        if what == "none":
            mode, names = None, []
        elif what == "help":
            opts = r.sample(opts, min(len(opts), 2)) + [r.choice(["-h", "-hh", "-?", "/?"])]
            names = r.choice([[], ["p.bas"]])
        elif what == "version":
            opts.append("-v")
            names = r.choice([[], ["p.bas"]])
            if not names:
                mode = None
        elif what == "unknown":
            longs = list(SPELL.values()) + ["--help", "--version", "--quiet", "--list", "--parse"]
            w = r.choice([o for o in longs if o.startswith("--")])
            near = r.choice([w[:-1], w[:-1], w[:-2], w[:5], w[:6], w[:r.randint(3, len(w))] + "x", w + "s", w + "=", w + " ", w[1:], w.upper(), w.title(), w + w[2:], w.replace("-", "_"), "-" + w, w[:4] + w[5:], w + "-"])
            opts.append(near if r.random() < .5 and near not in KNOWN and near.startswith("-") else r.choice(["-x", "-Q", "--quit", "-", "--", "-qq", "--list=1", "--Quiet", "-kq", "-pp", "--trace", "-hhh", "--quiet ", "-q1", "--report-memor", "--codes", "-tt"]))
            names = r.choice([[], ["p.bas"]])
        elif what == "two":
            names = r.choice([["p.bas", "p.bas"], ["p.bas", "q.bas"], ["q.bas", "p.bas", "p.bas"]])
        elif what == "modeonly":
            mode, names = r.choice(MODES), []
        elif what == "missing":
            names = [r.choice(["gone.bas", "P.BAS", "p", "p.bas.bas", "sub/p.bas"])]
        elif what == "folder":
            names = ["dir"]
        base = sorted(set(opts)) + ([mode] if mode else [])
        lines = [base + names]
        for _ in range(r.randint(2, 4)):
            l = [SPELL.get(o, o) if r.random() < .5 else o for o in base]
            l += [SPELL.get(o, o) if r.random() < .5 else o for o in r.sample(base, min(len(base), r.choice([0, 0, 1])))]
            r.shuffle(l)
            for n in names:
                l.insert(r.randint(0, len(l)) if len(names) == 1 else len(l), n)
            lines.append(l)
        if what == "none":
            cmds = [l for l in text.split("\n")[:-1] if fits(l)] if r.random() < .6 else ["LOAD \"p.bas\""]
            stdin = "".join(c + "\n" for c in cmds) + "".join(r.choice(["RUN", "LIST", "PRINT A", "FOR I=1 TO 2:PRINT I:NEXT", "PRINT (", "GOTO 1", "BYE"]) + "\n" for _ in range(r.randint(1, 4)))
        else:
            stdin = p.stdin() or "1\n"
        return Case(kind=what, lines=lines, mode_option=mode, options=sorted(set(opts)), prog=text, stdin=stdin, max_ops=15000, mode="cmd")

    def shrink(self, case):
        return case

    def go(self, case, args):
        d = tempfile.mkdtemp(prefix="lbv")
        try:
            os.mkdir(d + "/w")
            os.mkdir(d + "/w/dir")
            for n in ("p.bas", "q.bas"):
                with open(d + "/w/" + n, "wb") as f:
                    f.write(case["prog"].encode("latin-1"))
            if case["kind"] == "unknown":
                # even if there is a program of that name
                for o in case["options"]:
                    with open(d + "/w/" + o, "wb") as f:
                        f.write(case["prog"].encode("latin-1"))
            with open(d + "/in", "wb") as f:
                f.write(case["stdin"].encode("latin-1"))
            with open(d + "/in", "rb", buffering=0) as fi, open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
                try:
                    rc = subprocess.run([self.exe["plain"]] + args, stdin=fi, stdout=fo, stderr=fe, cwd=d + "/w", env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, timeout=60).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                taken = os.lseek(fi.fileno(), 0, os.SEEK_CUR)
            with open(d + "/out", "rb") as f:
                out = f.read(20000000).decode("latin-1")
            with open(d + "/err", "rb") as f:
                err = f.read(20000000).decode("latin-1")
            files = {n: open(d + "/w/" + n, "rb").read() for n in sorted(os.listdir(d + "/w")) if n != "dir"}
            return rc, out, err, files, taken
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge_case(self, case):
        e = None
        if case["kind"] in ("file", "none") and case["mode_option"] in (None, "-r"):
            c = dict(opts=case["options"], max_ops=case["max_ops"])
            try:
                if case["kind"] == "none":
                    e = expect(session(case["stdin"], files={"p.bas": case["prog"], "q.bas": case["prog"]}, **c))
                else:
                    e = expect(batch(case["prog"], stdin=case["stdin"], **c))
            except (model.Limit, model.Unsure) as x:
                return Outcome("skip", case, detail=type(x).__name__)
        results = [self.go(case, l) for l in case["lines"]]
        rc, out, err, files, taken = results[0]
        n = len(results)

        def bad(why, l=case["lines"][0]):
            return Outcome("bad", case, "%s: %s" % (" ".join(l), why), runs=n)
        for l, x in zip(case["lines"], results):
            if x[0] == "timeout":
                return Outcome("inconclusive", case, "timeout", runs=n)
            a = abnormal(Result(x[0], x[1], x[2], None))
            if a:
                return bad(a, l)
            if case["kind"] == "two" or (case["kind"] in ("unknown", "help") and x[0] == rc):
                continue        # which of several complaints comes first is not settled; judged one by one below
            if x[:4] != results[0][:4]:
                what = "status %r, %r" % (x[0], rc) if x[0] != rc else "output " + diff_text(out, x[1]) if x[1] != out else "errors " + diff_text(err, x[2]) if x[2] != err else "files"
                return bad("not the same as %s: %s" % (" ".join(case["lines"][0]), what), l)
        st = {case["kind"]: 1, "command lines": n}
        kind = case["kind"]
        if kind in ("help", "version", "unknown", "two", "modeonly", "missing", "folder"):
            for l, x in zip(case["lines"], results):
                if x[3].keys() != {"p.bas", "q.bas"} | set(case["options"] if kind == "unknown" else []) or any(v != case["prog"].encode("latin-1") for v in x[3].values()):
                    return bad("files changed", l)
                if x[4]:
                    return bad("standard input was read", l)
                o = VERSION.sub("", x[1])
                if kind == "help":
                    if x[2] or not o.startswith("Usage:"):
                        return bad("no help: %r %r" % (o[:60], x[2][:100]), l)
                    for a, b in SPELL.items():
                        if not re.search(r"(?m)^%s, %s$" % (b, a), o) and not re.search(r"(?m)^%s, %s$" % (a, b), o) and b not in o:
                            return bad("help does not mention %s" % b, l)
                elif kind == "version":
                    if x[2] or o or not VERSION.match(x[1]):
                        return bad("not just the version: %r %r" % (x[1][:200], x[2][:100]), l)
                else:
                    if x[0] == 0 or not x[2].strip() or o:
                        return bad("not refused: status %r, errors %r, output %r" % (x[0], x[2][:100], o[:100]), l)
            return Outcome("ok", case, stats=st, runs=n)
        # a program or a session
        opts, mode = case["options"], case["mode_option"]
        if "-q" not in opts:
            m = VERSION.match(out)
            if not m:
                return bad("no version information: %r" % out[:60])
            out = out[m.end():]
            if kind == "none":
                if not out.startswith(TYPEHELP):
                    return bad("no hint: %r" % out[:60])
                out = out[len(TYPEHELP):]
        m = MEMORY.search(out)
        if "-m" in opts and rc == 0:
            if not m or m.group(1) != m.group(2):
                return bad("memory report %r" % (m.group() if m else None))
            out = out[:m.start()]
        elif m:
            return bad("memory report not asked for")
        if mode in ("-c", "-n") or "-f" in opts:
            return Outcome("ok", case, stats=st, runs=n)
        if mode == "-l":
            try:
                want, wrc = "".join("%5u %s\n" % l for l in model.parse_file(case["prog"])), 0
            except model.LoadErr:
                want, wrc = "", 1
            if out != want or rc != wrc or (rc == 0) != (err == ""):
                return bad("status %r, %s" % (rc, diff_text(want, out)))
            return Outcome("ok", case, stats=st, runs=n)
        if mode == "-p":
            try:
                src = model.parse_file(case["prog"])
                model.Parser({}, "-k" in opts).program(src)
                wrc = 0
            except (model.LoadErr, model.SyntaxErr):
                wrc = 1
            if out or rc != wrc or (rc == 0) != (err == ""):
                return bad("status %r, output %r, errors %r" % (rc, out[:100], err[:100]))
            return Outcome("ok", case, stats=st, runs=n)
        if rc != e.rc:
            return bad("status %r, expected %r" % (rc, e.rc))
        if not same_text(e.out, out, e.nan):
            return bad("output " + diff_text(e.out, out))
        if "-g" not in opts or kind == "none":
            d = check_err(e.err, err)
            if d:
                return bad(d)
        st["compared with the model"] = 1
        return Outcome("ok", case, stats=st, runs=n)


# ---------------------------------------------------------------- E06

class E06(Check):
    prop = "E06"
    quick = 2000
    thorough = 40000
    rule = ("one case = one program showing TIME$ (in all places a string can stand) in a time zone chosen such that it is a certain time of day there, "
            "compared with the clock read before and after; or three runs at different seconds of programs that RANDOMIZE without a number (or with "
            "--randomize), whose sequences must differ from each other and from the fixed one")

    def gen(self, r, i):
        if i % 50 == 49:
            prog = r.choice(["10 RANDOMIZE\n20 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT\n", "10 X=RND:GOSUB 100\n20 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT:END\n100 RANDOMIZE:RETURN\n", "10 RANDOMIZE 5\n20 randomize :FOR I=1 TO 8:PRINT RND:NEXT\n",
                             "10 IF 1 THEN RANDOMIZE ELSE PRINT 1\n20 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT\n"])
            opts = ["-q"]
            if r.random() < .4:
                prog, opts = "10 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT\n", ["-q", r.choice(["-z", "--randomize"])]
            if r.random() < .6:
                opts = opts + r.choice([["-t"], ["-g"], ["-k"], ["-r"], ["--run"], ["-t", "-k"]])
            via = r.choice(["batch", "batch", "session", "session", "typed"])
            if via != "batch":
                opts = [o for o in opts if o not in ("-r", "--run")]
            if via == "typed" and len(prog.split("\n")) > 2 and ("GOSUB" in prog or "ELSE" in prog):
                via = "session"
            return Case(mode="random", prog=prog, opts=opts, via=via)
        if i % 100 == 7:
            # one process over more than a second
            return Case(mode="clock", program=r.choice([True, False]), zone="UTC0", random=r.random() < .5)
        h = r.choice([0, 0, 1, 9, 10, 11, 12, 12, 13, 19, 20, 22, 23, r.randint(0, 23)])
        m = r.choice([0, 0, 1, 9, 10, 30, 58, 59, r.randint(0, 59)])
        s = r.choice([0, 0, 1, 8, 9, 10, 57, 58, 59, r.randint(0, 59)])
        zone = r.choice(["fixed"] * 5 + ["AAA5BBB,M3.2.0,M11.1.0", "AAA-1BBB,M1.1.0/0,M12.5.0/3", "UTC0", "", "AAA3:30", "AAA-9:30BBB-10:30,M10.1.0,M4.1.0/3"])
        prog = r.choice(["10 PRINT TIME$\n20 PRINT TIME$\n", "10 A$=TIME$:PRINT A$:PRINT time$;\n", "10 DEF T$(X)=TIME$\n20 PRINT T$(1)\n", "10 DIM A$(3):A$(2)=TIME$:PRINT A$(2)+\"\"\n", "10 PRINT LEFT$(TIME$,8)\n",
                         "10 FOR I=1 TO 5:PRINT TIME$:NEXT\n", "10 X$=Time$:PRINT MID$(X$,1,2);\":\";MID$(X$,4,2);\":\";RIGHT$(X$,2)\n", "10 IF TIME$<>\"\" THEN PRINT TIME$ ELSE PRINT \"none\"\n", "10 IF LEN(TIME$)=8 THEN PRINT TIME$\n"])
        mode = r.choice(["batch", "batch", "session"])
        if mode == "session":
            return Case(mode="time", prog=None, stdin="".join(l.split(" ", 1)[1] + "\n" if r.random() < .7 or "DEF" in prog else l + "\nRUN\nNEW\n" for l in prog.split("\n")[:-1]), zone=zone, time=[h, m, s])
        return Case(mode="time", prog=prog, stdin="", zone=zone, time=[h, m, s])

    def shrink(self, case):
        return case

    def judge_case(self, case):
        if case["mode"] == "random":
            return self.randomize(case)
        if case["mode"] == "clock":
            return self.clock(case)
        zone = case["zone"]
        if zone == "fixed":
            h, m, s = case["time"]
            now = time.gmtime()
            d = (h * 3600 + m * 60 + s) - (now.tm_hour * 3600 + now.tm_min * 60 + now.tm_sec)
            sign = "-" if d >= 0 else ""
            d = abs(d)
            zone = "ZZZ%s%d:%02d:%02d" % (sign, d // 3600, d // 60 % 60, d % 60)
        c = batch(case["prog"]) if case["prog"] is not None else session(case["stdin"])
        t0 = int(time.time() - 0.1)     # the coarse clock may lag behind
        res = run_case(self.exe["plain"], c, env={"TZ": zone})
        t1 = int(time.time())
        bad = abnormal(res)
        if bad:
            return Outcome("bad", case, bad)
        if t1 - t0 > 60 or res.rc == "timeout":
            return Outcome("inconclusive", case, "slow")
        os.environ["TZ"] = zone
        time.tzset()
        want = [time.strftime("%H:%M:%S", time.localtime(t)) for t in range(t0, t1 + 1)]
        os.environ["TZ"] = "UTC0"
        time.tzset()
        shown = [l for l in res.out.replace("> ", "\n").split("\n") if l.strip()]
        if not shown or res.rc != 0 or res.err:
            return Outcome("bad", case, "no time shown: %r %r" % (res.out[:100], res.err[:100]))
        k = 0
        for l in shown:
            while k < len(want) and want[k] != l:
                k += 1
            if k >= len(want):
                return Outcome("bad", case, "in the time zone %s TIME$ is %r, the clock says %s" % (zone, l, " ".join(want)))
        return Outcome("ok", case, stats={"TIME$ shown": len(shown), "hour %s" % want[0][:2]: 1})

    def clock(self, case):
        """TIME$ moves on and RANDOMIZE follows the clock within one run of the interpreter"""
        show = "FOR I=1 TO 8:PRINT INT(RND*1000000);:NEXT:PRINT" if case["random"] else "PRINT TIME$"
        pre = "RANDOMIZE:" if case["random"] else ""
        cmds = ["10 " + pre + show] if case["program"] else []
        for k in range(3):
            cmds += ["RUN" if case["program"] else pre + show, "*sleep 1.2"]
        t0 = int(time.time() - 0.1)
        res = run_case(self.exe["plain"], session(cmds + ["BYE"]), env={"TZ": "UTC0"})
        t1 = int(time.time())
        bad = abnormal(res)
        if bad:
            return Outcome("bad", case, bad)
        if res.rc == "timeout":
            return Outcome("inconclusive", case, "slow")
        shown = [l for l in res.out.replace("> ", "\n").split("\n") if l.strip()]
        if len(shown) != 3 or res.err:
            return Outcome("bad", case, "not three lines: %r %r" % (res.out[:200], res.err[:100]))
        if len(set(shown)) != 3:
            return Outcome("bad", case, "the same again 1.2 s later: %r" % shown)
        if not case["random"]:
            want = [time.strftime("%H:%M:%S", time.gmtime(t)) for t in range(t0, t1 + 1)]
            if any(s not in want for s in shown):
                return Outcome("bad", case, "TIME$ gives %r between %s and %s" % (shown, want[0], want[-1]))
        return Outcome("ok", case, stats={"one process over seconds": 1})

    def randomize(self, case):
        seen = {}
        plain = run_case(self.exe["plain"], batch("10 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT\n"))
        seen[plain.out] = "without RANDOMIZE"
        fives = run_case(self.exe["plain"], batch("10 RANDOMIZE 5\n20 FOR I=1 TO 8:PRINT INT(RND*1000000):NEXT\n"))
        seen[fives.out] = "RANDOMIZE 5"
        for k in range(3):
            if k:
                time.sleep(1.1)
            via = case["via"]
            if via == "batch":
                c = batch(case["prog"], opts=case["opts"])
            elif via == "session":
                c = session(case["prog"] + "RUN\n", opts=case["opts"])
            else:
                c = session("".join(l.split(" ", 1)[1] + "\n" for l in case["prog"].split("\n")[:-1]), opts=case["opts"])
            res = run_case(self.exe["plain"], c)
            bad = abnormal(res)
            numbers = re.sub(r"\[\d+\]", "", res.out).replace("> ", "").rstrip("\n") + "\n"
            if bad or res.rc != 0 or res.err and "-g" not in case["opts"] or numbers.count("\n") != 8:
                return Outcome("bad", case, bad or "no numbers: %r %r" % (res.out[:100], res.err[:100]))
            if numbers in seen:
                return Outcome("bad", case, "run %d gives the same numbers as %s" % (k + 1, seen[numbers]))
            seen[numbers] = "run %d, %d s earlier" % (k + 1, k + 1)
        return Outcome("ok", case, stats={"runs at different times": 3, "randomized " + case["via"]: 1}, runs=5)
