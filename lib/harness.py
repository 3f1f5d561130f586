"""Run cases against the real interpreter and judge what was observed."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

import build
import literals
import model

VERIF = build.HERE
JOBS = int(os.environ.get("LB_JOBS", "8"))


class Case(dict):
    """mode: batch | session; prog (batch); opts; stdin; files; unwritable; crunch, trace from opts."""

    @property
    def crunch(self):
        return "-k" in self.get("opts", []) or "--keywords-anywhere" in self.get("opts", [])

    @property
    def trace(self):
        return "-t" in self.get("opts", [])

    def key(self):
        return hashlib.sha1(json.dumps(self, sort_keys=True).encode()).hexdigest()[:16]


def batch(prog, stdin="", opts=("-q",), **kw):
    return Case(mode="batch", prog=prog, stdin=stdin, opts=list(opts), **kw)


def session(lines, opts=("-q",), **kw):
    """lines: typed lines (list, each one gets a newline) or the text"""
    text = lines if isinstance(lines, str) else "".join(l + "\n" for l in lines)
    return Case(mode="session", stdin=text, opts=list(opts), **kw)


# ---------------------------------------------------------------- the real thing

class Result:
    __slots__ = ("rc", "out", "err", "files")

    def __init__(self, rc, out, err, files):
        self.rc, self.out, self.err, self.files = rc, out, err, files


ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=%d:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=1:strict_string_checks=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "LSAN_OPTIONS": "exitcode=95"}


def real_text(case):
    """The program as the interpreter gets it: with "far", behind a line that skips so many statements, which pushes
    the code, its jumps, loops, calls and data past the limits of 15, 16 and 17 bit positions. The meaning is the same."""
    text = case["prog"]
    n = case.get("far", 0)
    m = re.match(r" *([1-9][0-9]{0,4})(?![0-9])", text)
    if not n or not m or not 1 < int(m.group(1)) < 65536:
        return text
    return "1 GOTO %s%s\n%s" % (m.group(1), ":?" * n, text)


def far_size(r):
    return r.choice([32768, 65536, 65536, 65536, 131072]) - r.choice([r.randint(0, 12), r.randint(0, 60), r.randint(0, 300)]) if r.random() < .6 else r.choice([70000, 66000, 132000])


def in_context(case, r):
    """The same program run inside loops and subroutines already active, up to full stacks, entered from lines in front
    of it. The model predicts the whole."""
    if case["mode"] == "session" and (not re.match(r' *[0-9]|LOAD "', case.get("stdin", "")) or r.random() < .4):
        return stopped_first(case, r)
    field = "prog" if case["mode"] == "batch" else "stdin"
    text = case.get(field, "")
    load = case["mode"] == "session" and re.match(r'LOAD "(\w+)"\n', text)
    if load and load.group(1) in case.get("files", {}):
        name = load.group(1)
        text = case["files"][name]
    else:
        load = None
    nums = [int(x) for x in re.findall(r"^ *([0-9]{1,5})(?![0-9])", text, re.M)]
    m = re.match(r" *([1-9][0-9]{1,4})(?![0-9])", text)
    if not m or case["opts"] not in ([], ["-q"]) or min(nums) < 10 or int(m.group(1)) > 65535:
        return case
    first = min(nums) if case["mode"] == "session" or r.random() < .5 else int(m.group(1))
    if min(nums) > 300 and r.random() < .6:
        # a crowd of lines in front
        k = r.choice([253, 254, 255, 256, 257, 258, 260, 290] + [511, 512, 600] * (min(nums) > 601))
        k = min(k, min(nums) - 2)
        out = ["1 GOTO %d" % first] + ["%d REM" % (n + 2) for n in range(k)]
        return with_front(case, field, load and name, text, out, [k])
    f, g = r.choice([(0, 8), (8, 0), (8, 8), (7, 7), (0, 7), (7, 0), (1, 1), (2, 2), (2, 1), (1, 2), (6, 6), (3, 0),
                     (0, 3), (r.randint(0, 8), r.randint(0, 8))])
    out = []
    if f:
        out.append("1 " + ":".join("FOR Q%s=1 TO 1" % c for c in "ABCDEFGH"[:f]))
    for k in range(g):
        out.append('%d GOSUB %d:PRINT "^%d":END' % (k + 2, k + 3 if k < g - 1 else first, k))
    if not out:
        return case
    return with_front(case, field, load and name, text, out, [f, g])


def with_front(case, field, name, text, out, what):
    case = Case(case)
    text = "\n".join(out) + "\n" + text
    if name:
        case["files"] = dict(case["files"], **{name: text})
    else:
        case[field] = text
    case["context"] = what
    return case


def stopped_first(case, r):
    """The same session typed while a program is stopped, perhaps deep in loops and subroutines."""
    text = case["stdin"]
    if case["opts"] not in ([], ["-q"]):
        return case
    lead = re.match(r"( *[0-9].*\n)*", text).group(0)
    nums = [int(x) for x in re.findall(r"^ *([0-9]{1,9})", lead, re.M)] or [60000]
    n = 1 if min(nums) >= 40 and r.random() < .6 else max(60000, max(nums)) + 1
    if n > 65500:
        return case
    f, g = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (2, 1), (0, 8), (8, 0), (7, 7), (6, 7)])
    out = []
    if r.random() < .3:
        out.append("DEF FNQ(X)=X*2+QA")
    if f:
        out.append(":".join("FOR Q%s=1 TO 2" % c for c in "ABCDEFGH"[:f]))
    for k in range(g):
        out.append('GOSUB @:PRINT "^%d":END' % k)
    out.append(r.choice(["STOP", "STOP:PRINT 1", 'PRINT "S";:STOP:PRINT "T"', "IF 1 THEN STOP ELSE PRINT 2", "QZ=5:STOP"]))
    for k in range(r.choice([0, 0, 1, 1, 3])):
        out.append(r.choice(["PRINT QZ", "REM", 'PRINT "here"', "DATA 71,72,73", "IF QZ THEN PRINT QZ ELSE PRINT 3"]))
    if r.random() < .3:
        out.append("DATA 81,X,82")
    lines = ["%d %s" % (n + i, t.replace("@", str(n + i + 1))) for i, t in enumerate(out)]
    case = Case(case)
    case["stdin"] = lead + "\n".join(lines) + "\n%s\n" % r.choice(["RUN", "GOTO %d" % n] if n == 1 or not lead else ["GOTO %d" % n]) + text[len(lead):]
    case["context"] = [f, g, "stopped"]
    return case


def run_case(exe, case, env=None, leaks=0, wrapper=(), timeout=120):
    d = tempfile.mkdtemp(prefix="lbv")
    try:
        work = os.path.join(d, "w")
        os.mkdir(work)
        for name, text in case.get("files", {}).items():
            with open(os.path.join(work, name), "wb") as f:
                f.write(text.encode("latin-1"))
        for name in case.get("unwritable", ()):
            if "/" not in name and name:
                os.mkdir(os.path.join(work, name))
        args = list(wrapper) + [exe] + list(case.get("opts", []))
        if case["mode"] == "batch":
            with open(os.path.join(work, "p.bas"), "wb") as f:
                f.write(real_text(case).encode("latin-1"))
            args.append("p.bas")
        with open(os.path.join(d, "in"), "wb") as f:
            f.write(case.get("stdin", "").encode("latin-1"))
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "MALLOC_PERTURB_": "165", "TERM": "dumb"}
        e.update({k: (v % leaks if "%d" in v else v) for k, v in ASAN_ENV.items()})
        e.update(env or {})
        rc = None
        for attempt in (1, 2):
            with open(os.path.join(d, "in"), "rb") as fi, open(os.path.join(d, "out"), "wb") as fo, \
                    open(os.path.join(d, "err"), "wb") as fe:
                try:
                    rc = subprocess.run(args, stdin=fi, stdout=fo, stderr=fe, cwd=work, env=e,
                                        timeout=timeout).returncode
                    break
                except subprocess.TimeoutExpired:
                    rc = "timeout"
        files = {}
        for name in sorted(os.listdir(work)):
            p = os.path.join(work, name)
            if os.path.isfile(p) and not (case["mode"] == "batch" and name == "p.bas"):
                with open(p, "rb") as f:
                    files[name] = f.read(4000000).decode("latin-1")
        with open(os.path.join(d, "out"), "rb") as f:
            out = f.read(120000000).decode("latin-1")
        with open(os.path.join(d, "err"), "rb") as f:
            err = f.read(120000000).decode("latin-1")
        return Result(rc, out, err, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def abnormal(res):
    """Text saying why the process did not end by itself in an orderly way, or None"""
    rc = res.rc
    if rc == 97:
        return "does not terminate (step budget exceeded)"
    if rc == -24:
        return "does not terminate (CPU limit exceeded)"
    if rc == -25:
        return "endless output"
    if isinstance(rc, int) and rc < 0:
        return "killed by signal %d: %s" % (-rc, res.err.strip()[-300:])
    if rc in (98, 99, 95):
        return "sanitizer report: " + res.err.strip()[:1500]
    if "AddressSanitizer" in res.err or "runtime error: " in res.err or "LeakSanitizer" in res.err:
        return "sanitizer report: " + res.err.strip()[:1500]
    if "internal error" in res.err or "internal error" in res.out:
        return "internal error: " + res.err.strip()[-300:]
    return None


# ---------------------------------------------------------------- expectation

class Expect:
    __slots__ = ("out", "err", "files", "nan", "stats", "lines_run", "rc", "m")


def expect(case, **kw):
    """What the model says. Raises model.Limit / model.Unsure when it does not say."""
    kw.setdefault("max_ops", case.get("max_ops", 60000))
    e = Expect()
    e.rc = 0
    if case["mode"] == "batch":
        m = model.Machine(case.get("stdin", ""), crunch=case.crunch, trace=case.trace, **kw)
        try:
            m.source = model.parse_file(case["prog"])
        except model.LoadErr:
            m.err.append(("load", "p.bas"))
            e.rc = 1
        else:
            m.run_program()
        e.files = dict(case.get("files", {}))
    else:
        m = model.Session(case.get("stdin", ""), files=case.get("files"), unwritable=case.get("unwritable", ()),
                          crunch=case.crunch, trace=case.trace, **kw)
        m.go()
        e.files = m.files
    e.out = "".join(m.out)
    e.err = m.err
    e.nan = m.nan
    e.stats = m.stats
    e.lines_run = m.lines_run
    e.m = m
    return e


BANNER = re.compile(r"\ALegacy Basic [^\n]*\n\n(Type HELP[^\n]*\n\n)?|\AType HELP[^\n]*\n\n")


def norm_nan(s):
    return re.sub(r"[ ]+", " ", s.replace("-nan", "nan"))


def same_text(want, got, nan):
    if model.HELP_MARK in want:
        pat = ".+?".join(re.escape(p) for p in want.split(model.HELP_MARK))
        return re.fullmatch(pat, got, re.S) is not None
    if want == got:
        return True
    return nan and norm_nan(want) == norm_nan(got)


def diff_text(want, got):
    i = 0
    n = min(len(want), len(got))
    while i < n and want[i] == got[i]:
        i += 1
    a = max(0, i - 60)
    return "at offset %d: expected %r, observed %r" % (i, want[a:i + 80], got[a:i + 80])


def split_err(err):
    return err.split("\n")


def check_err(want, err):
    """None if the error stream err reports exactly the failures in want, else why not"""
    lines = err.split("\n")
    nrun = sum(1 for l in lines if l.startswith("Runtime error:"))
    wrun = sum(1 for k, _ in want if k == "run")
    if nrun != wrun:
        return "expected %d runtime error(s), observed %d: %r" % (wrun, nrun, err[:400])
    if not want:
        return None if err == "" else "unexpected text on the error stream: %r" % err[:400]
    i = 0
    for k, t in want:
        j = i
        if k == "maybe":
            continue
        if k == "run":
            while j < len(lines) and not lines[j].startswith("Runtime error:"):
                j += 1
            if j >= len(lines):
                return "runtime error not reported: %r" % t
            msg = lines[j][len("Runtime error:"):].strip()
            if not msg:
                return "empty runtime error message"
            j += 1
            if t is not None:
                tl = t.split("\n")
                # a message that quotes a string value may take several lines
                e = j
                while e < len(lines) and not lines[e].startswith("Runtime error:"):
                    e += 1
                f = j
                while f < e and lines[f:f + len(tl)] != tl:
                    f += 1
                if f < e:
                    j = f
                if lines[j:j + len(tl)] != tl:
                    return "runtime error must name line %r, observed %r" % (t, lines[j:j + 1])
                j += len(tl)
        elif k == "syntax":
            while j < len(lines) and not (lines[j] == t or lines[j].endswith(": " + t)):
                if lines[j].startswith("Runtime error:"):
                    return "syntax error in %r not reported before %r" % (t, lines[j])
                j += 1
            if j >= len(lines):
                return "syntax error not reported with the line %r: %r" % (t, err[:400])
            if j == i and lines[j] == t and not (j + 1 < len(lines) and lines[j + 1].strip()):
                return "no message with offending line %r" % t
            j += 1
        else:
            if not any(l.strip() for l in lines[i:]):
                return "failure of %s %r not reported" % (k, t)
            # one message line
            while j < len(lines) and not lines[j].strip():
                j += 1
            j += 1
        i = j
    return None


def judge(case, e, res):
    """None, or what differs between expectation and observation"""
    bad = abnormal(res)
    if bad:
        return bad
    if res.rc == "timeout":
        return "INCONCLUSIVE timeout"
    if res.rc != e.rc:
        return "exit status %r, expected %r; error stream %r" % (res.rc, e.rc, res.err[:300])
    out = res.out
    if "-q" not in case.get("opts", []):
        out = BANNER.sub("", out)
    if not same_text(e.out, out, e.nan):
        return "output " + diff_text(e.out, out)
    bad = check_err(e.err, res.err)
    if bad:
        return bad
    if e.files is not None and e.files != res.files:
        for n in sorted(set(e.files) | set(res.files)):
            if e.files.get(n) != res.files.get(n):
                return "file %s: %s" % (n, diff_text(e.files.get(n, "<absent>"), res.files.get(n, "<absent>")))
    return None


# ---------------------------------------------------------------- driver

class Outcome:
    """kind: ok bad skip inconclusive"""
    __slots__ = ("kind", "detail", "case", "key", "stats", "i", "runs", "nontrivial")

    def __init__(self, kind, case=None, detail="", stats=None, runs=1, nontrivial=True):
        self.kind, self.case, self.detail = kind, case, detail
        self.stats = stats or {}
        self.runs = runs
        self.nontrivial = nontrivial
        self.key = case.key() if case is not None else None
        self.i = None


class Check:
    """Default check: generate, predict with the model, run, compare."""
    prop = None
    title = ""
    quick = 400
    thorough = 20000
    variants = ("plain",)
    level = "exploration"
    rule = ""
    far = 0            # every so many cases run far behind the start of the code
    context = 0        # every so many cases run inside loops and subroutines
    events = None      # model statistics that make a case non-trivial; None: any
    assumptions = ["the reference model /verif/lib/model.py states the documented behaviour",
                   "the sandbox's C library, libm and IEEE doubles"]

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.exe = {}

    def count(self):
        return self.quick if self.tier == "quick" else self.thorough

    def rng(self, i):
        return literals.Random("%s:%s:%s" % (self.prop, self.seed, i))

    def prepare(self, workdir):
        for v in self.variants:
            self.exe[v] = build.build(v, workdir)

    def gen(self, rng, i):
        raise NotImplementedError

    def nontrivial(self, e):
        return self.events is None or any(e.stats.get(k) for k in self.events)

    def one(self, i):
        r = self.rng(i)
        case = self.gen(r, i)
        if self.far and i % self.far == 1 and case is not None and case["mode"] == "batch" and case["opts"] == ["-q"]:
            case["far"] = far_size(r)
        if self.context and i % self.context == 2 and case is not None and case["mode"] in ("batch", "session"):
            case = in_context(case, r)
        return self.judge_case(case)

    def judge_case(self, case):
        if case is None:
            return Outcome("skip")
        try:
            e = expect(case)
        except (model.Limit, model.Unsure) as x:
            return Outcome("skip", case, detail="%s: %s" % (type(x).__name__, x))
        res = run_case(self.exe["plain"], case)
        bad = judge(case, e, res)
        if bad is None:
            return Outcome("ok", case, stats=e.stats, nontrivial=self.nontrivial(e))
        if bad.startswith("INCONCLUSIVE"):
            return Outcome("inconclusive", case, detail=bad)
        return Outcome("bad", case, detail=bad, stats=e.stats)

    def replay(self, case):
        return self.judge_case(case)

    def shrink(self, case):
        """Fewer lines with a violation still observed"""
        return shrink(self, case)

    def finish(self, cov):
        """Last words: may add to the coverage, may return a list of Outcome (bad)"""
        return []


def shrink(check, case, limit=150):
    field = "prog" if case["mode"] == "batch" else "stdin"
    text = case.get(field, "")
    lines = text.split("\n")
    n = 0
    step = max(1, len(lines) // 2)
    best = case
    while step >= 1 and n < limit:
        i = 0
        again = False
        while i < len(lines) and n < limit:
            cand = lines[:i] + lines[i + step:]
            c = Case(best)
            c[field] = "\n".join(cand)
            n += 1
            try:
                o = check.replay(c)
            except Exception:
                o = None
            if o is not None and o.kind == "bad":
                lines, best, again = cand, c, True
            else:
                i += step
        if step == 1 and not again:
            break
        step = step // 2 if step > 1 else (1 if again else 0)
    return best


_check = None


def _one(i):
    try:
        o = _check.one(i)
        o.i = i
        return o
    except Exception:
        o = Outcome("error", detail=traceback.format_exc())
        o.i = i
        return o


def load_known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    return r


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def main(check, argv):
    global _check
    _check = check
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="lbcheck-%s-" % check.prop)
    try:
        try:
            check.prepare(workdir)
        except build.BuildError as x:
            print("error: the interpreter does not build: %s" % str(x)[:2000])
            return 2
        literals.load()
        if "--replay" in argv:
            case = Case(json.load(open(argv[argv.index("--replay") + 1]))["case"])
            o = check.replay(case)
            print(o.kind, o.detail)
            return 1 if o.kind == "bad" else 0
        return drive(check, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def drive(check, t0):
    n = check.count()
    tot = {"ok": 0, "bad": 0, "skip": 0, "inconclusive": 0, "error": 0}
    stats = {}
    keys = set()
    samples = []
    bads = []
    runs = 0
    errors = []
    why = {}
    ctx = get_context("fork")
    with ctx.Pool(JOBS) as pool:
        for o in pool.imap_unordered(_one, range(n), chunksize=max(1, min(8, n // (JOBS * 4) or 1))):
            tot[o.kind] += 1
            if o.kind == "error":
                errors.append(o.detail)
                continue
            if o.kind == "skip":
                d = o.detail.split("\n")[0][:60]
                why[d] = why.get(d, 0) + 1
                continue
            runs += o.runs
            merge(stats, o.stats)
            if o.kind == "ok" and o.nontrivial:
                keys.add(o.key)
                if len(samples) < 3 and (o.case is None or len(json.dumps(o.case)) < 1500):
                    samples.append(o.case if o.case is not None else o.detail)
            if o.kind == "bad":
                bads.append(o)
                if len(bads) >= 3:
                    pool.terminate()
                    break
    cov = {"evaluations": tot["ok"] + tot["bad"], "distinct_nontrivial": len(keys), "rule": check.rule,
           "samples": samples, "executions_of_the_interpreter": runs,
           "discarded_by_model": tot["skip"], "inconclusive": tot["inconclusive"],
           "observed_events": dict(sorted(stats.items()))}
    if why:
        cov["discard_reasons"] = why
    if errors:
        cov["harness_failures"] = len(errors)
    if literals.NUMS or literals.TEXTS:
        cov["dictionary"] = {"numbers": literals.NUMS, "texts": literals.TEXTS}
    if not bads:
        bads += check.finish(cov)
    rc = 0
    known = load_known()
    new = []
    for o in bads:
        hit = [k for k in known if k[0] == check.prop and o.detail and re.search(k[1], o.detail)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, hit[0][2]))
        else:
            new.append(o)
    for o in new[:1]:
        rc = 1
        case = o.case
        detail = o.detail
        if case is not None:
            try:
                small = check.shrink(case)
                o2 = check.replay(small)
                if o2.kind == "bad":
                    case, detail = small, o2.detail
            except Exception:
                pass
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.prop, case.key() if case is not None else "x"))
        with open(path, "w") as f:
            json.dump({"property": check.prop, "seed": check.seed, "index": o.i, "detail": detail, "case": case}, f,
                      indent=1)
        print(detail[:1500])
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
    ev = {"property": check.prop, "tier": check.tier, "seed": check.seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and len(errors) > n // 50:
        print("error: %d harness failures, e.g. %s" % (len(errors), errors[0]))
        return 2
    if rc == 0 and (tot["ok"] == 0 or len(keys) == 0 or tot["ok"] < n // 4):
        print("error: nothing observed: %s %s" % (tot, why))
        return 2
    print("%s: %s held on %d cases (%d distinct non-trivial), %d executions, %d discarded, %.1f s" % (
        check.prop, "violated;" if rc else "", cov["evaluations"], len(keys), runs, tot["skip"], time.time() - t0))
    return rc
