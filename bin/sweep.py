#!/usr/bin/env python3
"""Development aid, not a check: run the checks of the planted bugs against copies of /repo with each one applied.

sweep.py [-a] [-s SEED] [ID...]   writes /tmp/sweep.json {id: {property: [rc, first line]}}
  -a  all properties and not only the bug's own"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def main(a):
    every = "-a" in a
    seed = a[a.index("-s") + 1] if "-s" in a else "1"
    ids = [x for x in a if not x.startswith("-") and x != seed] or sorted(os.listdir(HERE + "/seeded"))
    props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
    out = "/tmp/sweep.json"
    res = json.load(open(out)) if os.path.exists(out) and "-c" in a else {}
    top = tempfile.mkdtemp(prefix="sweep.")
    try:
        verif = top + "/verif"
        os.mkdir(verif)
        for x in ("bin", "lib", "src", "MANIFEST.json", "properties.jsonl", "known_findings.txt"):
            if os.path.exists(HERE + "/" + x):
                sh("cp -a %s/%s %s/" % (HERE, x, verif))
        for i in ids:
            d = HERE + "/seeded/" + i
            prop = json.load(open(d + "/meta.json"))["property"]
            repo = top + "/repo"
            shutil.rmtree(repo, ignore_errors=True)
            sh("cp -a /repo %s" % repo)
            r = sh("git -C %s apply %s/patch.diff" % (repo, d))
            if r.returncode:
                print(i, "does not apply", r.stderr)
                continue
            res[i] = {}
            for p in props if every else [prop]:
                k = sh("timeout 900 python3 bin/check.py %s" % p, cwd=verif, env=dict(os.environ, LB_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick"))
                v = [x for x in k.stdout.split("\n") if x.startswith("VIOLATION property=%s " % p)]
                res[i][p] = [k.returncode, bool(v), k.stdout.strip().split("\n")[-1][:150]]
                if p == prop or v:
                    print("%-16s %s %s %s" % (i, p, "caught" if v and k.returncode == 1 else "*** MISSED *** rc %d" % k.returncode, res[i][p][2][:110]), flush=True)
            json.dump(res, open(out, "w"), indent=1)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main(sys.argv[1:])
