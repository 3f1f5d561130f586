"""Build the interpreter from the current sources in /repo, out of tree."""
import glob
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LB_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ("Shared", "Basic", "Monitor", "System")
BASE = ["-std=gnu11", "-g", "-w", "-DLBASIC_MONITOR"] + ["-I%s/%s" % (REPO, d) for d in DIRS]
# (fortified functions such as __vfprintf_chk, which some gcc use by default, are not watched by the sanitizers)
SAN = ["-fno-omit-frame-pointer", "-fno-sanitize-recover=all", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
VARIANTS = {
    # compiler, flags, own sources, link flags
    "plain": ("gcc", ["-O1"], ["monitor.c"], []),
    "asan": ("gcc", ["-O1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow"] + SAN,
             ["monitor.c", "safe.c"], ["-Wl,--wrap=fopen,--wrap=system"]),
    # what stays inside a block, such as an overflow from one member of a structure into the next, asan does not see
    "fort": ("gcc", ["-O2", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-fstack-protector-all",
                     "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3"], ["monitor.c", "safe.c"], ["-Wl,--wrap=fopen,--wrap=system"]),
    "msan": ("clang", ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"] + SAN,
             ["monitor.c", "safe.c"], ["-Wl,--wrap=fopen,--wrap=system"]),
    "fail": ("gcc", ["-O1", "-fsanitize=address,undefined"] + SAN, ["monitor.c", "failalloc.c", "safe.c"],
             ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup,--wrap=fopen,--wrap=system"]),
    "count": ("gcc", ["-O1"], ["monitor.c", "ledger.c"],
              ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=strndup,--wrap=fopen,"
               "--wrap=fclose,--wrap=system"]),
    "rand": ("gcc", ["-O1"], ["monitor.c", "hostile_rand.c"], ["-Wl,--wrap=rand"]),
    "cov": ("gcc", ["-O0", "--coverage"], ["monitor.c"], ["--coverage"]),
}


class BuildError(Exception):
    pass


def sources():
    r = []
    for d in DIRS:
        r += sorted(glob.glob("%s/%s/*.c" % (REPO, d)))
    return [s for s in r if os.path.basename(s) != "CuTest.c"]


def build(variant, outdir):
    """Compile variant into outdir; path of the executable."""
    cc, flags, own, link = VARIANTS[variant]
    d = os.path.join(outdir, variant)
    os.makedirs(d)
    srcs = sources() + [os.path.join(HERE, "src", s) for s in own]

    def one(src):
        if cc == "clang":
            return clang(src)
        obj = os.path.join(d, src.strip("/").replace("/", "_")[:-2] + ".o")
        r = subprocess.run([cc] + BASE + flags + ["-c", src, "-o", obj], capture_output=True, text=True, cwd=d)
        return obj, r

    def clang(src):
        # gcc takes declarations like "T f(x);" at file scope, clang only "T f();"
        base = os.path.join(d, src.strip("/").replace("/", "_")[:-2])
        r = subprocess.run([cc] + BASE + flags + ["-E", src, "-o", base + ".x"], capture_output=True, text=True, cwd=d)
        if r.returncode == 0:
            with open(base + ".x") as f:
                text = f.read()
            with open(base + ".i", "w") as f:
                f.write(re.sub(r"(?m)^([A-Za-z_]\w*[ *]+\w+)\([a-z_]\w*\);", lambda m: m.group(0) if re.search(r"\((void|int|char|double|unsigned|float|size_t)\)", m.group(0)) else m.group(1) + "();", text))
            r = subprocess.run([cc] + BASE + flags + ["-c", base + ".i", "-o", base + ".o"], capture_output=True, text=True, cwd=d)
        return base + ".o", r

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    for _, r in res:
        if r.returncode:
            raise BuildError(r.stderr)
    exe = os.path.join(d, "lbasic")
    r = subprocess.run([cc] + flags + [o for o, _ in res] + link + ["-lm", "-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
