"""Literals of the sources as a dictionary for the workloads.

A constant that appears in /repo's sources but not in the sources the workloads were made for (literals.json) is a hint where
behaviour may change: numbers next to it are generated more often. The dictionary only steers generation; what is
observed is judged as always. On the tree the workloads were made for it is empty and changes nothing.
"""
import json
import os
import random
import re

import build

BASE = os.path.join(build.HERE, "lib", "literals.json")


def code():
    text = []
    for s in build.sources() + [h for d in build.DIRS for h in sorted(build.glob.glob("%s/%s/*.h" % (build.REPO, d)))]:
        with open(s, encoding="latin-1") as f:
            t = f.read()
        t = re.sub(r"#ifdef UNIT_TEST.*", "", t, flags=re.S)
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
        text.append(re.sub(r"(?m)^\s*#\s*include.*$", "", t))
    return "\n".join(text)


def scan():
    """(numbers, texts) of the current sources"""
    t = code()
    texts = set()

    def keep(m):
        s = m.group(0)[1:-1]
        try:
            s = s.encode("latin-1").decode("unicode_escape")
        except (UnicodeDecodeError, UnicodeEncodeError):
            s = ""
        if s and "%" not in s and len(s) < 20 and all(" " <= c < "\x7f" for c in s) and '"' not in s:
            texts.add(s)
        return " "
    t = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', keep, t)
    nums = set()
    for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)[uUlLfF]*(?![\w.])", t):
        s = m.group(1)
        try:
            nums.add(float(int(s, 16)) if s[:2] in ("0x", "0X") else float(s))
        except (ValueError, OverflowError):
            pass
    for m in re.finditer(r"\b1[uUlL]*\s*<<\s*(\d+)", t):
        if int(m.group(1)) < 64:
            nums.add(float(1 << int(m.group(1))))
    # products and powers written out: 64 * 1024
    for m in re.finditer(r"(?<![\w.])(\d+)\s*\*\s*(\d+)(?![\w.])", t):
        nums.add(float(int(m.group(1)) * int(m.group(2))))
    return nums, texts


def novel():
    try:
        with open(BASE) as f:
            j = json.load(f)
        n, t = scan()
    except (OSError, ValueError):
        return [], []
    n = sorted(x for x in n - set(j["numbers"]) if x == x and abs(x) < 1e308)
    return n[:12], sorted(t - set(j["texts"]))[:12]


NUMS, TEXTS = [], []
INTS = []
FLOATS = []


def load():
    """to be called once, before cases are generated"""
    NUMS[:], TEXTS[:] = json.loads(os.environ["LB_DICT"]) if "LB_DICT" in os.environ else novel()
    del INTS[:], FLOATS[:]
    for x in NUMS:
        if x == int(x) and 3 <= x < 1 << 40:
            INTS.extend([int(x), int(x) + 1, int(x) - 1, int(x)])
        else:
            FLOATS.append(x)


class Random(random.Random):
    """whole numbers near a novel literal come up more often"""

    def randint(self, a, b):
        if INTS:
            c = [x for x in INTS if a <= x <= b]
            if c and self.random() < 0.15:
                return self.choice(c)
        return super().randint(a, b)

    def size(self, seq):
        """one of the numbers in seq, or one near a novel literal between the smallest and the largest"""
        if INTS:
            lo, hi = min(seq), max(seq)
            c = [x for x in INTS if lo <= x <= hi]
            if c and self.random() < 0.2:
                return self.choice(c)
        return self.choice(seq)

    def literal(self):
        """text of a number near a novel literal, or None"""
        if not NUMS or self.random() > 0.1:
            return None
        x = self.choice(NUMS)
        k = self.random()
        if x == int(x) and abs(x) < 1e15:
            y = int(x) + self.choice([0, 0, 1, -1])
            return str(abs(y)) if k < 0.9 else "%d.5" % abs(y)
        return repr(x * self.choice([1, 1, 2, 0.5, 1.0001, 0.9999])).replace("e+", "E").replace("e", "E")

    def word(self):
        """a novel text, or None"""
        if not TEXTS or self.random() > 0.1:
            return None
        return self.choice(TEXTS)


if __name__ == "__main__":
    n, t = scan()
    with open(BASE, "w") as f:
        json.dump({"numbers": sorted(n), "texts": sorted(t)}, f, indent=0)
    print(len(n), len(t))
