#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property for the interpreter in /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))

import run_props  # noqa: E402
from harness import main  # noqa: E402

if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv[:-1]:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(main(run_props.find(sys.argv[1])(tier, seed), sys.argv[2:]))
