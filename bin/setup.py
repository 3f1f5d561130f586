#!/usr/bin/env python3
"""Nothing to install: checks that the compilers are there and that every variant of the interpreter builds."""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build  # noqa: E402

with tempfile.TemporaryDirectory(prefix="lbsetup-") as d:
    for v in build.VARIANTS:
        build.build(v, d)
print("ready")
