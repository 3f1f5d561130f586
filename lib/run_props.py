import importlib
import sys
import os
from harness import *
MODS = ["props_expr", "props_ctrl", "props_io", "props_edit", "props_lang", "props_mem", "props_term"]


def find(prop):
    for m in MODS:
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            continue
        mod = importlib.import_module(m)
        if hasattr(mod, prop):
            return getattr(mod, prop)
    raise SystemExit("no check for " + prop)
