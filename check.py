#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the code in /repo (see DESIGN.md)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "mbt"), HERE]
import importlib

import harness

if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    prop = sys.argv[1]
    harness.main(prop, importlib.import_module("props." + prop).run)
