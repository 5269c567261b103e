#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--only REGEX] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import engine

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
        a.remove(only)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(engine.check_property(prop, tier, only, "-v" in sys.argv))

try:
    main()
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)
