#!/usr/bin/env python3
"""python3 run.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks"), os.path.join(HERE, "tools")]
import importlib
import vlib
from registry import CHECKS

if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--build":
        print("built in %.1fs" % vlib.build())
        sys.exit(0)
    mod = importlib.import_module(CHECKS[prop][0])
    vlib.main(prop, mod.run)
