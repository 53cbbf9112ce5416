#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE | --setup     (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
import core, simlib


def main():
    try:
        if sys.argv[1] == "--replay":
            return core.replay(sys.argv[2])
        if sys.argv[1] == "--setup":
            print(simlib.build_sim()); print(simlib.build_uasm()); return 0
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            tier = "thorough"
        return core.run_check(sys.argv[1], tier, seed)
    except simlib.HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


sys.exit(main())
