#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from props import PROPS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = PROPS[prop]
    try:
        c = Check(prop, tier)
        c.assumptions = spec.get("assumptions", [])
        build(spec["targets"])
        c.log("built", " ".join(spec["targets"]))
        spec["run"](c, tier == "thorough")
        c.probes()
        return c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
