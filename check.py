#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | --replay FILE"""
import os, sys, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from dv import props

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--setup", action="store_true")
a = ap.parse_args()
if a.setup:                      # self-test: the tools the checks need are present
    from dv import build
    build.module()
    build.cleanup()
    print("setup ok")
    sys.exit(0)
if a.replay:
    sys.exit(props.replay(a.replay))
sys.exit(props.check(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1"))))
