#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: static check of one property of /repo"""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from tv import interp
from tv.interp import Program
from tv import scen, checks, checks2, checks3, checks4, checks5, checks6, checks7, checks8, checks9, checks10, checks11, checks12
from tv.report import Report


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = "thorough" if "thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    root = os.environ.get("TV_REPO", "/repo")
    prog = Program(root)
    scen.install(prog)
    f, what, rule = checks.REG[pid]
    R = Report(pid, tier)
    if tier == "thorough" and "TV_TIME" not in os.environ:
        interp.TIME_ALL = 3000.0
    try:
        f(prog, R, tier)
    except Exception as e:
        if os.environ.get("TV_DEBUG"):
            raise
        traceback.print_exc()
        R.unk("analysis", "whole check", "%s: %s" % (type(e).__name__, e))
    return R.finish(what, rule)


if __name__ == "__main__":
    sys.exit(main())
