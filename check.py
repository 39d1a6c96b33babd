#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]"""
import os, sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from kv import core  # noqa: E402

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = core.run_property(sys.argv[1], tier)
    sys.stdout.flush()
    sys.exit(rc)
