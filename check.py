#!/usr/bin/env python3
"""check.py <property> [--thorough] : decide one property on /repo's current source"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ["PYTHONHASHSEED"] != "0" or not sys.flags.hash_randomization == 0 and "VP_REEXEC" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["VP_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import driver, props


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    p = props.PROPS[pid]
    try:
        return driver.run(pid, p, "other", tier, int(os.environ.get("VERIF_SEED", "1")))
    except Exception:
        import traceback

        traceback.print_exc()
        print("check %s failed to run" % pid)
        return 3


sys.exit(main())
