#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs"))
sys.setrecursionlimit(20000)
import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = common.TIER = sys.argv[2]
    chk = common.Check(pid)
    mod = importlib.import_module("checks")
    try:
        level = getattr(mod, pid)(chk) or "proof"
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        chk.add(common.Ob("tool error", "-", "limit", "driver", 0, traceback.format_exc()))
        level = "proof"
    common.finish(chk, level)


if __name__ == "__main__":
    main()
