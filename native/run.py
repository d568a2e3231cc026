#!/usr/bin/env python3
"""run.py ID...: run the replay harnesses alone (VERIF_REPO selects the tree)"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
for pid in sys.argv[1:]:
    t = time.time()
    found, log = common.native_search(pid, os.environ.get("TIER", "quick"), common.scratch())
    print(pid, "found" if found else "clean" if found is False else "NO ANSWER", "%.0fs" % (time.time() - t))
    if found is not False:
        print("   " + log[-1500:].replace("\n", "\n   "))
