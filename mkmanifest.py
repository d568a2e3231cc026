#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "lib/checks.py")).read()
have = sorted(set(re.findall(r"^def (C\d\d)\(", src, re.M)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CBMC = "CBMC code contracts (goto-instrument --dfcc) on the real functions"
SLV = "separation-logic contracts, loop invariants and lemmas on the real code, discharged function by function with z3 (slv, in lib/)"
tech = {"C13": CBMC, "C19": CBMC, "C20": CBMC + "; hash_string and hash_blob by slv/z3", "C25": CBMC + "; fscalloc by slv/z3", "C15": CBMC + " and " + SLV}
notes = {}
exec(open(os.path.join(here, "levels.py")).read())
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; print(z3.get_version_string())' && cbmc --version && clang --version",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i, "thorough_cmd": "python3-vt check.py %s thorough" % i,
                            "technique": tech.get(i, SLV), "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, DEFAULT)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet: the functions are within reach of the method but their contracts are not written")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
