#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the check registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from tv import checks, checks2, checks3, checks4, checks5, checks6, checks7, checks8, checks9, checks10, checks11, checks12
NA = {
 "C27": "Convergence, monotone cost and separation gain quantify over real-valued data and statistical independence of the sources; no static argument in reach bounds them.",
}
LEVEL = ("Sound-leaning static analysis, no execution of /repo: abstract interpretation of the current source over all paths of the enumerated option/size contexts "
         "(sizes symbolic where the context says so). Only definite violations are reported; undecided obligations are counted in the evidence. "
         "Trusted: the PyTorch operation models in tv/ and the context enumeration.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.REG:
        f, what, rule = checks.REG[i]
        cs.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": "static analysis: " + rule, "level": "other", "level_note": what + " " + LEVEL})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10)'", "checks": cs, "not_applicable": na,
           "notes": "No hooks in /repo. Checks read the source under /repo only (TV_REPO overrides the path for experiments)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
