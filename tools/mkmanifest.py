#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=NOTES[i][0], level=CHECKS[i]["level"], level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built yet")))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="POLY_OPS_VERIF_RAND_BOOL",
                    enable="harness/flips.hpp defines POLY_OPS_VERIF_RAND_BOOL() before including the library, which makes the rounding choices an explicit choice point of the explorer",
                    source_commits=["8f451abd"]),
         checks=checks, not_applicable=na,
         notes="run.py builds the harness of one property from /repo/include (and /repo/py for C21), enumerates its bounded space on 8 processes, and writes evidence/<id>.json. known-findings.txt lists repaired and recorded defects.")
m["hooks"]["source_commits"] = [os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()[0]]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in props:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
