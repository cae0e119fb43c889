#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/meta.py and properties.jsonl."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from meta import META
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META and ("generator" in META[i] or glob.glob(os.path.join(H, "checks", i + "_*.cpp"))):
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": META[i].get("technique", "property-based testing: generated cases against an explicit oracle, choice-sequence shrinking (thorough: more seeds plus libFuzzer on the same properties)"),
                       "level": "exploration", "level_note": META[i]["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the library is header-only and its public API is enough. Every check compiles its harness against /repo's current headers (ASan+UBSan) and drives it deterministically from VERIF_SEED."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
