#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
m = {"version": 1,
     "setup_cmd": "sh tools/setup.sh",
     "checks": [], "not_applicable": NOT_APPLICABLE,
     "notes": "All harnesses drive the uninstrumented sources of /repo/src; no hooks are needed. Known findings: known_findings.json."}
for p in sorted(PROPS):
    P = PROPS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
        "thorough_cmd": "python3 run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
claimed = set(PROPS); all_ = {json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))}
na = {x["property"] for x in NOT_APPLICABLE}
print("claimed", len(claimed), "missing", sorted(all_ - claimed - na), "unknown", sorted((claimed | na) - all_))
