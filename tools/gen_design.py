#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md (template: tools/design.md.in)."""
import json, os, glob, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "..")
sys.path.insert(0, H)
from props import PROPS
title = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
try: cost = json.load(open(H + "/cost.json"))
except Exception: cost = {}
rows = []
for i in sorted(PROPS):
    p = PROPS[i]; c = cost.get(i, {})
    rows.append("| %s %s | %s. Bounds (quick): %s | %s | %s s / %s s |" % (i, title[i], p["technique"], p["bounds"]["quick"], p["oracle"], c.get("quick", "?"), c.get("thorough", "?")))
known = json.load(open(V + "/known_findings.json"))["findings"]
by = {}
for k in known:
    if k["status"] == "fixed": by.setdefault((k["commit"], k["what"]), []).append(k["property"])
fixed = "\n".join("* `%s` (%s): %s" % (c, ", ".join(p), w) for (c, w), p in by.items())
try: caught = json.load(open(H + "/caught.json"))
except Exception: caught = {}
seeds = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "?")))
s = open(H + "/design.md.in").read()
s = s.replace("@TABLE@", "\n".join(rows)).replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(s)
