#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(here, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are one static analyzer (analyzer/, Go on x/tools/go/ssa): path-sensitive abstract interpretation of /repo's current source to a fixpoint. Nothing of /repo is executed and no solver is used."}
for p in props:
    i = p["id"]
    if i in claims["checks"]:
        c = claims["checks"][i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": claims["not_applicable"].get(i, "No check is built yet.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
