#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing what is claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Contract-based deductive verification with Verus; see DESIGN.md.  No hooks in /repo: the checks read its source and build its crate as it is."}
for p in props:
    c = CLAIMS.get(p["id"])
    if c is None or "reason" in c:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("reason", "no check yet")})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
