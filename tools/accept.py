#!/usr/bin/env python3
"""Records the fingerprints of the extracted functions each contract file was
accepted with, in contracts/accepted.json (run by hand on the unchanged tree
after changing contracts or extraction; layera.py only reads it)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import layera as L

acc = {}
for f in sorted(os.listdir(L.CON)):
    if not (f.startswith("C") and f.endswith(".rs")):
        continue
    items, arith, *_ = L.options(f)
    parts = [i for i in items if isinstance(i, L.Part) and i.kind != "pieces"]
    acc[f] = L.fingerprint(items, {id(p): x for p, x in zip(parts, L.extract(parts, arith))})
json.dump(acc, open(os.path.join(L.CON, "accepted.json"), "w"), indent=1, sort_keys=True)
print(len(acc), "contract files")
