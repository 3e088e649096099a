#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {  # id: (technique, level_note)
    "C01": ("property-based testing against an O(N^2) brute-force reference", "catalogs of 1..150 objects; tree recursion forced by shallow top levels"),
    "C02": ("property-based testing against an O(N^2) brute-force reference with independent sphere frames", "catalogs of 1..100 objects"),
    "C03": ("property-based testing against brute-force metric formulae", "catalogs of 1..120 objects; tree mode of projected metrics restricted to small angles"),
}
exec(open(os.path.join(V, "tools/claims.py")).read()) if os.path.exists(os.path.join(V, "tools/claims.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B pbt/build.py opt asan", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
