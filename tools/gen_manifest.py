#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/claims.py").read())   # CLAIMS: id -> (technique, level, note); NOT: id -> reason
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        src = open(V + "/harness/checks/%s.cpp" % i).read()
        m = re.search(r'CheckInfo\s+(?:mc::)?info\s*=\s*\{\s*"(\w+)",\s*"(\w+)"', src)
        assert m and m.group(1) == i and m.group(2) == l, (i, l, m and m.groups())
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
