#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks = []
for i in ids:
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="python3 check.py --build-all", checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CLAIMS],
         notes="Every check rebuilds from /repo's working tree (cache keyed by a hash of the sources) and needs no hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
