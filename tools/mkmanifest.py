#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import spec
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="One driver (run.py) for all checks; see DESIGN.md. No hooks in /repo: interposition is at link time.")
for p in props:
    c = spec.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason=getattr(spec, "NA", {}).get(p["id"], "check not built yet")))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
