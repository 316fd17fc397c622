#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/properties.py; a property is claimed when props/<id>.cpp exists.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from properties import P
NA = {}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "props", p["id"] + ".cpp")):
        checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"], "thorough_cmd": "bash run.sh %s --thorough" % p["id"],
          "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    import re
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
print(len(P), "properties,", len(checks), "checks")
