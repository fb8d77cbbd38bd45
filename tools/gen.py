#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the texts in tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
        print("no check yet for", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"], "technique": p["technique"], "level": "other",
                   "thorough_cmd": "python3 checks/%s.py" % p["id"], "level_note": p["note"]})
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA] +
                       [{"property": p["id"], "reason": "check under construction"} for p in PROPS if p["id"] not in done],
     "notes": "Every check reads /repo's current source (C through clang's syntax tree, Myrddin and assembly through parsers in lib/) and runs nothing of it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
