#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both: tools/properties.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "vf")]
import properties, props
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in properties.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in properties.PROPS:
    i = p["id"]
    if i in props.WORKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": p.get("technique", properties.TECH), "level": props.LEVEL.get(i, "model_checking"),
                       "level_note": p.get("note", properties.NOTE)})
    else:
        na.append({"property": i, "reason": p.get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/ (TLC); executions of the real code under a deterministic scheduler (harness/) are checked for membership in the specified behaviours. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(properties.PROPS), "properties,", len(checks), "checks")
