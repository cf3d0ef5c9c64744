#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from props.py (one source)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if "observe" in p else {}), "hook_needed": None}}) + "\n")
checks, man, na = {}, [], []
for p in PROPS:
    pkg = p["id"].lower()
    if not os.path.isdir(os.path.join(V, "harness", pkg)):
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
        continue
    checks[p["id"]] = {"pkg": pkg, "procs": p.get("procs", 8), **p.get("run", {}), "assumptions": p.get("assume", [])}
    man.append({"property": p["id"],
                "quick_cmd": "python3 run.py %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": man, "not_applicable": na,
           "notes": "Every check is property-based testing in Go (pgregory.net/rapid), built against /repo by run.py from the nested module in harness/; no hooks in /repo are needed. Failures are shrunk by rapid and saved under replays/."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties,", len(man), "claimed")
