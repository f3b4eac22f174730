#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump({
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe the exported API, the io.Readers, io.Writers and network connections they supply, and the race detector", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
