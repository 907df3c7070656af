#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
checks, lines = [], []
for p in props.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                    "observe_at": list(p["observe"]), "hook_needed": None}}))
    checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
                   "thorough_cmd": "bash run.sh %s thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": getattr(props, "NOT_APPLICABLE", [])}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
