#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
try:
    from checks import CHECKS, NA
except ImportError:
    CHECKS, NA = {}, {}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"),
            "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use only public API of /repo through a path dependency", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. known-findings.jsonl lists recorded findings and fixes."}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
