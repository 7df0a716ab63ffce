#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records in spec.py (run after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from spec import PROPS, LEVEL_NOTE, NOTES, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        r = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["tests"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                "observe_at": p["observe"],
                "hook_needed": p.get("hook"),
            },
        }
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p.get("level_note", LEVEL_NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "cargo feature verif-hooks",
        "enable": "the harness crate depends on /repo's packages `invariant` and `contracts` with the feature verif-hooks (harness/Cargo.toml)",
        "source_commits": ["fd1c5ac"],
    },
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
