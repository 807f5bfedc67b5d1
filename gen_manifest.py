#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vt/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vt import checks, meta

na = dict(meta.NOT_APPLICABLE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(meta.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if p["observe"]:
            an["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(), "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": an}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "Static analysis only. check.py <property> [quick|thorough]; see DESIGN.md. No hooks in /repo are needed; its commits are repairs."}
for p in sorted(meta.P, key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    assert p["id"] in checks.PROPS, p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
missing = set(checks.PROPS) - {p["id"] for p in meta.P}
assert not missing, missing
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
