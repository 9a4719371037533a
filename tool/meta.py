#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in props_meta.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_meta import P, NA

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P + NA:
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks = []
for p in P:
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"], "technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
               "notes": "All checks are static: they parse /repo's current sources with clang, and decide on the extracted program. Nothing of /repo is executed."}, fh, indent=1)
    fh.write("\n")
ids = [p["id"] for p in P + NA]
assert len(ids) == len(set(ids))
assert all(len(p["title"]) <= 80 for p in P + NA), [p["id"] for p in P + NA if len(p["title"]) > 80]
