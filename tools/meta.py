#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py. A property is claimed when its check exists."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
        if os.path.exists(os.path.join(root, "harness", "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s" % p["id"],
                           "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p.get("technique", "TLA+ specification checked by TLC; trace validation of the real code"),
                           "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
na += NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, run by TLC; harness in harness/ drives the code of /repo. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
