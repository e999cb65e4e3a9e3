#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and check.CHECKS."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(ROOT, "check.py")).read()
claimed = re.findall(r'^    "(C\d\d)":', src, re.M)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

from claims import CLAIMS, NOT_APPLICABLE  # noqa

checks = []
for p in props:
    if p["id"] in claimed:
        technique, note = CLAIMS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick",
            "thorough_cmd":
                f"/opt/venv/bin/python check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": technique,
            "level": "model_checking",
            "level_note": note,
        })
na = [{"property": p["id"],
       "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")}
      for p in props if p["id"] not in claimed]
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python setup_check.py",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC and bound to "
              "the code by replaying specification behaviours and by "
              "evaluating recorded histories on the specification. "
              "No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
