#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from their sources."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import P  # noqa: E402

try:
    from levels import NOTE  # noqa: E402
except ImportError:
    NOTE = {}
NOT_APPLICABLE = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
    elif os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check.py {i} --tier quick",
                thorough_cmd=f"./check.py {i} --tier thorough",
                technique="TLA+ design model checked with TLC, stimuli from it replayed on the real code, "
                "recorded traces validated against the TLA+ trace specification",
                level="model_checking",
                level_note=NOTE.get(
                    i,
                    "Design exhaustively checked within small constants; the code is judged on the executions "
                    "driven (spec-generated and seeded larger ones), each event decided by TLC.",
                ),
            )
        )
    else:
        na.append(dict(property=i, reason="check not built yet (work in progress)"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
