#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py's table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/run.py setup", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 tools/run.py check {i} quick",
            thorough_cmd=f"python3 tools/run.py check {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m["notes"] = "No hooks in /repo: the code under test is instrumented by the compiler (-fsanitize=thread callbacks provided by mc/rt.cc)."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
