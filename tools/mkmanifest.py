#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from jobs import PROPERTIES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                 "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                 "technique": PROPERTIES[i].get("technique", "runtime monitoring: randomized workloads on the real code, online differential monitor against an independent model"),
                 "level": "exploration",
                 "level_note": PROPERTIES[i].get("note", "Holds on every execution observed; the inputs are random (seeded), not exhaustive. Trusts the independent dense model in src/core.hpp.")}
                for i in ids if i in PROPERTIES],
     "not_applicable": [{"property": i, "reason": NA.get(i, "No check is registered for it yet.")} for i in ids if i not in PROPERTIES],
     "notes": "All checks share check.py (driver), build.py (instrumented builds of /repo's working tree) and src/ (harness). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
