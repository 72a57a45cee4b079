#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in props.PLAN:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": "TLA+ specification checked with TLC; conformance by trace validation of the real code (%s)" % props.NOTE[i],
                       "level": "model_checking",
                       "level_note": "Behaviours are generated at random from seeds and, where stated in DESIGN.md, enumerated by TLC; every recorded event is judged by the specification.",
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": props.MISSING.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py lpx_host lpx_solve lpx_conc app py && python3 tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed at public interfaces. See DESIGN.md."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
