#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that check.py knows."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import check
NOTE = ("Recorded runs of the real library (built from /repo with AddressSanitizer) are validated step by step by TLC against the "
        "TLA+ specification; bounded by the inputs generated or enumerated; trusts the driver's reporting and TLC.")
NOTES = {}
TECH = "TLA+ specification checked with TLC; conformance by trace validation of the real code"
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in check.MODULES:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                           thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=TECH, level="model_checking",
                           level_note=NOTES.get(p, NOTE)))
    else:
        na.append(dict(property=p, reason="specification and conformance check still being built"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the driver uses the public API. Specifications are in spec/, the driver in harness/, generators in lib/.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
