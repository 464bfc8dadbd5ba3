#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from config import PROPS
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough bin/check.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "TLA+ specification, TLC trace validation of recorded calls of the real code"),
                           level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason="not claimed: no check is registered for it yet"))
m = dict(version=1, setup_cmd="bin/setup.sh",
         hooks=dict(guard="none", enable="no hooks: the public API exposes everything the specification observes", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ checked with TLC; see DESIGN.md. Repairs of genuine defects and findings: known-findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed")
