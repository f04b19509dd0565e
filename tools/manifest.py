#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification; TLC validates traces recorded from the real code and checks the property on the specification"
NOTE = ("Every call of every recorded session of the real code is a transition TLC accepts only if the TLA+ "
        "specification allows what this property is about. Assurance is bounded by the sessions explored "
        "(listed in the evidence). Trusts TLC, the Java overrides of CRC-32, MD5, HMAC-SHA1 and UTF-8 counting "
        "(compared with TLA+ definitions by DigestCheck), and that the harness reports what the public API returns.")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{"property": p["id"],
           "quick_cmd": "python3 check.py " + p["id"],
           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
           "evidence_file": "evidence/%s.json" % p["id"],
           "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in props]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: the harness uses the public API only. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
