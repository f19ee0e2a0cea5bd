#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
from checks import CHECKS, NOTE

checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": "TLA+ model checked with TLC, behaviours replayed against the package" + c.get("how", ""),
           "level": c.get("level", "model_checking"), "level_note": c.get("note", NOTE)} for p, c in sorted(CHECKS.items())]
na = [{"property": p, "reason": "no check yet"} for p in (json.loads(l)["id"] for l in open("properties.jsonl")) if p not in CHECKS]
with open("MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
