#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts the model/oracle in /verif/harness (independent of the library's code), num-bigint/num-rational, rustc and the OS."
CHECKS = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks = []
for c in CHECKS:
    checks.append({
        "property": c["id"],
        "quick_cmd": "./check.sh %s" % c["id"],
        "thorough_cmd": "./check.sh %s" % c["id"],
        "evidence_file": "evidence/%s.json" % c["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"] + " " + TRUST,
    })
claimed = {c["property"] for c in checks}
nal = [{"property": p, "reason": na.get(p, "check not built yet")} for p in props if p not in claimed]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": nal},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
