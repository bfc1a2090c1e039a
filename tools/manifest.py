#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the families"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        fam = families.family_of(p)
    except SystemExit:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh " + p,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": fam.technique(p),
        "level": "model_checking",
        "level_note": fam.note(p),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "--cfg rtps_verif",
        "enable": "RUSTFLAGS='--cfg rtps_verif' plus, for private types, --cfg rtps_verif=\"history\" | \"stateless\" | "
                  "\"stateful\" | \"locators\" | \"parameter\" (tools/vlib.py: build)",
        "source_commits": ["6cb19f4", "e8004bc"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ checked with TLC. Every check model-checks the specification, runs schedules against the real code "
             "and has TLC validate the recorded traces against the same specification. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
