#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the table below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import checks

MODEL = "TLA+ model checked exhaustively with TLC at small sizes; "
NOTES = {
}
DEFAULT = ("the design model is exhaustive within its stated bounds; the code "
           "is bound to it by validating recorded behaviour, so assurance for "
           "the code is over the behaviours driven (generated per seed). "
           "Trusts TLC, the drivers in harness/ and the stand-ins for "
           "external programs listed in DESIGN.md")

props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [], "not_applicable": [],
       "notes": "Specifications in spec/ (TLA+, TLC). check.py PROPERTY runs "
                "one check; see DESIGN.md. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in checks.REGISTRY:
        out["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification, TLC; " + (
                "inductive invariant at real sizes, Apalache; "
                if i in ("C01", "C02", "C03", "C08", "C15", "C27", "C33")
                else "") + "trace validation of the code against it (TLC)",
            "level": "model_checking",
            "level_note": NOTES.get(i, DEFAULT)})
    else:
        out["not_applicable"].append(
            {"property": i, "reason": "no check built yet"})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
