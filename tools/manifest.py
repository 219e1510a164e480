#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import plan  # noqa: E402

REASONS = {
    "C21": "the Python bindings run inside the CPython interpreter through PyO3; the interpreter is C code outside the "
           "compiled IR, so there is no complete program to execute symbolically, and the Rust functions behind the "
           "bindings are already covered by the other properties",
}
TECHNIQUE = ("bounded symbolic execution of the LLVM IR compiled from the current crate: every path of the harness is "
             "explored, each branch decided by Z3 over all inputs within the bounds, counterexamples replayed natively")
checks, missing = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if plan.SCENARIOS.get(p):
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
            "technique": TECHNIQUE,
            "level": "model_checking",
            "level_note": "holds for all inputs within the bounds listed per scenario in the evidence file; nothing is "
                          "claimed beyond them",
            "evidence_file": "evidence/%s.json" % p,
        })
    else:
        missing.append({"property": p, "reason": REASONS.get(p, "no check yet")})
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "known_findings.txt lists the defects found; all but two about the meaning of escapes (C02) were fixed in /repo",
}, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
