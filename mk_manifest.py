#!/usr/bin/env python3
"""Writes MANIFEST.json from catalog.py and properties.jsonl."""
import json, os
from catalog import CHECKS, NOT_APPLICABLE
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
assert set(CHECKS) | set(NOT_APPLICABLE) == set(ids) and not set(CHECKS) & set(NOT_APPLICABLE), (set(CHECKS) | set(NOT_APPLICABLE)) ^ set(ids)
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR, regenerated per run) with an SMT solver (z3)",
        "level": "model_checking",
        "level_note": "Bounded: " + CHECKS[i]["note"] + " Every counterexample is replayed on the native build; sampled path models are compared with native runs. Trusts rustc/LLVM's IR (opt-level 1, overflow checks on), the executor /verif/symex and z3.",
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE],
    "notes": "No hooks in /repo: harness crates use the public API and compile /repo's crates by path.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
