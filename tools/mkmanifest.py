#!/usr/bin/env python3
"""Writes MANIFEST.json from the contract registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from npv import registry
REASONS = {}
p = os.path.join(H, "tools", "not_applicable.json")
if os.path.exists(p):
    REASONS = json.load(open(p))
cs = registry.load_all()
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in cs and i not in REASONS:
        pr = [c for c in cs[i] if c.expect == "proved" and c.symbolic]
        bd = [c for c in cs[i] if c not in pr]
        if not pr:
            lv = "exploration"
        else:
            lv = "proof" if not bd else "other"
        note = "%d contract(s) discharged for all inputs: %s." % (len(pr), ", ".join(c.name for c in pr)) if pr else ""
        if bd:
            note += " Bounded stand-in (sampled inputs, never counted as proved): %s." % ", ".join(c.name for c in bd)
        note += " Reals for floats; numpy/scipy through the contracts of npv/npmodel.py."
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "contract-based deductive verification: VC generation from /repo's Python source, discharged by the npv prover and z3; counterexamples replayed on the real code"
                       if pr else "contracts evaluated on the real code over sampled inputs (bounded stand-in for the deductive check)",
                       "level": lv, "level_note": note.strip()})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "not yet under contract")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q npv contracts check.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
