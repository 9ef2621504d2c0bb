#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the registry (run by hand after adding a property)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs.registry import PROPS
NA = {"C26": "correctness of recursively cutting a grid outline into one cell per leaf is a planar-topology argument (Jordan curve theorem for grid polygons); no contract within reach of SMT-backed deductive verification expresses it, and its guarantee rests on C15 (point in polygon) plus that argument"}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        note = "every obligation generated from the current sources for %s is discharged by z3/cvc5 for all inputs and iterations" % ", ".join(P.functions)
        if P.always_bounded:
            note += "; bounded stand-in, not counted as proved: " + P.always_bounded
        note += ". Assumes: " + "; ".join(P.assumptions) + ". Trusts the clang front end and mem2reg extraction, the VC generator in /verif/vcg and the C library contracts."
        checks.append(dict(property=i, quick_cmd="./check.py " + i, thorough_cmd="VERIF_TIER=thorough ./check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification (VCs from the LLVM IR of the current sources, z3/cvc5); executable contract on the real code to exhibit failing inputs",
                           level="proof" if P.tasks else "other", level_note=note))
na = [dict(property=i, reason=NA.get(i, "not claimed yet: contracts for it are still being built")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])
