#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module props/cXX.py is claimed, the others are listed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing against a reference model (grid masks) and transposition relations",
    "C02": "property-based testing against a reference enumeration of the domain, plus invariants",
    "C03": "property-based testing against a reference enumeration, plus the transposition metamorphic relation",
    "C04": "property-based testing against a reference enumeration, plus the transposition metamorphic relation",
    "C05": "property-based testing against an independent point-in-polygon oracle",
    "C06": "property-based testing against an independent recomputation of the statistics",
    "C07": "property-based testing: conservation and ordering invariants plus a reference sequence",
    "C08": "property-based testing against a reference 48-hour simulation, metamorphic scaling and locality relations",
    "C09": "property-based testing: differential against an independent superposition, metamorphic linearity and causality",
    "C10": "property-based testing: root and bound predicates, metamorphic history independence",
    "C11": "stateful (sequence) property-based testing against freshly built multipole models",
    "C12": "property-based testing of conservation invariants with independent resistance models",
    "C13": "property-based testing: differential against an independent radial finite-volume solver",
    "C14": "stateful property-based testing against SciPy reference interpolation",
    "C15": "property-based testing: differential against direct pygfunction evaluation",
    "C16": "property-based testing against exhaustive selection over generated excess functions, plus real runs",
    "C17": "property-based testing against exhaustive selection over generated excess functions, plus real runs",
    "C18": "property-based testing: generated designs against independent re-simulation and brute force over the domain",
    "C19": "round-trip property-based testing, differential on exported values",
    "C20": "stateful property-based testing: interleaved operation histories against isolated runs",
    "C21": "property-based testing against exact references and algebraic relations",
    "C22": "property-based testing against a reference construction and a round trip through the statistics",
    "C23": "property-based testing: what generated figures hold is read back and compared with the data and reference simulations",
}
NOTE = ("Search over generated inputs, deterministic per VERIF_SEED: no proof; cases and non-trivial cases are counted in the "
        "evidence. ")
EXTRA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
            src = open(os.path.join(ROOT, "props", i.lower() + ".py")).read()
            ns = {}
            # RULE and ASSUMPTIONS are plain literals in the module
            import ast
            for node in ast.parse(src).body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
            checks.append({
                "property": i,
                "quick_cmd": "VERIF_TIER=quick ./run.sh " + i,
                "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE + "Generated: " + ns["RULE"] + ". Assumes: " + "; ".join(ns["ASSUMPTIONS"]) + ".",
            })
        else:
            na.append({"property": i, "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks use the public API of the working tree, imported from /repo. "
                  "See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
