#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules present in sa/props."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "C30": "equality of floating-point likelihoods, gradients and kernel matrices with their closed forms is a numerical statement about runtime values; no structural clause of the linear-algebra code decides it without evaluating it",
    "C31": "the hypervolume and EHVI routines are correct only as numerical integrals over arbitrary fronts; the loop bounds and box decompositions depend on runtime data that no static argument in reach can bound",
    "C32": "convergence is a statistical statement about runs; nothing in the shape of the code decides it",
}
TECH = {}
checks, na = [], []
for i in ids:
    p = os.path.join(H, "sa", "props", i.lower() + ".py")
    if i in NA or not os.path.exists(p):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    src = open(p).read()
    m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    n = re.search(r'^NOTE = "(.*)"$', src, re.M)
    checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
                   "technique": m.group(1) if m else "value-flow summaries over the syntax tree, evaluated in a finite abstract domain", "level": "other",
                   "level_note": n.group(1) if n else "Decides the structural clauses stated in DESIGN.md for every path of the analysed functions within the abstract domain; trusts the models of numpy, torch and scikit-learn calls and the reading of external libraries listed there."})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import ast, sympy, numpy'", "checks": checks, "not_applicable": na,
           "notes": "All checks parse /repo's current working tree on every run and never import or execute it."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
