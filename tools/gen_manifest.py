#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed, the others are listed with the reason."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C36": "The traits are evaluated by the compiler: there is no run-time behaviour and no symbolic input, so nothing is left for a solver to decide (quantifying over all types is outside symbolic execution of compiled code).",
 "C37": "Statistical statements over std::random_device and the mt19937 output distribution: not an assertion over program values, so no solver query decides them. The part that is (bounds, and every value being reachable) is claimed as C28.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]; h = os.path.join(V, "harness", i + ".cpp")
    if not os.path.exists(h):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")}); continue
    src = open(h).read()
    b = re.findall(r"^//@ bounds (.*)$", src, re.M)
    checks.append({"property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "symbolic execution of the compiled source (LLVM IR regenerated from /repo on every run) with an SMT solver (Z3) deciding the assertions; counterexamples are replayed on the natively compiled code",
        "level": "model_checking",
        "level_note": "Exhaustive over all values within the bounds: " + " ".join(b)})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
