#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = {"C%02d" % i: "" for i in range(1, 30)}
NA = {
    "N01": "Send and Sync are decided by the type checker from impls and auto traits; they leave no trace in executable code that a solver could reason about.",
    "N02": "The aliasing rules are a semantics of borrow tags that neither LLVM IR nor an SMT encoding of its memory represents; C16 decides the accesses themselves.",
}
NOTE = ("Bounded symbolic execution of the library's LLVM IR (own executor over z3): on every path within the listed bounds the solver shows "
        "the assertions for all values, or a counterexample is found and replayed natively. Trusts z3, rustc's lowering to IR, "
        "the executor's IR semantics (cross-checked natively on sampled paths) and the harness's reference model. Outside the bounds nothing is claimed.")
TECH = "bounded symbolic execution of LLVM IR with an SMT solver (z3)"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in CLAIM:
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + CLAIM[p]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harnesses use the public interface only."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
