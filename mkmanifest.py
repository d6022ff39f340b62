"""writes MANIFEST.json from the property modules present"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(H, "symex/props/%s.py" % p.lower())):
        checks.append({
            "property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
            "technique": "bounded symbolic execution of the real source with an SMT solver (z3); counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "Every value (all reals, NaN) of every operand/argument within the stated size bounds, on every feasible path of the real "
                          "staircase source; trusts z3 and the numpy/pandas models (validated each run by replaying path models on the real pandas). "
                          "Float rounding, overflow and larger operands are outside.",
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && test -x /opt/venv/bin/python", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
