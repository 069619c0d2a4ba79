"""Writes MANIFEST.json from the check modules."""
import importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symqt import core  # noqa: z3 path

NA = [
    ("C26", "Statistical statement about sampled noise at all rates below an undetermined threshold; no finite solver query states it."),
]
PY = "/opt/venv/bin/python -W ignore run.py "
checks = []
for n in [*range(1, 26), 27]:
    pid = "C%02d" % n
    m = importlib.import_module("checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": PY + pid,
        "thorough_cmd": PY + pid + " --tier thorough",
        "technique": "bounded symbolic execution of the real Python code (AST-instrumented, z3), with symbolic stabilizer simulation of the circuits it builds"
        if n not in (6, 10, 11, 12, 13, 14, 15, 16, 17, 18, 27) else "bounded symbolic execution of the real Python code (AST-instrumented, z3)",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within these bounds (quick): %s. Nothing is claimed outside them. Trusts: %s"
        % (m.BOUNDS["quick"], " ".join(m.ASSUMPTIONS)),
    })
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA],
       "notes": "No hooks: the code under test is instrumented in memory when it is imported."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
