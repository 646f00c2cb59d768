"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    mod = pid.lower()
    if pid in NA or not os.path.exists(os.path.join(HERE, "checks", mod + ".py")):
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
        continue
    checks.append(dict(property=pid,
        quick_cmd="/opt/venv/bin/python -B -m vlib.runner %s quick" % mod,
        thorough_cmd="/opt/venv/bin/python -B -m vlib.runner %s thorough" % mod,
        evidence_file="evidence/%s.json" % pid,
        technique=NOTES.get(pid, ("",""))[0] or "symbolic execution of the Python code, SMT (z3/cvc5) decides every assertion",
        level="model_checking",
        level_note=NOTES.get(pid, ("",""))[1] or "all values within the stated bounds; doubles idealised as reals"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="Solver-based checking: proxy symbolic execution of the Python code and of the compiled kernel's LLVM IR."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
