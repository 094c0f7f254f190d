"""MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py check {i} quick", thorough_cmd=f"python3 run.py check {i} thorough",
            technique="symbolic execution of the compiled code (LLVM IR of rudof and its dependencies) with Z3 deciding every branch and assertion",
            level="model_checking", level_note="Bounded: " + c["note"] + ". Outside: larger inputs; see DESIGN.md."))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "no check built yet")))
m["notes"] = "Known findings: known_findings.txt. The engine is symex/, harnesses in harness/, driver run.py."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
