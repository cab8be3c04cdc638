"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "dynamic symbolic execution of the real Python code, every path decision and "
                     "property condition decided by z3 over all inputs within the bounds; "
                     "counterexamples replayed on unpatched code",
        "level": "model_checking",
        "level_note": "Bounded: holds for every input within the bounds of each scenario (listed in "
                      "the evidence with the number of paths and whether they were exhausted); "
                      "nothing is claimed outside them. Trusted: the proxy numbers and datetime / "
                      "pandas stubs of symex (validated by replaying sampled paths on plain "
                      "numbers), z3, CPython, simpy, pandas, networkx.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses observe the public API."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
