#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run after editing; outputs are committed)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []
def P(id, title, statement, over, text, why, files, mech, note=""):
    assert len(title) <= 80, title
    T.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, _note=note))
exec(open(os.path.join(HERE, "tools", "table.py")).read())
have = set()
for f in os.listdir(os.path.join(HERE, "harness")):
    if f.endswith(".cpp"):
        m = re.search(r"@property\s+(\S+)", open(os.path.join(HERE, "harness", f)).read())
        if m: have.add(m.group(1))
NA = globals().get("NOT_APPLICABLE", {})
with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
    for p in T:
        if p["id"] in have or p["id"] in NA: o.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
TECH = "symbolic execution of the compiled C++ (LLVM bitcode of the real functions) with every branch and assertion decided by Z3; counterexamples replayed on the real code"
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p in T:
    if p["id"] in have:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py --property %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py --property %s --tier thorough" % p["id"],
            "technique": TECH, "level": "model_checking", "level_note": p["_note"] or "all values within the stated bounds, on every feasible path; doubles modelled as exact reals, bounds in the harness header and in the evidence file"})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks;", sorted(have - {p["id"] for p in T}), "without text")
