#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}, _note=note, _na=na))
exec(open(os.path.join(HERE, "props.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
import specs
checks, na = [], []
for p in P:
    if p["_na"]: na.append({"property": p["id"], "reason": p["_na"]}); continue
    b = "; ".join(sorted(set(c.get("bounds", q.get("bounds", "")) for q in specs.PROPS[p["id"]]["parts"] for c in q["cases"])))
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": "bounded symbolic execution of the real code (LLVM bitcode) with an SMT solver", "level": "other",
        "level_note": "Solver verdict over all values within: " + b + ". " + (p["_note"] or "") + " Trusted: clang 18 front end, the vsym executor and run-time models in /verif/engine and /verif/rt, Z3. Counterexamples are replayed against a native ASan build before being reported."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none: no hooks are added to /repo", "enable": "not needed", "source_commits": []}, "checks": checks, "not_applicable": na,
     "notes": "Every check recompiles /repo's current sources to LLVM bitcode and decides its assertions with Z3; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
