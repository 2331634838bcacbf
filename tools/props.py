#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "bounded symbolic execution of the real Python code (numpy arrays of z3 terms), z3 decides every path"
NOTE = ("Every feasible path of the listed functions within the sizes in evidence (instances[].params) is "
        "decided by z3 for all values of the symbolic inputs; counterexamples are replayed on the "
        "uninstrumented code before they are reported. Trusted: z3, the numpy array engine (engine/, compared "
        "with numpy by check.py --selftest and by replaying sampled paths), reals for floats. ")


def prop(id, title, statement, over, text, why, files, mech, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]["_note"] = note


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
built = [p for p in P if "_note" in p and os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py"))]
pending = [p for p in P if "_note" in p and p not in built]
man = dict(version=1, setup_cmd="python3 check.py --selftest",
           checks=[dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}",
                        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                        evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
                        level_note=NOTE + p["_note"]) for p in built],
           not_applicable=NA + [dict(property=p["id"], reason="no check built yet") for p in pending],
           notes="See DESIGN.md. No hooks in /repo are needed; known findings are in KNOWN_FINDINGS.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(built), "checks,", len(NA), "not applicable,", len(pending), "pending")
