#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []   # (property, reason)

def prop(id, title, statement, over, text, why, files, mech, note, technique=None, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _note=note, _tech=technique or DIFF))

DIFF = "property-based testing: generated programs run in golisp and in an independent reference interpreter, outcomes and effects compared form by form, failures shrunk"
STD = "Exploration: no counterexample among the generated cases (counts and samples in the evidence). Trusts the reference model in harness/m_*.go, which was written from the documentation and the meaning of the operations and shares no code with golisp; forms the model leaves unspecified are dropped."

exec(open(os.path.join(here, "tools", "table.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
na = dict(NA)
checks = [dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
               thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
               technique=p["_tech"], level="exploration", level_note=p["_note"])
          for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NA],
         notes="Each check builds harness/ against /repo's working tree (go.mod replace). No hooks in /repo: everything is observed through the exported Go API, the Lisp language and the command-line program. KNOWN_FINDINGS.jsonl lists recorded defects and the fix commits.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
