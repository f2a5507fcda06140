#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.jsonl: one line per recorded defect or repair."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
commits = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = []
def fixed(prop, subject, what):
    h = commits["fix: " + subject]
    out.append(dict(property=prop, kind="fixed", commit=h, what=what, entry="fixed: property=%s %s %s" % (prop, h, what)))
def known(prop, what, case=None):
    out.append(dict(property=prop, kind="known", what=what, case=case))
exec(open(os.path.join(here, "tools", "findings.py")).read())
used = {o["commit"] for o in out if o["kind"] == "fixed"}
for s, h in commits.items():
    if s.startswith("fix:") and h not in used: print("NOT RECORDED:", h, s)
with open(os.path.join(here, "KNOWN_FINDINGS.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out), "entries")
