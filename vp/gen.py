#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props/*.py-style records below (one place to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the real C code (CBMC, SAT-decided assertions, native replay)"
P = []       # properties with a check
NA = []      # (id, reason)


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, note))


exec(open(os.path.join(V, "vp", "props.def")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 vp/selftest.py",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 vp/run.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 vp/run.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": TECH, "level": "other", "level_note": note} for p, note in P if note and p["id"] not in dict(NA)],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "No hooks in /repo: every harness compiles the unmodified sources. Level 'other': each check is bounded "
              "symbolic execution; DESIGN.md states the bounds per property."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
