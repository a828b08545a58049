#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they cannot drift apart."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique, level="model_checking", thorough=True,
         state=None, observe=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note, technique, level, thorough, na))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, note, tech, level, thorough, reason in P:
    if reason:
        na.append({"property": p["id"], "reason": reason})
        continue
    c = {"property": p["id"], "quick_cmd": "python3 /verif/mc/run.py %s" % p["id"], "technique": tech, "level": level,
         "level_note": note}
    if thorough:
        c["thorough_cmd"] = "python3 /verif/mc/run.py %s --thorough" % p["id"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 /verif/mc/build.py c01",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
