#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, note=None, tech=None, na=None, level="exploration"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append(dict(rec={"id": id, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a},
                  note=note, tech=tech, na=na, level=level))

exec(open(os.path.join(V, "bin", "props_table.py")).read())

assert len({p["rec"]["id"] for p in P}) == len(P)
for p in P:
    assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
    assert p["na"] or (p["note"] and p["tech"]), p["rec"]["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")
flav = {l.split()[0]: l.split()[1] for l in open(os.path.join(V, "bin", "flavors.txt")) if l.strip()}
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: schedules and crash points are injected by compiler instrumentation and link-time wrapping of an out-of-tree build (bin/build.sh)."}
for p in P:
    i = p["rec"]["id"]
    if p["na"]:
        m["not_applicable"].append({"property": i, "reason": p["na"]})
        continue
    assert i in flav, i
    m["checks"].append({"property": i, "quick_cmd": f"bin/check.sh {i} quick", "thorough_cmd": f"bin/check.sh {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
