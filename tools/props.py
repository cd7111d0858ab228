#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from one table (checks never read it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CLAIM = {}
NA = {}


def P(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why,
                  "anchors": dict({"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                                  **({"observe_at": observe} if observe else {}))})
    assert len(title) <= 80, title
    if technique:
        CLAIM[pid] = (technique, note)
    else:
        NA[pid] = na


exec(open(os.path.join(HERE, "tools", "table.py")).read())

reg = json.load(open(os.path.join(HERE, "checks", "registry.json")))
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
       "checks": [], "not_applicable": [],
       "notes": "Static analysis only: every check parses /repo's current sources with the Python standard library and never imports or runs them. "
                "Exit 2 means the analysis itself could not be carried out."}
for p in PROPS:
    pid = p["id"]
    if pid in CLAIM and pid in reg:
        t, n = CLAIM[pid]
        man["checks"].append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                              "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                              "technique": t, "level": "other", "level_note": n})
    else:
        man["not_applicable"].append({"property": pid, "reason": NA.get(pid) or "its check is not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed,", len(man["not_applicable"]), "not")
