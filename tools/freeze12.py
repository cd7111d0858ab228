#!/usr/bin/env python3
"""Development tool: freezes the reviewed parts that readers and writers carry (C12)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import apirun  # noqa: E402
from checks import content  # noqa: E402

P, rs = apirun.run(options=False, mode="content")
out = {}
for r in rs:
    fs = content.facts(r)
    if fs:
        out.setdefault(r.fid, {})[r.label] = fs
json.dump(out, open(os.path.join(HERE, "spec", "c12.json"), "w"), indent=0, sort_keys=True)
print(len(out), sum(len(x) for c in out.values() for x in c.values()))
