#!/usr/bin/env python3
"""Development tool: freezes the reviewed argument-flow table of C03 and the option values of the contexts.
Run once on a reviewed tree; the checks only read the result."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import apirun, entries as EN  # noqa: E402
from checks import flows  # noqa: E402


def main():
    P, _ = apirun._get()
    if "optvals" in sys.argv:
        ov = {}
        for f in EN.api_functions(P):
            v = EN.option_values(f)
            if v:
                ov[f.id] = v
        json.dump(ov, open(os.path.join(HERE, "spec", "optvals.json"), "w"), indent=0, sort_keys=True)
        return
    P, rs = apirun.run(options=True, mode="args")
    out = {}
    for r in rs:
        ret, reads = flows.facts(P, r)
        par = sorted([g, k, o, m] for (g, k), (o, m) in flows.read_modes(reads).items())
        out.setdefault(r.fid, {})[r.label] = {"ret": ret, "par": par,
                                               "arg": sorted([g, q, o, m] for (g, q), (o, m) in flows.handovers(P, r).items())}
    json.dump(out, open(os.path.join(HERE, "spec", "c03.json"), "w"), indent=0, sort_keys=True)
    print(sum(len(c["ret"]) for x in out.values() for c in x.values()), sum(len(c["par"]) for x in out.values() for c in x.values()))


if __name__ == "__main__":
    main()
