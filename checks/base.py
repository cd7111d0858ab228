"""Shared machinery of the checks: findings, known findings, evidence, exit codes."""
import importlib
import json
import os
import shutil
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
SPEC = os.path.join(HERE, "spec")


class Broken(Exception):
    """an anchor of the rule is gone: the rule would pass without looking at anything"""


def spec(name):
    with open(os.path.join(SPEC, name + ".json")) as fh:
        return json.load(fh)


def known_findings(pid):
    """keys of the findings recorded for the property: 'known: property=ID key=KEY :: text'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


class Ctx:
    """what one run of one check gathers"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = {}     # key -> dict
        self.cover = {}        # free-form coverage numbers
        self.obligations = 0
        self.samples = []
        self.rules = []
        self.assumptions = []
        self._P = None

    @property
    def P(self):
        if self._P is None:
            warnings.simplefilter("ignore")
            from sa.project import load
            self._P = load()
        return self._P

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def ok(self, what=None, n=1):
        """n obligations discharged"""
        self.obligations += n
        if what is not None and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, where, why, **more):
        """an obligation that fails; key names the construct and the rule, never a line number"""
        self.obligations += 1
        if key not in self.findings:
            self.findings[key] = dict(key=key, where=where, why=why, **more)

    def need(self, cond, what):
        if not cond:
            raise Broken(what)

    def count(self, name, n):
        self.cover[name] = self.cover.get(name, 0) + n


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        mod, fn = registry()[pid]
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
        if ctx.obligations == 0:
            raise Broken("no obligation was examined")
    except Exception as ex:
        sys.stderr.write(traceback.format_exc()[-4000:])
        print("ANALYSIS-FAILED property=%s %s" % (pid, ex))
        return 2
    known = known_findings(pid)
    new = [f for k, f in sorted(ctx.findings.items()) if k not in known]
    for k in sorted(known):
        if k in ctx.findings:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[k]))
        else:
            print("note: the known finding %s of %s was not seen in this run" % (k, pid))
    rdir = os.path.join(EVID, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    for i, f in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%d.json" % i)
        with open(path, "w") as fh:
            json.dump(dict(property=pid, rerun="python3 check.py %s" % pid, **f), fh, indent=1, default=str)
        print("%s: %s\n    %s" % (f["where"], f["key"], f["why"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    os.makedirs(EVID, exist_ok=True)
    cov = {"explanation": "; ".join(ctx.rules), "obligations": ctx.obligations,
           "analysed": ctx.cover, "sample_obligations": ctx.samples,
           "known_findings": sorted(k for k in known if k in ctx.findings)}
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": ctx.assumptions}
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s: %d obligations, %d violation(s), %.1f s" % (pid, tier, ctx.obligations, len(new), time.time() - t0))
    return 1 if new else 0


def registry():
    with open(os.path.join(HERE, "checks", "registry.json")) as fh:
        return {k: tuple(v) for k, v in json.load(fh).items()}
