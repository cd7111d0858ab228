"""Runs the abstract interpreter over every entry point of the simplified interface, in parallel."""
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback
import warnings

from .project import load, AnalysisBroken
from . import entries as EN
from . import interp as IN

STACK = 512 * 1024 * 1024
_P = None
_I = None


def _get():
    global _P, _I
    if _P is None:
        warnings.simplefilter("ignore")
        sys.setrecursionlimit(200000)
        _P = load()
    if _I is None:
        _I = EN.new_interp(_P)
    return _P, _I


def big(fn, *a):
    """run fn in a thread with a stack deep enough for the interpreter"""
    out = {}

    def go():
        try:
            out["r"] = fn(*a)
        except BaseException as ex:
            out["e"] = ex
            out["t"] = traceback.format_exc()
    threading.stack_size(STACK)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in out:
        sys.stderr.write(out["t"][-3000:])
        raise out["e"]
    return out["r"]


class Res:
    """what the analysis says about one entry under one context"""
    __slots__ = ("fid", "name", "label", "params", "ret_taint", "sink", "kinds", "events", "retrefs", "contexts", "secs", "bottom", "ret", "meta", "handed")


def _one(job):
    fid, lab, opt = job[:3]
    mode = job[3] if len(job) > 3 else None
    mode = "kinds" if mode == "kinds-low" else mode
    P, I = _get()
    EN.ALLBOOL = mode == "size"
    f = P.funcs[fid]
    t0, c0 = time.time(), I.stats["contexts"]
    for l, b in (EN.option_contexts(P, f) if opt else EN.contexts(P, f)):
        if l == lab:
            break
    else:
        raise AnalysisBroken("context %s of %s vanished" % (lab, fid))
    if mode == "meta":
        I.meta = EN.META
        b = EN.meta_binding(b)
    if mode == "size":
        I.sizes = True
        IN.State.datalabels = True
        b = EN.size_binding(b)
    if mode == "content":
        I.content = True
        IN.State.datalabels = True
        b = EN.content_binding(b, f)
    if mode == "kinds":
        I.kindsof = True
    if mode == "std":
        I.std = True
        b = EN.std_binding(b)
    if mode in ("shift", "gather"):
        I.shift = True
        IN.State.datalabels = True
        b = EN.shift_binding(b) if mode == "shift" else EN.gather_binding(b)
    if mode == "ocel":
        I.rows = True
        IN.State.datalabels = True
        b = EN.ocel_binding(b)
    s = EN.run_entry(I, f, b)
    r = Res()
    r.fid, r.name, r.label = fid, f.node.name, lab
    labs = []
    for n, v in b.items():
        labs += sorted(v.alltaint)
    r.params = labs
    r.handed = {k: sorted({tuple(sorted(x for x in l if x[0] != "#")) for l in d.values()}) for k, d in IN.handed_on(s).items()} if mode == "args" else None
    r.ret_taint = s.ret.alltaint
    r.sink = frozenset(s.sink)
    r.kinds = s.ret.kinds
    r.events = s.events
    r.contexts = I.stats["contexts"] - c0
    r.secs = time.time() - t0
    r.retrefs = (s.ret.selfr | s.ret.allroots)
    r.bottom = (s.ret is EN.BOT)
    r.ret = None
    r.meta = EN.meta_facts(s.ret) if mode == "meta" else EN.shape(s.ret) if mode == "kinds" else EN.content_facts(s.ret) if mode == "content" else EN.ocel_facts(s.ret) if mode == "ocel" else None
    return r


def _work(job):
    try:
        return big(_one, job)
    except AnalysisBroken:
        raise
    except Exception as ex:
        raise AnalysisBroken("analysis of %s [%s] failed: %r" % (job[0], job[1], ex))


HEAVY = ("align", "is_fitting", "powl", "bpmn", "token", "inductive", "footprints", "reachability", "stochastic", "vis_")


def run(options=False, only=None, base=True, mode=None):
    """-> (project, list of Res); options adds one context per option value"""
    P, _ = _get()
    EN.ALLBOOL = mode == "size"
    jobs = []
    fns = EN.annotated_functions(P) if mode == "kinds-low" else EN.ocel_functions(P) if mode == "ocel" else EN.shift_functions(P) if mode == "shift" else EN.shift_functions(P, EN.position_sites) if mode == "gather" else EN.size_functions(P) if mode == "size" else EN.content_functions(P) if mode == "content" else EN.api_functions(P) + (EN.filter_functions(P) if mode == "meta" else [])
    for f in fns:
        if only and not only(f):
            continue
        if base:
            jobs += [(f.id, l, False) for l, _ in EN.contexts(P, f)]
        if options:
            jobs += [(f.id, l, True) for l, _ in EN.option_contexts(P, f)]
    if mode in ("meta", "shift", "gather"):
        bind = EN.meta_binding if mode == "meta" else EN.shift_binding
        keep = set()
        for f in fns:
            for o, cs in ((False, EN.contexts(P, f)), (True, EN.option_contexts(P, f) if options else ())):
                keep |= {(f.id, l, o) for l, b in cs if bind(b) is not None}
        jobs = [j + (mode,) for j in jobs if j in keep]
    if mode == "size":
        jobs = [j for j in jobs if "=df" in j[1]]
    if mode in ("ocel", "std", "args", "size", "content", "kinds", "kinds-low"):
        jobs = [j + (mode,) for j in jobs]
    # entries of one function go to one worker together (shared summaries), heavy ones first
    groups = {}
    for j in jobs:
        groups.setdefault((j[0], j[1] if mode == "size" else j[1].split(",")[0]), []).append(j)
    gl = sorted(groups.values(), key=lambda g: (-sum(h in g[0][0] for h in HEAVY) * len(g), -len(g)))
    n = min(8, os.cpu_count() or 1)
    out = []
    with mp.get_context("fork").Pool(n) as pool:
        for rs in pool.imap_unordered(_group, gl, chunksize=1):
            out += rs
    out.sort(key=lambda r: (r.fid, r.label))
    return P, out


def _group(g):
    # a fresh interpreter per group: what one entry makes the analysis widen must not blur another
    global _I
    _I = None
    out = []
    for j in g:
        _I = None
        out.append(_work(j))
    return out


if __name__ == "__main__":
    import pickle
    t = time.time()
    P, rs = run(options="-o" in sys.argv)
    print(len(rs), "contexts", time.time() - t, "s")
    for r in sorted(rs, key=lambda r: -r.secs)[:12]:
        print("%.1f %d %s %s" % (r.secs, r.contexts, r.name, r.label))
    pickle.dump(rs, open("/tmp/rs.pkl", "wb"))
