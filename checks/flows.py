"""Properties decided by the whole-interface abstract interpretation: input immutability (C01),
persistent state (C02), randomness confinement (C19) and external-effect confinement (C24)."""
import ast

from checks.base import spec
from sa import apirun

_cache = {}


def api(options=True):
    if options not in _cache:
        _cache[options] = apirun.run(options=options)
    return _cache[options]


def setup(ctx, mode=None):
    P, rs = apirun.run(options=True, mode=mode)
    ctx._P = P
    names = sorted({r.name for r in rs})
    ctx.need(len(names) >= 250, "the simplified interface shrank to %d functions" % len(names))
    ctx.count("entry points", len({r.fid for r in rs}))
    ctx.count("entry contexts (one per input representation and option value)", len(rs))
    ctx.count("abstract function contexts interpreted", sum(r.contexts for r in rs))
    ctx.assume("third-party calls follow the effect models in sa/interp.py (pandas, numpy, networkx, lxml, ...)")
    return P, rs


# ---------------------------------------------------------------------------------------------- C01
# entry points whose documentation says that they work on the object they are given
IN_PLACE = {
    "format_dataframe": "formats the dataframe it is given (documented use: df = format_dataframe(df))",
    "rebase": "re-formats the dataframe it is given",
    "set_classifier": "sets the classifier on an existing log",
    "reduce_petri_net_invisibles": "returns only the net, whose markings must keep referring to its places",
}
# attributes that only cache what the content of the object already determines
CACHES = {".deprecation_warning_shown", ".ass_trans", ".sub_marking", ".add_marking"}


def is_cache(root, what):
    attr = what.rsplit("attribute store ", 1)[-1] if what.startswith("attribute store ") else None
    if attr in CACHES:
        return True
    return any(root[1].endswith(c) for c in CACHES)


def is_layout(root, what):
    """the position, size and waypoints of the elements of a BPMN diagram"""
    return what.rsplit(".", 1)[-1] in ("__x", "__y", "__width", "__height", "__waypoints") or root[1].endswith(".__waypoints")


def c01(ctx):
    P, rs = setup(ctx)
    ctx.rule("no path of any public function stores into, deletes from or calls a mutating method on an object reachable "
             "from one of its arguments (alias-aware, interprocedural, one analysis per input representation and option value)")
    for r in rs:
        if r.name in IN_PLACE:
            ctx.count("entry contexts exempt (documented as in place)", 1)
            continue
        mine = [e for e in r.events if e[0] == "mut" and e[1][0].startswith("P:")]
        for _, root, fid, line, what in mine:
            if is_cache(root, what):
                continue
            f = P.funcs.get(fid)
            where = "%s:%s" % (f.mod.rel, line) if f else fid
            key = "%s|%s%s|%s" % (r.name, root[0][2:], root[1], what)
            if r.name == "write_bpmn" and is_layout(root, what):
                key = "write_bpmn|%s|diagram layout" % root[0][2:]
            ctx.bad(key, where,
                    "%s(%s) changes the caller's object: %s on %s%s in %s" % (r.name, r.label, what, root[0][2:], root[1], fid),
                    entry=r.fid, context=r.label)
        ctx.ok("%s [%s]: %s unchanged" % (r.name, r.label, ", ".join(r.params)))


# ---------------------------------------------------------------------------------------------- C02
PERSISTENT_OK = {
    "pm4py.objects.powl.obj:Transition.transition_id": "counter that only makes transition identifiers unique",
    "pm4py.util.constants.TRIGGERED_DT_PARSING_WARNING": "makes a warning appear only once",
}


def c02(ctx):
    P, rs = setup(ctx)
    ctx.rule("no path of any public function writes module-level or class-level state, or a mutable default argument, "
             "that a later call can read")
    for r in rs:
        for e in r.events:
            if e[0] != "mut" or e[1][0][:2] not in ("M:", "G:", "C:", "D:"):
                continue
            _, root, fid, line, what = e
            if root[0][2:] in PERSISTENT_OK:
                continue
            f = P.funcs.get(fid)
            where = "%s:%s" % (f.mod.rel, line) if f else fid
            ctx.bad("%s%s|%s" % (root[0], root[1], what), where,
                    "%s(%s) leaves state behind: %s on %s%s in %s" % (r.name, r.label, what, root[0], root[1], fid),
                    entry=r.fid, context=r.label)
        ctx.ok("%s [%s]" % (r.name, r.label))


# ---------------------------------------------------------------------------------------------- C19
RANDOM_OK = {
    "sample_cases": "samples", "sample_events": "samples", "sample_ocel_objects": "samples",
    "sample_ocel_connected_components": "samples", "split_train_test": "random split",
    "generate_process_tree": "random generation", "play_out": "simulation",
    "get_stochastic_language": "simulates when given a process tree or net",
    "anonymize_differential_privacy": "adds noise",
    "cluster_log": "seeds the clustering with numpy's global generator",
    "extract_features_dataframe": "max_per_attribute sampling in the feature extraction",
    "abstract_log_features": "uses extract_features_dataframe's machinery",
    "view_performance_spectrum": "samples the points when there are too many",
    "save_vis_performance_spectrum": "samples the points when there are too many",
    "view_events_per_time_graph": "samples the points when there are too many",
    "save_vis_events_per_time_graph": "samples the points when there are too many",
    "view_dotted_chart": "random colours", "save_vis_dotted_chart": "random colours",
}


def c19(ctx):
    P, rs = setup(ctx)
    ctx.rule("no value drawn from a random-number generator flows (data or control) into the result, or into what is "
             "written or drawn, of a public function that is not documented as sampling, simulating or perturbing")
    seen = set()
    for r in rs:
        hit = "#rng" in r.ret_taint or "#rng" in r.sink
        if r.name in RANDOM_OK:
            if hit:
                seen.add(r.name)
            ctx.count("entry contexts of documented random operations", 1)
            continue
        if hit:
            f = P.funcs[r.fid]
            ctx.bad("%s|#rng" % r.name, f.loc,
                    "the outcome of %s(%s) depends on a random draw" % (r.name, r.label), entry=r.fid, context=r.label)
        ctx.ok("%s [%s]: deterministic" % (r.name, r.label))
    ctx.need(len(seen) >= 5, "the analysis no longer sees the randomness of the sampling functions (%s)" % sorted(seen))


# ---------------------------------------------------------------------------------------------- C24
DRAWING = ("view_", "save_vis_")
DELETERS = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename", "os.replace", "shutil.rmtree", "shutil.move"}
IN_MEMORY = {("serialize", ".to_parquet"), ("deserialize", "pandas.read_parquet"), ("deserialize", "lxml.etree.iterparse")}


def effect_allowed(name, cat, ext):
    """which public functions may have which effect outside the process, from what their names and documentation promise"""
    if (name, ext) in IN_MEMORY:
        return True
    if cat == "fs-write" and ext in DELETERS:
        # replacing the target file of an export
        return name.startswith(("write_ocel", "save_vis_"))
    if cat == "fs-read":
        return name.startswith(("read_", "write_") + DRAWING) or name == "openai_query" or (name.startswith("extract_") and name.endswith("_history"))
    if cat == "fs-write":
        return name.startswith(("write_",) + DRAWING)
    if cat == "network":
        return name == "openai_query" or name.endswith("_github")
    if cat == "process":
        return name.startswith(DRAWING) or name == "write_bpmn"   # the layout of a BPMN file is computed by graphviz
    if cat == "env-write":
        return ext == "matplotlib.use" and name.startswith(DRAWING)
    return False


def c24(ctx):
    P, rs = setup(ctx)
    ctx.rule("every external effect (file read, file write/delete, network, process, process-wide setting) reachable from a "
             "public function is one its contract announces: readers read, writers write, drawing functions draw, extractors fetch")
    seen = set()
    for r in rs:
        for e in r.events:
            if e[0] != "eff":
                continue
            _, cat, fid, line, ext = e
            seen.add(cat)
            if effect_allowed(r.name, cat, ext):
                ctx.ok()
                continue
            f = P.funcs.get(fid)
            where = "%s:%s" % (f.mod.rel, line) if f else fid
            ctx.bad("%s|%s|%s" % (r.name, cat, ext), where,
                    "%s(%s) reaches %s (%s) in %s" % (r.name, r.label, ext, cat, fid), entry=r.fid, context=r.label)
        ctx.ok("%s [%s]: %s" % (r.name, r.label, sorted({e[1] for e in r.events if e[0] == "eff"}) or "no external effect"))
    ctx.need({"fs-read", "fs-write", "network", "process"} <= seen, "the analysis no longer sees the effects of the readers/writers: %s" % sorted(seen))


# ---------------------------------------------------------------------------------------------- C04
STANDARD = {"concept:name": "activity_key", "time:timestamp": "timestamp_key", "case:concept:name": "case_id_key",
            "org:resource": "resource_key", "start_timestamp": "start_timestamp_key"}
RENAMERS = {"format_dataframe": "its purpose is to rename the given columns to the standard names",
            "rebase": "the same, on another classification of the events"}
# (entry, standard name, where the read is, part of the context label): reads reviewed by hand
REVIEWED = [
    ("check_is_fitting", "concept:name", "pm4py.algo.discovery.footprints", "", "the footprints are already computed when they are compared"),
    ("check_is_fitting", "concept:name", "pm4py.algo.discovery.dfg", "", "the same"),
    ("conformance_declare", "concept:name", "pm4py.utils:", "log=df", "traces that the dataframe iterator has built with standard names"),
    ("discover_declare", "concept:name", "pm4py.utils:", "log=df", "the same"),
    ("get_frequent_trace_segments", "concept:name", "pm4py.utils:", "log=df", "the same"),
    ("discover_heuristics_net", "time:timestamp", "pm4py.algo.discovery.dfg.adapters.pandas", "log=df", "branch for dataframes without the timestamp column"),
    ("discover_petri_net_heuristics", "time:timestamp", "pm4py.algo.discovery.dfg.adapters.pandas", "log=df", "the same"),
    ("convert_log_to_networkx", "case:concept:name", "", "", "its case_id_key names an attribute of the cases, not of the events"),
]


def c04(ctx):
    P, rs = setup(ctx, "std")
    ctx.rule("a public function that lets the caller choose the activity, timestamp, case, resource or start-timestamp attribute "
             "never reads the log under the standard name of that attribute unless the caller's choice selected that name")
    offered = 0
    for r in rs:
        mine = {k: p for k, p in STANDARD.items() if p in r.params}
        if not mine:
            continue
        if r.name in RENAMERS:
            ctx.count("entry contexts exempt (they rename to the standard names)", 1)
            continue
        offered += 1
        for e in r.events:
            if e[0] != "key" or e[1] not in mine:
                continue
            _, key, kinds, fid, line, how = e
            if key == "case:concept:name" and "=df" not in r.label:
                continue    # an event log carries its cases itself; its flattening uses the standard name
            if any(en == r.name and k == key and fid.startswith(pre) and lab in r.label for en, k, pre, lab, _ in REVIEWED):
                ctx.count("reads reviewed by hand", 1)
                continue
            f = P.funcs.get(fid)
            where = "%s:%s" % (f.mod.rel, line) if f else fid
            ctx.bad("%s|%s|%s" % (r.name, mine[key], fid), where,
                    "%s(%s) reads %r (%s) although the caller chooses that attribute with %s" % (r.name, r.label, key, how, mine[key]),
                    entry=r.fid, context=r.label)
        ctx.ok("%s [%s]: honours %s" % (r.name, r.label, ", ".join(sorted(mine.values()))), n=len(mine))
    ctx.need(offered >= 200, "only %d entry contexts offer an attribute name" % offered)


# ---------------------------------------------------------------------------------------------- C03
# documented options that reach nothing in any context (recorded defects; see known_findings.txt)
GAPS = {("discover_performance_dfg", "workcalendar"), ("view_dotted_chart", "bgcolor"), ("save_vis_dotted_chart", "bgcolor"),
        ("view_performance_spectrum", "bgcolor"), ("save_vis_performance_spectrum", "bgcolor"), ("view_powl", "bgcolor"),
        ("save_vis_powl", "bgcolor"), ("save_vis_powl", "rankdir"), ("abstract_ocel_ocdfg", "include_timestamps"),
        ("read_ocel2_sqlite", "variant_str")}


def option_params(f):
    from sa.entries import defaults_of
    return set(defaults_of(f))


def facts(P, r):
    """what one analysis result says about the caller's arguments: those that reach the outcome, and for every
    algorithm parameter read under way the options that arrive there"""
    out = r.ret_taint | r.sink
    ret = sorted(p for p in r.params if p in out and not p.startswith("#"))
    opts = option_params(P.funcs[r.fid])
    data = {p for p in r.params if p not in opts} | {"kwargs"}
    reads = {}
    for e in r.events:
        if e[0] == "par":
            reads.setdefault((e[3], e[1]), set()).add(frozenset(x for x in e[2] if not x.startswith("#") and x not in data))
    return ret, reads


def read_modes(reads):
    """(function, parameter) -> (option, 'all' or 'some') where exactly one option decides the parameter"""
    out = {}
    for k, sets in reads.items():
        pos = [s for s in sets if s]
        if not pos:
            continue
        common = set.intersection(*map(set, pos))
        if len(common) != 1 or any(len(s) != 1 for s in pos):
            continue
        out[k] = (next(iter(common)), "all" if len(pos) == len(sets) else "some")
    return out


OBJECTS = ("EventLog", "EventStream", "DataFrame", "OCEL", "PetriNet", "Marking", "ProcessTree", "BPMN", "HeuristicsNet", "Net", "TransitionSystem",
           "POWL", "SNA", "Trace", "Prefix", "Trie")


def choices(f):
    """the arguments of an entry that are no log or model"""
    a = f.node.args
    return {x.arg for x in a.args + a.kwonlyargs if x.annotation is not None and not any(o in ast.unparse(x.annotation) for o in OBJECTS)
            and x.arg not in ("log", "ocel", "args", "parameters", "kwargs")}


def handovers(P, r):
    """(callee, parameter) -> (argument of the entry, 'all' or 'some') where the parameter is only ever given that argument itself"""
    mine = choices(P.funcs[r.fid])
    out = {}
    for k, sets in r.handed.items():
        pos = [s for s in sets if s]
        if pos and all(len(s) == 1 and s == pos[0] for s in pos) and pos[0][0] in mine:
            out[k] = (pos[0][0], "all" if len(pos) == len(sets) and not k[0].startswith("pm4py.util") else "some")
    return out


def c03(ctx):
    P, rs = setup(ctx, "args")
    ctx.rule("in every context in which an argument of a public function is relevant it reaches (by data or control flow) the "
             "returned value or what is written or drawn; and every algorithm parameter that an option of the function decides "
             "still receives that option at every place where the algorithms under it read the parameter; and every parameter of an "
             "internal function that was only ever handed one argument of the public function still gets it at every such call")
    table = spec("c03")
    now = {(r.fid, r.label): r for r in rs}
    miss = 0
    flowing = {}
    for r in rs:
        flowing.setdefault(r.name, set()).update(p for p in r.params if p in r.ret_taint or p in r.sink)
    total = 0
    for fid, ctxs in table.items():
        f = P.funcs.get(fid)
        name = fid.split(":")[1]
        if f is None:
            miss += len(ctxs)
            total += len(ctxs)
            continue
        for label, want in ctxs.items():
            total += 1
            r = now.get((fid, label))
            if r is None:
                miss += 1
                continue
            ret, reads = facts(P, r)
            for p in want["ret"]:
                if p in ret:
                    ctx.ok()
                else:
                    ctx.bad("%s|%s|no effect" % (name, p), f.loc,
                            "%s [%s]: the argument %s no longer influences what the function returns, writes or draws" % (name, label, p),
                            entry=fid, context=label)
            for g, key, opt, mode in want["par"]:
                got = reads.get((g, key))
                if not got:
                    ctx.count("parameter reads of the table that moved", 1)
                    continue
                has = [opt in s for s in got]
                if any(has) and (mode == "some" or all(has)):
                    ctx.ok()
                    continue
                gf = P.funcs.get(g)
                ctx.bad("%s|%s|%s" % (name, opt, g), gf.loc if gf else f.loc,
                        "%s [%s]: %s reads its parameter %r without the caller's %s%s" %
                        (name, label, g, key, opt, "" if any(has) else " (it gets no longer there)"), entry=fid, context=label)
            for g, q, opt, mode in want["arg"]:
                got = r.handed.get((g, q))
                if not got:
                    ctx.count("internal calls of the table that moved", 1)
                    continue
                has = [opt in s for s in got]
                if any(has) and (mode == "some" or all(has)):
                    ctx.ok()
                    continue
                gf = P.funcs.get(g)
                ctx.bad("%s|%s|%s|%s" % (name, opt, g, q), gf.loc if gf else f.loc,
                        "%s [%s]: %s is %scalled without the caller's %s as its %s" % (name, label, g, "" if not any(has) else "somewhere ", opt, q), entry=fid, context=label)
            ctx.ok("%s [%s]: %s" % (name, label, ", ".join(want["ret"])))
    ctx.count("contexts of the table", total)
    ctx.need(miss * 20 <= total, "%d of the %d contexts of the table are gone" % (miss, total))
    for n, p in sorted(GAPS):
        if n in flowing and p not in flowing[n]:
            f = P.funcs[next(r.fid for r in rs if r.name == n)]
            ctx.bad("%s|%s|ignored" % (n, p), f.loc, "the documented option %s of %s influences nothing" % (p, n))


# ---------------------------------------------------------------------------------------------- C05
REBUILT = {"rebase": "goes through a dataframe, which holds no log-level metadata"}


def stores_trace_attributes(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr in ("attributes", "_attributes"):
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "_attributes":
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "_set_attributes":
                return True
            if n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ("attributes", "_attributes"):
                return True
    return False


def c05(ctx):
    P, rs = apirun.run(options=True, mode="meta")
    ctx._P = P
    ctx.rule("every event log or stream that a public function, or a filter of the algorithm layer, derives from a given log carries the attributes, "
             "extensions, globals, classifiers and properties of that log (the constructor is never called without them, and what it is "
             "given comes from the same kind of metadata); a trace that a filter builds anew gets the attributes of the trace it stands for")
    ctx.assume("third-party calls follow the effect models in sa/interp.py")
    facts_, logs = 0, set()
    for r in rs:
        for kind, _, d, roots in r.meta or ():
            if kind != "log":
                continue
            logs.add(r.fid)
            if r.name in REBUILT:
                ctx.count("results exempt (rebuilt from a dataframe)", 1)
                continue
            for k, labels in d.items():
                facts_ += 1
                if labels is None:
                    ctx.count("metadata of results whose structure is not tracked", 1)
                    continue
                f = P.funcs[r.fid]
                made = [x[0][2:] for x in roots if x[0].startswith("A:")]
                if "#nometa" in labels or "@" + k not in labels:
                    ctx.bad("%s|%s" % (r.fid, k), made[0] if made else f.loc,
                            "%s(%s) returns a log built at %s without the %s of the log it is given" % (r.name, r.label, ", ".join(made) or "?", k),
                            entry=r.fid, context=r.label)
                else:
                    ctx.ok("%s [%s]: keeps %s" % (r.name, r.label, k))
    filters = {r.fid for r in rs if r.meta and any(m[0] == "log" for m in r.meta)} - {f for f in logs if f.split(":")[1] in REBUILT}
    for r in rs:
        if r.fid not in filters:
            continue
        for e in r.events:
            if e[0] != "newtrace":
                continue
            _, fid, line, given = e
            g = P.funcs.get(fid)
            if given or g is None or stores_trace_attributes(g):
                ctx.ok()
                ctx.count("constructions of traces checked", 1)
                continue
            ctx.bad("%s|trace attributes" % fid, "%s:%s" % (g.mod.rel, line),
                    "%s builds a trace without the attributes of the trace it stands for (reached from %s)" % (fid, r.name), entry=r.fid)
    ctx.count("entry contexts (one per input representation and option value)", len(rs))
    ctx.count("functions that return a log", len(logs))
    ctx.need(len(logs) >= 40 and facts_ >= 250, "only %d functions are seen to return a log (%d facts)" % (len(logs), facts_))


# ---------------------------------------------------------------------------------------------- C06
REFERS = (("events", "relations", False), ("events", "e2e", True), ("objects", "relations", False), ("objects", "o2o", True),
          ("objects", "object_changes", False))


def c06(ctx):
    P, rs = apirun.run(options=True, mode="ocel")
    ctx._P = P
    ctx.rule("for every object-centric log that a filter or transformation returns, every condition that the rows of its events (objects) were "
             "restricted to also restricts the rows of every table derived from the argument that refers to events (objects) - relations, "
             "object changes and, through both of their identifiers, the links between objects and between events; "
             "where the identifiers of the events (objects) are rewritten, so are those of every such table")
    ctx.assume("boolean selection and membership of pandas; a table restricted to the identifiers found in a whole column of another table refers to that table")
    logs = set()
    for r in rs:
        for d, roots in r.meta or ():
            logs.add(r.fid)
            f = P.funcs[r.fid]
            for a, b, links in REFERS:
                if d[a] is None or d[b] is None:
                    ctx.count("tables whose content is not tracked", 1)
                    continue
                if not any(x[:2] == "T:" for x in d[b]):
                    ctx.count("tables built empty or from scratch", 1)
                    continue
                have = set(d[b])
                need = {x for x in d[a] if x[:2] == "R:"}
                need |= {x for x in d[a] if x == ("W:eid" if a == "events" else "W:oid")}
                if links:
                    need |= {x + "@2" for x in need if not x.endswith("@2")}
                miss = [x for x in sorted(need - have) if not (x.startswith("R:isin<") and b in x[7:x.index(">")].split(","))]
                ctx.ok("%s [%s]: %d conditions on the %s hold for %s" % (r.fid, r.label, len(need), a, b), max(1, len(need) - len(miss)))
                ren = [x for x in miss if x[:2] == "W:"]
                if ren:
                    miss = [x for x in miss if x not in ren]
                    ctx.bad("%s|%s|%s|renamed" % (r.fid, a, b), f.loc,
                            "%s(%s): the identifiers of the %s of the returned log are rewritten, but not the %sidentifier of the table %s" %
                            (r.name, r.label, a, "second " if all(x.endswith("@2") for x in ren) else "", b), entry=r.fid, context=r.label)
                if miss:
                    second = all(x.endswith("@2") for x in miss)
                    ctx.bad("%s|%s|%s" % (r.fid, a, b), f.loc,
                            "%s(%s): the %s of the returned log are restricted by a condition (%s) that %s of the table %s is not restricted by" %
                            (r.name, r.label, a, miss[0][2:], "the second identifier" if second else "the rows", b), entry=r.fid, context=r.label)
    ctx.count("entry contexts (one per option value)", len(rs))
    ctx.count("functions that return an object-centric log", len(logs))
    ctx.need(len(logs) >= 25, "only %d functions are seen to return an object-centric log" % len(logs))


# ---------------------------------------------------------------------------------------------- C27
def c27(ctx):
    from sa import entries
    P, rs = apirun.run(options=False, mode="shift")
    ctx._P = P
    ctx.rule("a column moved by rows (shift, diff, pct_change) either was grouped by the case identifier before, or its rows are restricted, before "
             "anything is returned, to those where the case identifier equals the one moved by the same call (or split where it differs)")
    ctx.assume("boolean selection of pandas; a filter in a loop over the columns of a pattern is executed at least once")
    sites = {(m.name, line): m.rel for m, line in entries.shift_sites(P)}
    seen = {}
    for r in rs:
        for e in r.events:
            if e[0] == "shift":
                seen[(e[1].split(":")[0], e[2])] = e[3]
        for x in sorted(r.ret_taint):
            if x[:2] != "S:":
                continue
            n, _, at = x[2:].partition(" at ")
            fid, _, line = at.partition("@")[0].rpartition(":")
            g = P.funcs.get(fid)
            ctx.bad("%s|%s" % (fid, r.fid), "%s:%s" % (g.mod.rel if g else fid, line),
                    "%s(%s) returns what was computed from rows moved by %s at %s without having been restricted to rows of the same case" % (r.fid, r.label, n, at),
                    entry=r.fid, context=r.label)
        ctx.ok("%s [%s]: no pair of rows of different cases" % (r.fid, r.label))
    for k, rel in sorted(sites.items()):
        if k in seen:
            ctx.ok("%s:%d moves rows: %s" % (rel, k[1], "grouped by case" if seen[k] else "not grouped, followed to the results"))
        else:
            ctx.count("moves of values that are no table of events, or that no analysed function reaches", 1)
    ctx.count("entry contexts (one per input representation)", len(rs))
    ctx.count("calls that move rows", len(seen))
    ctx.need(len(seen) >= 8, "only %d calls that move rows are reached" % len(seen))


# ---------------------------------------------------------------------------------------------- C28
# what these return is about events (rows), not about cases, for event logs too
COUNT_EVENTS = {
    "pm4py.filtering:filter_log_relative_occurrence_event_attribute": "level='events' is relative to the number of events",
    "pm4py.algo.organizational_mining.resource_profiles.algorithm:activity_completions": "number of completed activity instances",
    "pm4py.algo.organizational_mining.resource_profiles.algorithm:activity_frequency": "share of the activity instances of a resource",
    "pm4py.algo.discovery.correlation_mining.variants.classic_split:apply": "splits a stream of events without cases into samples",
    "pm4py.vis:view_performance_spectrum": "bounds the number of drawn segments",
    "pm4py.vis:save_vis_performance_spectrum": "bounds the number of drawn segments",
    "pm4py.vis:view_events_per_time_graph": "bounds the number of sampled events",
    "pm4py.vis:save_vis_events_per_time_graph": "bounds the number of sampled events",
}


def c28(ctx):
    P, base = apirun.run(options=False, mode="size")
    ctx._P = P
    ctx.rule("in no context where the log is a dataframe does what a function returns or draws depend on the number of rows of a table with one "
             "row per event (len, shape, size, count), except through whether there are any; the same functions see the number of traces of an event log")
    ctx.assume("grouping, distinct values and tables built from Python values no longer have one row per event; reviewed list of functions that count events")
    sized = lambda r: sorted(t for t in r.ret_taint | r.sink if t[:6] == "#rows@")
    hit = {r.fid for r in base if sized(r) and r.fid not in COUNT_EVENTS}
    rs = list(base)
    if hit:
        # a size seen with all option values joined must be there with some value of every option
        rs += apirun.run(options=True, base=False, mode="size", only=lambda f: f.id in hit)[1]
    by = {}
    for r in rs:
        by.setdefault(r.fid, {})[r.label] = set(sized(r))
    for fid, d in sorted(by.items()):
        if fid in COUNT_EVENTS:
            ctx.count("functions about events rather than cases", 1)
            continue
        args = P.funcs[fid].node.args
        names = {x.arg for x in args.args + args.kwonlyargs}
        for lab in sorted(d):
            if any(lab.startswith(o + ",") and lab[len(o) + 1:].partition("=")[0] in names for o in d if o != lab):
                continue  # an option context: looked at with its base
            labs = d[lab]
            opts = {}
            for o in d:
                if o.startswith(lab + ","):
                    opts.setdefault(o[len(lab) + 1:].partition("=")[0], set()).update(d[o])
            for v in opts.values():
                labs = labs & v
            for x in sorted(labs):
                gid, _, line = x[6:].rpartition(":")
                g = P.funcs.get(gid)
                ctx.bad("%s|%s" % (fid, gid), "%s:%s" % (g.mod.rel if g else gid, line),
                        "the outcome of %s(%s) depends on the number of events of the dataframe (taken at %s:%s), where the number of traces of an event log is used" % (fid, lab, gid, line),
                        entry=fid, context=lab)
            if not labs:
                ctx.ok("%s [%s]: no dependence on the number of events" % (fid, lab))
    ctx.count("entry contexts", len(rs))
    ctx.need(len(base) >= 150, "only %d functions take an event log or a dataframe" % len(base))


# ---------------------------------------------------------------------------------------------- C29
def c29(ctx):
    from sa import entries
    P, rs = apirun.run(options=False, mode="gather")
    ctx._P = P
    ctx.rule("rows of an event table are taken for the rows of one case because they lie together (np.unique(..., return_index), ungrouped shift/diff) only after the "
             "table was sorted with the case identifier first, or indexed by the order of the case identifiers, on every path; a sort by the case identifier alone is stable")
    ctx.assume("pandas keeps the order of equal rows when it sorts by several columns; functions called directly get their default settings (a caller may "
               "state that its table is sorted already)")
    sites = {(m.name, line): m.rel for m, line in entries.position_sites(P)}
    seen = {}
    for r in rs:
        for e in r.events:
            if e[0] not in ("gathered", "stable"):
                continue
            g = P.funcs.get(e[1])
            seen[(e[0], e[1].split(":")[0], e[2])] = g
            at = "%s:%d" % (g.mod.rel if g else e[1], e[2])
            what = "cases lie together" if e[0] == "gathered" else "order within the case kept"
            if e[3]:
                ctx.ok("%s in %s(%s): %s" % (at, r.fid, r.label, what))
            elif e[0] == "gathered":
                ctx.bad("%s|gathered" % e[1], at, "%s takes rows that lie together for one case, but the events of a case need not be contiguous in the table "
                        "that %s(%s) is given" % (e[1], r.fid, r.label), entry=r.fid, context=r.label)
            else:
                ctx.bad("%s|stable" % e[1], at, "%s sorts events by the case identifier alone with an unstable sort: the order of the events within a case is lost "
                        "(%s, %s)" % (e[1], r.fid, r.label), entry=r.fid, context=r.label)
    n = 0
    for k, rel in sorted(sites.items()):
        if ("gathered",) + k not in seen:
            n += 1
    ctx.count("moves of rows that are grouped, of one row per case, or of values that are no table of events", n)
    ctx.count("entry contexts (one per input representation)", len(rs))
    ctx.count("places that rely on cases lying together", len([k for k in seen if k[0] == "gathered"]))
    ctx.need(len([k for k in seen if k[0] == "gathered"]) >= 8, "only %d places that rely on cases lying together are reached" % len(seen))
