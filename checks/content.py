"""C12: writers put, and readers restore, every part of an object that the format holds."""
from sa import apirun

from .flows import spec

NOISE = {"columns", "dt", "dtype", "str", "value", "parameters", "list", "dict", "index", "text", "tag", "attrib", "attrs", "graph", "graph_attr",
         "st_size", "event_id_column", "object_id_column", "object_type_column", "event_activity", "event_timestamp", "qualifier", "changed_field",
         "layout_dict", "data", "labels_hash_sum"}
OWN_COLUMNS = {"[ocel:eid]", "[ocel:oid]", "[ocel:oid_2]", "[ocel:activity]", "[ocel:type]"}       # touched by every consistency step
BY_CONTROL = {"operator", "gateway_direction", "isInterrupting", "parallelMultiple"}


# file keys whose value must reach a given table of the object-centric log (reviewed against the formats)
REACHES = {
    "events": {"ocel:vmap", "ocel:events", "ocel:timestamp", "ocel:global-event", "key", "value", "timestamp", "time", "name", "attributes"},
    "objects": {"ocel:ovmap", "ocel:objects", "key", "value", "name", "attributes", "type"},
    "relations": {"ocel:omap", "ocel:typedOmap", "ocel:qualifier", "qualifier", "relationships", "object-id", "objectId"},
    "o2o": {"ocel:o2o", "ocel:qualifier", "qualifier", "source", "target", "relationships", "object-id", "objectId"},
    "object_changes": {"ocel:objectChanges", "ocel:field", "timestamp", "time"},
    "globals": {"ocel:global-log", "ocel:global-event", "ocel:global-object"},
}
TABLES = set(REACHES) | {"e2e", "ocel:eid_2"}
XES_OWN = {"attributes", "classifiers", "extensions", "omni_present", "properties"}      # the tables of a log, not keys of the file
# pairs of steps (table or component > field of it) whose value must be carried
PAIRS = {
    "ocel": {"relations": "{qualifier}", "o2o": "[ocel:qualifier]", "object_changes": "{changed_field} {event_timestamp} [ocel:field] [ocel:timestamp]",
             "[ocel:typedOmap]": "[ocel:qualifier] [ocel:oid]", "[ocel:o2o]": "[ocel:qualifier] [ocel:oid]", "[ocel:objectChanges]": "[ocel:field] [ocel:timestamp] [ocel:oid]",
             "[relationships]": "[qualifier] [objectId]", "[attributes]": "[name] [value] [time]", "[ocel:events]": "[ocel:vmap] [ocel:typedOmap] [ocel:omap]",
             "[ocel:objects]": "[ocel:ovmap] [ocel:o2o]", "globals": "[ocel:global-event] [ocel:global-log] [ocel:global-object]"},
    "xes": {"extensions": "[prefix] [uri]", "attributes": "[value] [children]"},
    "petri": {"arcs": "source target weight properties", "places": "name properties", "transitions": "name label properties",
              "properties": "[guard] [layout_information_petri] [readVariable] [writeVariable] [stochastic_distribution] [place_name_tag]",
              "random_variable": "priority weight", "[stochastic_distribution]": "random_variable priority weight"},
    "bpmn": {"flows": "id name process source target waypoints", "nodes": "id name process gateway_direction in_arcs out_arcs isInterrupting parallelMultiple layout",
             "layout": "height width x y waypoints", "source": "id", "target": "id", "in_arcs": "id", "out_arcs": "id"},
    "tree": {"children": "label operator", "{children}": "label operator"},
}
PAIRS = {(k, a, b) for k, d in PAIRS.items() for a, bs in d.items() for b in bs.split()}
FAMILIES = [("ocel", "ocel"), ("xes", "xes"), ("pnml", "petri"), ("bpmn", "bpmn"), ("tree", "tree"), ("ptml", "tree")]
BOOKKEEPING = {"ProcessTree.parent", "result.parent", "result.labels_hash_sum", "result.graph", "argument 0"}


def pairs(r, labels):
    """reviewed pairs of steps among the labels"""
    fam = {k for n, k in FAMILIES if n in r.fid}
    if r.fid[-10:] == ":serialize":
        fam = {"petri"} if "Petri" in r.label else {"bpmn"} if "BPMN" in r.label else {"tree"} if "Tree" in r.label else {"xes"} if "EventLog" in r.label else set()
    out = set()
    for x in labels:
        if x[:4] == "#cp:":
            a, b = x[4:].split(">", 1)
            a = a.strip("{}") if "petri" not in fam else a
            if any((k, a, b) in PAIRS for k in fam):
                out.add("%s of %s" % (b.strip("{}[]"), a.strip("{}[]")))
    return out


def from_key(r, x):
    k = x[5:-1]
    return x[:5] == "#cf:[" and k[:6] != "PM4PY_" and x[4:] not in OWN_COLUMNS and k not in TABLES and not (".xes." in r.fid and k in XES_OWN)


def is_reader(fid):
    m, n = fid.split(":")
    return ".importer." in m or m == "pm4py.read" or n == "deserialize"


def keep_attr(fid, a):
    if a[:1] == "[":
        return a[:6] == "[ocel:" and a not in OWN_COLUMNS and a[1:-1] not in TABLES
    if a == "name":
        return "xes" not in fid and "ocel" not in fid and "serialize" not in fid
    return a not in NOISE


def facts(r):
    """the parts of an object that an entry carries -> [(side, part)]"""
    out = set()
    if is_reader(r.fid):
        for x in r.ret_taint:
            if x[:4] == "#cR:":
                out.add(x[4:])
        ocel = "ocel" in r.fid
        for p, labs in r.meta.items():
            if p.count(".") == 1 and "#cF" in labs:
                part = p.replace("__", "").replace("._", ".")
                out.add("result" + part)
                if "#cR:Marking.tokens" in labs:
                    out.add("tokens of result" + part)
                if ocel:
                    out |= {"result%s from %s" % (part, x[4:]) for x in labs if from_key(r, x) and x[5:-1] in REACHES.get(part[1:], ())}
        if ocel:
            out |= pairs(r, r.ret_taint)
        elif r.fid[-12:] != ":deserialize":
            out |= {"anything from " + x[4:] for x in r.ret_taint if from_key(r, x)}
        return sorted(out - BOOKKEEPING)
    out |= pairs(r, r.sink | r.ret_taint)
    for x in r.sink | r.ret_taint:
        if x[:4] == "#cA:":
            if x[4:] not in ("encoding", "kwargs"):
                out.add(x[4:])
        elif x[:4] == "#cf:" and keep_attr(r.fid, x[4:]):
            out.add("attribute " + x[4:])
        elif x[:4] == "#kf:" and x[4:] in BY_CONTROL:
            out.add("attribute " + x[4:])
    return sorted(out - BOOKKEEPING)


def c12(ctx):
    P, rs = apirun.run(options=False, mode="content")
    ctx._P = P
    ctx.rule("every part of an object that a writer puts into the file or string (by data flow into the sink or the returned string), and every part of the object that a reader "
             "builds from the content of the file (by data flow into the stored attribute, table or component), is still carried; "
             "the parts were reviewed against the classes and formats and are kept in spec/c12.json")
    ctx.assume("a part counts as carried when some data flow carries it; that the value written is the right one is not decided")
    table = spec("c12")
    now = {(r.fid, r.label): r for r in rs}
    miss = total = 0
    for fid, ctxs in sorted(table.items()):
        f = P.funcs.get(fid)
        for label, want in sorted(ctxs.items()):
            total += 1
            r = now.get((fid, label))
            if f is None or r is None:
                miss += 1
                continue
            got = set(facts(r))
            lost = [p for p in want if p not in got]
            ctx.ok("%s [%s]: %s" % (fid, label, ", ".join(want)), len(want) - len(lost))
            for p in lost:
                ctx.bad("%s|%s" % (fid, p), f.loc, "%s(%s) no longer %s: %s" %
                        (fid, label, "restores a part of the object from the file" if is_reader(fid) else "writes a part of the object", p), entry=fid, context=label)
    ctx.count("readers and writers (contexts)", total)
    ctx.need(miss * 20 <= total and total >= 60, "%d of the %d readers and writers of the table are gone" % (miss, total))
