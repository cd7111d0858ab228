"""Entry points: the simplified API modules, and abstract arguments from annotations."""
import ast
import json
import os
from .values import *
from .project import AnalysisBroken
from .interp import Interp, State, env_join

API_MODULES = ["analysis", "conformance", "connectors", "convert", "discovery", "filtering", "hof", "llm", "ml", "ocel", "org",
               "privacy", "read", "sim", "stats", "utils", "vis", "write"]

LOGCLS = "pm4py.objects.log.obj:"
ELEM = {
    "cls:" + LOGCLS + "EventLog": frozenset(["cls:" + LOGCLS + "Trace"]),
    "cls:" + LOGCLS + "EventStream": frozenset(["cls:" + LOGCLS + "Event"]),
    "cls:" + LOGCLS + "Trace": frozenset(["cls:" + LOGCLS + "Event"]),
}
OC = "cls:pm4py.objects.ocel.obj:OCEL"
DF = frozenset(["df"])
ATTR = {(OC, a): DF for a in ("events", "objects", "relations", "o2o", "e2e", "object_changes")}
for a in ("event_id_column", "object_id_column", "object_type_column", "event_activity", "event_timestamp", "qualifier", "changed_field"):
    ATTR[(OC, a)] = frozenset(["str"])


def new_interp(proj):
    I = Interp(proj, ELEM)
    I.attr_kinds = dict(ATTR)
    return I


def ann_kinds(proj, mod, a):
    """annotation -> list of alternative kind-sets (each one context)"""
    if a is None:
        return None
    if isinstance(a, ast.Constant):
        if a.value is None:
            return [frozenset(["none"])]
        if isinstance(a.value, str):
            try:
                return ann_kinds(proj, mod, ast.parse(a.value, mode="eval").body)
            except SyntaxError:
                return None
        return None
    if isinstance(a, ast.Subscript):
        base = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        if base in ("Union", "Optional"):
            elts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            out = []
            for e in elts:
                k = ann_kinds(proj, mod, e)
                out += k if k is not None else [None]
            if base == "Optional":
                out.append(frozenset(["none"]))
            r = []
            for k in out:
                if k not in r:
                    r.append(k)
            return r
        return {"List": [frozenset(["list"])], "Dict": [frozenset(["dict"])], "Set": [frozenset(["set"])],
                "Tuple": [frozenset(["tuple"])], "Counter": [frozenset(["dict"])]}.get(base)
    if isinstance(a, ast.Name) and a.id in ("str", "int", "float", "bool", "dict", "list", "set", "tuple"):
        return [frozenset([{"int": "num", "float": "num"}.get(a.id, a.id)])]
    r = proj.resolve_expr_static(mod, a)
    if r is None:
        return None
    if r[0] == "ext":
        n = r[1].split(".")[-1]
        if n == "DataFrame":
            return [DF]
        return {"List": [frozenset(["list"])], "Dict": [frozenset(["dict"])], "Set": [frozenset(["set"])],
                "Tuple": [frozenset(["tuple"])], "Counter": [frozenset(["dict"])]}.get(n)
    if r[0] == "class":
        if proj.is_enum(r[1]):
            return [frozenset(["enum:" + r[1].id])]
        return [frozenset(["cls:" + r[1].id])]
    if r[0] == "expr" and r[2] and isinstance(r[2][0], (ast.Subscript, ast.Name, ast.Attribute)):
        return ann_kinds(proj, r[1], r[2][0])
    return None


def api_functions(proj):
    out = []
    for m in API_MODULES:
        mod = proj.modules.get("pm4py." + m)
        if mod is None:
            raise AnalysisBroken("API module pm4py.%s is gone" % m)
        for st in mod.tree.body:
            if isinstance(st, ast.FunctionDef) and not st.name.startswith("_"):
                out.append(st._sa_func)
    return out


def filter_functions(proj):
    """the filters of the algorithm layer: public functions of pm4py.algo.filtering.log that take a log"""
    out = []
    for f in proj.funcs.values():
        if f.mod.name.startswith("pm4py.algo.filtering.log.") and f.cls is None and "." not in f.qual and not f.node.name.startswith("_"):
            a = f.node.args.args
            if a and a[0].arg in ("log", "log_obj", "obj"):
                out.append(f)
    return out


def size_functions(proj):
    """the public functions that take an event log or, alternatively, a dataframe.  Those that dispatch to a variant are left
    to the simplified interface, which says which variant it is; the last one is only called with the log already converted"""
    out = []
    for f in proj.funcs.values():
        if f.mod.name not in ["pm4py." + m for m in API_MODULES] and any(x.arg == "variant" for x in params_of(f)):
            continue
        if f.id == "pm4py.algo.anonymization.pripel.variants.pripel:apply":
            continue
        if f.cls is None and "." not in f.qual and not f.node.name.startswith("_"):
            for x in params_of(f)[:2]:
                ks = ann_kinds(proj, f.mod, x.annotation)
                if ks and DF in ks and any(k and k & frozenset(LOGS) for k in ks):
                    out.append(f)
                    break
    return out


def entry_value(name, kinds):
    lab = frozenset([name])
    if kinds is not None and kinds <= IMMUT:
        return mk(kinds, None, E, E, lab)
    if kinds is not None and kinds == frozenset(["none"]):
        return tainted(NONE, lab)
    return mk(kinds, None, E, frozenset([("P:" + name, "")]), lab)


PN = "pm4py.objects.petri_net.obj:"
_C = lambda x: frozenset(["cls:" + x])
LOG_EL, NET, MARK = _C(LOGCLS + "EventLog"), _C(PN + "PetriNet"), _C(PN + "Marking")
TREE, BPMN_ = _C("pm4py.objects.process_tree.obj:ProcessTree"), _C("pm4py.objects.bpmn.obj:BPMN")
DICT = frozenset(["dict"])
ACC, DFGT = (NET, MARK, MARK), (DICT, DICT, DICT)
# documented argument shapes of the variadic entry points whose annotation does not spell them out
VARARGS = {
    "conformance_diagnostics_alignments": [ACC, (TREE,), DFGT],
    "conformance_diagnostics_footprints": [(LOG_EL,) + ACC, (LOG_EL, TREE), (DF,) + ACC, (DICT, DICT)],
    "fitness_footprints": [(LOG_EL,) + ACC, (DF, TREE)],
    "precision_footprints": [(LOG_EL,) + ACC, (DF, TREE)],
    "check_is_fitting": [(_C(LOGCLS + "Trace"),) + ACC, (_C(LOGCLS + "Trace"), TREE), (frozenset(["tuple"]), TREE)],
    "get_stochastic_language": [(LOG_EL,), (DF,), ACC, (TREE,)],
    "serialize": [(LOG_EL,), (DF,), ACC, (TREE,), (BPMN_,), DFGT],
    "play_out": [ACC, DFGT, (TREE,)],
    "convert_to_bpmn": [ACC, (TREE,)],
    "convert_to_process_tree": [ACC, (BPMN_,)],
    "convert_to_reachability_graph": [ACC, (BPMN_,), (TREE,)],
    "discover_footprints": [(LOG_EL,), (DF,), ACC, (TREE,)],
}


def default_kinds(d):
    """kinds suggested by a default value, for a parameter without annotation"""
    if isinstance(d, ast.Constant):
        v = d.value
        if isinstance(v, bool):
            return frozenset(["bool"])
        if isinstance(v, str):
            return frozenset(["str"])
        if isinstance(v, (int, float)):
            return frozenset(["num"])
    if isinstance(d, (ast.Attribute, ast.Name)):
        n = d.attr if isinstance(d, ast.Attribute) else d.id
        if n.endswith(("_KEY", "_key", "DEFAULT_NAME_KEY", "_COLUMN", "_ATTRIBUTE_START", "_FORMAT_GVIZ_VIEW", "TIMESTAMP_KEY")):
            return frozenset(["str"])
    return None


def _shape_of(proj, f):
    va = f.node.args.vararg
    nm = f.node.name
    if nm in VARARGS:
        return VARARGS[nm]
    out = []
    a = va.annotation
    if isinstance(a, ast.Subscript):
        base = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        alts = a.slice.elts if base == "Union" and isinstance(a.slice, ast.Tuple) else [a]
        for x in alts:
            if isinstance(x, ast.Subscript) and getattr(x.value, "id", "") == "Tuple" and isinstance(x.slice, ast.Tuple):
                ks = [ann_kinds(proj, f.mod, y) for y in x.slice.elts]
                out.append(tuple(k[0] if k else None for k in ks))
            else:
                k = ann_kinds(proj, f.mod, x)
                out.append((k[0],) if k else (None,))
    return out or [None]


def _kname(k):
    return "any" if k is None else "|".join(sorted(q.split(":")[-1] for q in k))


def params_of(f):
    a = f.node.args
    return a.posonlyargs + a.args + a.kwonlyargs


def defaults_of(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = {}
    for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[x.arg] = v
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[x.arg] = v
    return d


def contexts(proj, f, main_params=None):
    """Alternative abstract argument bindings of an entry point.  Log-like parameters with a
    Union annotation are split into one context per alternative; everything else is joined."""
    a = f.node.args
    dfl = defaults_of(f)
    base, splits = {}, []
    for x in params_of(f):
        ks = ann_kinds(proj, f.mod, x.annotation)
        if ks is None:
            dk = default_kinds(dfl.get(x.arg))
            base[x.arg] = entry_value(x.arg, dk)
            continue
        ks = [k for k in ks if k != frozenset(["none"])] or ks
        heavy = [k for k in ks if k is not None and (k & DF or any(q.startswith("cls:") for q in k))]
        if len(ks) > 1 and len(heavy) >= 1 and len(ks) <= 5:
            splits.append((x.arg, ks))
        else:
            if any(k is None for k in ks):
                base[x.arg] = entry_value(x.arg, None)
            else:
                base[x.arg] = entry_value(x.arg, frozenset().union(*ks))
    ctxs = [("", dict(base))]
    for nm, ks in splits[:2]:
        new = []
        for lab, b in ctxs:
            for k in ks:
                c = dict(b)
                c[nm] = entry_value(nm, k)
                new.append((lab + ("," if lab else "") + "%s=%s" % (nm, _kname(k)), c))
        ctxs = new
    for nm, ks in splits[2:]:
        for lab, c in ctxs:
            c[nm] = entry_value(nm, None if any(k is None for k in ks) else frozenset().union(*ks))
    if a.vararg:
        new = []
        va = a.vararg.arg
        for sh in _shape_of(proj, f):
            for lab, b in ctxs:
                c = dict(b)
                if sh is None:
                    c[va] = mk(frozenset(["tuple"]), None, E, E, frozenset([va]), E, E, {("e",): entry_value(va, None)})
                    l2 = lab
                else:
                    c[va] = mk(frozenset(["tuple"]), None, E, E, E, E, E,
                               {("i", i): entry_value("%s%d" % (va, i), k) for i, k in enumerate(sh)}, True)
                    l2 = lab + ("," if lab else "") + "%s=(%s)" % (va, " ".join(_kname(k) for k in sh))
                new.append((l2, c))
        ctxs = new
    if a.kwarg:
        for lab, c in ctxs:
            c[a.kwarg.arg] = mk(frozenset(["dict"]), None, E, frozenset([("A:kwentry", "")]), frozenset([a.kwarg.arg]),
                                frozenset([("P:" + a.kwarg.arg, "[]")]))
    return ctxs


ALLBOOL = False      # also options that are only annotated as bool (their default is a named constant)


def option_values(f):
    """option parameters of an entry and the constant values that select between its behaviours"""
    dfl = defaults_of(f)
    out = {}
    names = {x.arg for x in params_of(f)}
    for n, d in dfl.items():
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            out[n] = [True, False]
    for x in params_of(f) if ALLBOOL else ():
        if isinstance(x.annotation, ast.Name) and x.annotation.id == "bool":
            out[x.arg] = [True, False]
    for x in ast.walk(f.node):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.left, ast.Name) and x.left.id in names:
            c = x.comparators[0]
            vals = []
            if isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and isinstance(c, ast.Constant) and isinstance(c.value, str):
                vals = [c.value]
            elif isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List, ast.Set)):
                vals = [y.value for y in c.elts if isinstance(y, ast.Constant) and isinstance(y.value, str)]
            for v in vals:
                if v not in out.setdefault(x.left.id, []):
                    out[x.left.id].append(v)
    # the values known to select behaviours, however the function tests for them today
    for n, vals in _known_values().get(f.id, {}).items():
        if n in names:
            for v in vals:
                if v not in out.setdefault(n, []):
                    out[n].append(v)
    return out


_kv = None


def _known_values():
    global _kv
    if _kv is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "optvals.json")
        _kv = json.load(open(p)) if os.path.exists(p) else {}
    return _kv


def option_contexts(proj, f):
    """the contexts of an entry refined by one option value at a time; the label also lists the value"""
    res = []
    for lab, b in contexts(proj, f):
        for nm, vals in sorted(option_values(f).items()):
            if nm not in b:
                continue
            for v in vals:
                c = dict(b)
                c[nm] = tainted(const(v), frozenset([nm]))
                res.append((lab + ("," if lab else "") + "%s=%r" % (nm, v), c))
    return res


def run_entry(I, f, binding):
    """plain (path-joined) run of an entry; returns its summary"""
    st = State(None, f.mod, None, None)
    e = ast.parse("f()").body[0].value
    key_args = binding
    I._apply(("entry", f.id), f, f.node, f.mod, f.cls, dict(binding), {}, [], e, {}, st, [], {}, {})
    for k, s in I.memo.items():
        pass
    ctx = tuple((n, binding[n].n) for n in sorted(binding))
    return I.memo[(("entry", f.id), ctx)]


META_FIELDS = (("attributes", "_attributes"), ("extensions", "_extensions"), ("omni_present", "_omni"),
               ("classifiers", "_classifiers"), ("properties", "_properties"))
LOGS = ("cls:" + LOGCLS + "EventLog", "cls:" + LOGCLS + "EventStream")
META = {LOGCLS + "EventLog": META_FIELDS, LOGCLS + "EventStream": META_FIELDS,
        LOGCLS + "Trace": (("attributes", "_attributes"),)}


def meta_binding(b):
    """the same arguments, where the metadata of a log is told apart from the rest of the log"""
    out, n = {}, 0
    for k, v in b.items():
        if k == "log" and v.kinds is None:
            v = with_(v, kinds=frozenset(LOGS[:1]))
        if v.kinds is not None and v.kinds and v.kinds <= frozenset(LOGS):
            n += 1
            f = {}
            for kw, fld in META_FIELDS:
                f[("a", fld)] = mk(frozenset(["dict"]), None, E, frozenset([("P:" + k, "." + fld)]), frozenset(["@" + kw]), E, frozenset(["@" + kw]))
            v = with_(v, fields={**v.fdict, **f})
        out[k] = v
    return out if n else None


def meta_facts(v, depth=3, seen=None):
    """[(kind, {metadata field: labels or None})] for every log (and the traces) inside a value"""
    out = []
    if v.kinds is not None and v.kinds & frozenset(LOGS):
        d = {}
        for kw, fld in META_FIELDS:
            x = v.field(("a", fld))
            d[kw] = None if x is None else sorted(x.alltaint)
        out.append(("log", sorted(v.kinds), d, sorted(v.selfr)[:3]))
        ls = v.field(("a", "_list"))
        el = ls.field(("e",)) if ls is not None else None
        for t in (el, v.field(("e",))):
            if t is not None and t.kinds is not None and "cls:" + LOGCLS + "Trace" in t.kinds:
                x = t.field(("a", "_attributes"))
                out.append(("trace", sorted(t.kinds), {"attributes": None if x is None else sorted(x.alltaint)}, sorted(t.selfr)[:3]))
        return out
    if depth:
        for k, x in v.fields:
            out += meta_facts(x, depth - 1)
    return out


TABLES = ("events", "objects", "relations", "o2o", "e2e", "object_changes")
OCEL_PKGS = ("pm4py.filtering", "pm4py.ocel", "pm4py.algo.filtering.ocel.", "pm4py.algo.transformation.ocel.split_ocel.",
             "pm4py.objects.ocel.util.")


def ocel_functions(proj):
    """public functions of the object-centric filters and transformations that take an object-centric log"""
    out = []
    for f in proj.funcs.values():
        m = f.mod.name
        if f.cls is None and "." not in f.qual and not f.node.name.startswith("_") and any(m == p.rstrip(".") or p.endswith(".") and m.startswith(p) for p in OCEL_PKGS):
            ps = [x.arg for x in params_of(f)]
            if "ocel" in ps and "variant" not in ps:
                out.append(f)
    return out


def ocel_binding(b):
    """the same arguments, where the tables and the identifier columns of the object-centric log are told apart"""
    out = {}
    for k, v in b.items():
        if k == "ocel":
            f = {("a", t): mk(DF, None, E, frozenset([("P:" + k, "." + t)]), frozenset(["T:" + t, "#ct:" + t])) for t in TABLES}
            for a, c in (("event_id_column", "#c:eid"), ("object_id_column", "#c:oid")):
                f[("a", a)] = mk(frozenset(["str"]), None, E, E, frozenset(["#c1", c]))
            v = mk(frozenset([OC]), None, E, v.selfr, E, E, E, f)
        out[k] = v
    return out


def _part(root, path, kinds, lab=None, **fields):
    f = {("e",) if k == "e" else ("a", k): v for k, v in fields.items()}
    return mk(frozenset(kinds), None, E, frozenset([(root, path)]), frozenset(["#cA:" + lab]) if lab else E, E, E, f)


def _seq(root, path, kind, el):
    return mk(frozenset([kind]), None, E, frozenset([(root, path)]), E, E, E, {("e",): el})


def content_of(k, v):
    """the argument with its parts told apart, by what it is"""
    if v.kinds == frozenset(["tuple"]) and any(kk[0] == "i" for kk, _ in v.fields):
        return with_(v, fields={kk: content_of("%s %d" % (k, kk[1]) if kk[0] == "i" else k, x) for kk, x in v.fields})
    r = "P:" + k
    D, S = ["dict"], ["str", "none"]
    pn = "cls:pm4py.objects.petri_net.obj:PetriNet"
    if v.kinds is not None and v.kinds <= frozenset(LOGS) and v.kinds:
        ev = _part(r, "._list.e._list.e", ["cls:" + LOGCLS + "Event"], None, _dict=_part(r, "._list.e._list.e._dict", D, "event attributes"))
        el = ev
        if LOGS[0] in v.kinds:
            es = _seq(r, "._list.e._list", "list", ev)
            el = _part(r, "._list.e", ["cls:" + LOGCLS + "Trace"], None, e=ev, _list=es, _attributes=_part(r, "._list.e._attributes", D, "trace attributes"))
        f = {("a", fld): _part(r, "." + fld, D, "log " + kw) for kw, fld in META_FIELDS}
        f.update({("a", "_list"): _seq(r, "._list", "list", el), ("e",): el})
        return with_(v, fields={**v.fdict, **f})
    if v.kinds is not None and pn in v.kinds:
        pl = _part(r, ".__places.e", [pn + ".Place"], None, __name=_part(r, ".__places.e.__name", S, "place name"),
                   __properties=_part(r, ".__places.e.__properties", D, "place properties"))
        tr = _part(r, ".__transitions.e", [pn + ".Transition"], None, __name=_part(r, ".__transitions.e.__name", S, "transition name"),
                   __label=_part(r, ".__transitions.e.__label", S, "transition label"),
                   __properties=_part(r, ".__transitions.e.__properties", D, "transition properties"))
        ar = _part(r, ".__arcs.e", [pn + ".Arc"], None,
                   __source=_part(r, ".__arcs.e.__source", [pn + ".Place", pn + ".Transition"], "arc source"),
                   __target=_part(r, ".__arcs.e.__target", [pn + ".Place", pn + ".Transition"], "arc target"),
                   __weight=_part(r, ".__arcs.e.__weight", ["num"], "arc weight"),
                   __properties=_part(r, ".__arcs.e.__properties", D, "arc properties"))
        f = {("a", "__name"): _part(r, ".__name", S, "net name"), ("a", "__places"): _seq(r, ".__places", "set", pl),
             ("a", "__transitions"): _seq(r, ".__transitions", "set", tr), ("a", "__arcs"): _seq(r, ".__arcs", "set", ar)}
        return with_(v, fields={**v.fdict, **f})
    return with_(v, taint=v.taint | {"#cF"} if k in ("file_path", "objects_path") else v.taint | {"#cA:" + k})


CONTENT_KIND = {"log": LOG_EL, "petri_net": NET, "process_tree": TREE, "bpmn": BPMN_, "ocel": _C("pm4py.objects.ocel.obj:OCEL")}


def content_functions(proj):
    """[(function, role)] of everything that puts objects into files or strings, or builds them from files or strings"""
    out = []
    for f in proj.funcs.values():
        n = f.node.name
        if f.cls is not None or "." in f.qual or n.startswith("_") or "rustxes" in f.mod.name:
            continue
        if f.mod.name in ("pm4py.read", "pm4py.write") or f.mod.name == "pm4py.utils" and n in ("serialize", "deserialize"):
            out.append(f)
        elif f.mod.name.startswith("pm4py.objects.") and (".importer." in f.mod.name or ".exporter." in f.mod.name) and ".variants." in f.mod.name and \
                (n in ("apply", "get_xml_string", "export_net", "import_net", "import_log") or n.endswith(("as_string", "from_string"))):
            out.append(f)
    return out


def content_binding(b, f):
    """the same arguments, where the parts of an object, and what is read from a file or string, are told apart"""
    m = f.mod.name
    if ".variants." not in m:
        b = {k: content_of(k, v) for k, v in b.items()}
        if f.node.name == "deserialize":
            b = {k: with_(v, taint=v.taint | {"#cF"}, ctaint=v.ctaint | {"#cF"}) for k, v in b.items()}
        return b
    pk = m.split(".")[2]
    out = dict(b)
    for i, x in enumerate(params_of(f)):
        v = b.get(x.arg)
        if v is None or x.arg == "parameters":
            continue
        if ".importer." in m:
            if i == 0 or x.arg == "objects_path":
                out[x.arg] = with_(v, taint=v.taint | {"#cF"})
            continue
        k = CONTENT_KIND.get(pk) if i == 0 else MARK if pk == "petri_net" and i in (1, 2, 3) and v.kinds is None and "marking" in x.arg else None
        if i == 0 or k is not None:
            v = entry_value(x.arg, k) if k is not None else v
            c = content_of(x.arg, v)
            out[x.arg] = with_(c, taint=frozenset(t for t in c.taint if t[:4] != "#cA:") | {"#cA:argument %d" % i})
    return out


def content_facts(v, depth=2, path=""):
    """{path: labels of the content} for what a reader returns"""
    out = {path: sorted(x for x in v.alltaint if x[:3] in ("#cF", "#cR") or x[:5] == "#cf:[")}
    if depth:
        for k, x in v.fields:
            out.update(content_facts(x, depth - 1, path + "." + str(k[-1])))
    return out


def ocel_facts(v, depth=3):
    """[{table: labels}] for every object-centric log inside a value"""
    out = []
    if v.kinds is not None and OC in v.kinds:
        d = {}
        for t in TABLES:
            x = v.field(("a", t))
            d[t] = None if x is None else sorted(x.alltaint)
        return [(d, sorted(v.selfr)[:3])]
    if depth:
        for k, x in v.fields:
            out += ocel_facts(x, depth - 1)
    return out


def shift_sites(proj):
    """(module, function or None, line) of every call that moves the rows of a table against each other"""
    out = []
    for m in proj.modules.values():
        if "import polars" in m.src:
            continue        # an optional library with another semantics
        if ".shift(" in m.src or ".diff(" in m.src or ".pct_change(" in m.src:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("shift", "diff", "pct_change"):
                    out.append((m, n.lineno))
    return out


def position_sites(proj):
    """every call that takes rows that lie together for the rows of one case"""
    out = shift_sites(proj)
    for m in proj.modules.values():
        if "return_index" in m.src:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and any(k.arg == "return_index" for k in n.keywords):
                    out.append((m, n.lineno))
    return out


def shift_functions(proj, sites=shift_sites):
    """the simplified interface, and the functions that pair rows by position outside of what it reaches: the callers,
    within their module, of the functions that do so"""
    api = api_functions(proj)
    out = {f.id: f for f in api}
    for m, line in sites(proj):
        fs = [f for f in proj.funcs.values() if f.mod is m]
        names = {f.node.name: f for f in fs}
        users = {}
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id in names and names[n.id] is not f:
                    users.setdefault(n.id, set()).add(f.node.name)
        work = [f.node.name for f in fs if f.node.lineno <= line <= f.node.end_lineno]
        seen = set()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            up = users.get(n, set()) - seen
            if up:
                work += up
            elif names[n].id not in out and (sites is not shift_sites or not names[n].mod.name.startswith("pm4py.util")):
                out[names[n].id] = names[n]
    return list(out.values())


def shift_binding(b):
    out, n = {}, 0
    for k, v in b.items():
        if k in ("df", "dataframe", "log", "log_obj") and v.kinds is None:
            v = with_(v, kinds=DF)
        if v.kinds is not None and v.kinds & DF:
            n += 1
            v = tainted(v, frozenset(["#cU", "#cE"]))
        if k in ("case_id_key", "case_id_glue", "case_id"):
            v = tainted(v, frozenset(["#cK"]))
        out[k] = v
    return out if n else None


def gather_binding(b):
    """the settings that tell a function that its table is sorted already are left at their default"""
    b = shift_binding(b)
    if b is not None:
        b = {k: const(True) if k.startswith("sort_") else NONE if k == "parameters" else v for k, v in b.items()}
        b = {k: const("case:concept:name") if k == "df_glue" else const("time:timestamp") if k == "df_sorting_criterion_key" else v for k, v in b.items()}
    return b


# the attribute names that a caller chooses: a value of its own, so that "the chosen one or the standard one" stays visible
NAMED = ("activity_key", "timestamp_key", "case_id_key", "resource_key", "start_timestamp_key")


def size_binding(b):
    return {k: tainted(v, frozenset(["#cev"])) if v.kinds == DF else v for k, v in b.items()}


def std_binding(b):
    return {k: with_(v, consts=frozenset([("str", "\0" + k)])) if k in NAMED and v.kinds == frozenset(["str"]) else v for k, v in b.items()}


def shape(v, depth=4):
    """the kinds of a value and of what it holds: (kinds or None, ((field, shape), ...), all fields known)"""
    return (v.kinds, tuple((k, shape(x, depth - 1)) for k, x in v.fields) if depth else (), v.closed)


def annotated_functions(proj):
    """the public functions below the simplified interface whose signature says what they return"""
    api = {f.id for f in api_functions(proj)}
    return [f for f in proj.funcs.values() if isinstance(f.node, ast.FunctionDef) and f.cls is None and "." not in f.qual and f.node.returns is not None
            and not f.node.name.startswith("_") and f.id not in api]
