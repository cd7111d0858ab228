"""C25: public functions return the kind of result that their signature announces."""
import ast

from sa import apirun

NUM = frozenset(["num", "bool"])
CONT = {"List": "list", "list": "list", "Dict": "dict", "dict": "dict", "Set": "set", "set": "set", "Counter": "dict", "TCounter": "dict",
        "Generator": "list", "Iterator": "list", "Iterable": None, "Collection": None, "FrozenSet": "set", "Sequence": None}


def union(*ts):
    out = []
    for t in ts:
        if t == "any":
            return "any"
        out += t[1:] if t[0] == "or" else [t]
    return ("or",) + tuple(out)


def announced(P, mod, a):
    """annotation -> 'any' | ('or', alternative...) where an alternative is (kind, detail)"""
    if a is None:
        return "any"
    if isinstance(a, ast.Constant):
        if a.value is None:
            return ("or", ("none", None))
        if isinstance(a.value, str):
            try:
                return announced(P, mod, ast.parse(a.value, mode="eval").body)
            except SyntaxError:
                return "any"
        return "any"
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return union(announced(P, mod, a.left), announced(P, mod, a.right))
    if isinstance(a, ast.Subscript):
        base = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        elts = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
        if base == "Union":
            return union(*[announced(P, mod, x) for x in elts])
        if base == "Optional":
            return union(("or", ("none", None)), *[announced(P, mod, x) for x in elts])
        if base in ("Tuple", "tuple"):
            if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                return ("or", ("tuple", None))
            if len(elts) == 1:
                return ("or", ("tuple", None))      # Tuple[str] is commonly written for tuples of any length
            return ("or", ("tuple", tuple(announced(P, mod, x) for x in elts)))
        if base in CONT and CONT[base]:
            if base in ("Generator", "Iterator"):
                return ("or", ("list", announced(P, mod, elts[0])))
            if CONT[base] == "dict":
                return ("or", ("dict", tuple(announced(P, mod, x) for x in elts) if len(elts) == 2 else "any"))
            return ("or", (CONT[base], announced(P, mod, elts[0])))
        return "any"
    n = a.attr if isinstance(a, ast.Attribute) else getattr(a, "id", None)
    if n in ("int", "float"):
        return ("or", ("num", None))
    if n in ("str", "bool", "tuple", "bytes"):
        return ("or", (n, None))
    if n in CONT and CONT[n]:
        return ("or", (CONT[n], "any"))
    r = P.resolve_expr_static(mod, a)
    if r is None:
        return "any"
    if r[0] == "ext":
        return ("or", ("df", None)) if r[1].split(".")[-1] == "DataFrame" else "any"
    if r[0] == "class":
        return ("or", (("enum:" if P.is_enum(r[1]) else "cls:") + r[1].id, None))
    if r[0] == "expr" and r[2] and isinstance(r[2][0], (ast.Subscript, ast.Name, ast.Attribute)):
        return announced(P, r[1], r[2][0])
    return "any"


def supers(P, kind):
    c = P.classes.get(kind[4:])
    return {kind} | ({"cls:" + k.id for k in P.mro(c) if hasattr(k, "id")} if c is not None else set())


def show(t):
    if t == "any":
        return "anything"
    return " or ".join((k[4:].split(":")[-1] if k[:4] == "cls:" else {"df": "dataframe", "none": "None", "num": "number"}.get(k, k)) for k, _ in t[1:])


def name(k):
    return show(("or", (k, None)))


class Compare:
    def __init__(self, P):
        self.P = P
        self.decided = self.unknown = 0

    def diff(self, sh, t, path=""):
        """-> the mismatches of a shape with what is announced"""
        if t == "any":
            return []
        kinds, fields, closed = sh
        if kinds is None or "pd" in kinds and not kinds - {"pd"}:
            self.unknown += 1
            return []
        self.decided += 1
        out = []
        alts = t[1:]
        ok = {a for a, _ in alts}
        for k in sorted(kinds):
            if k in ok or (k == "pd" and ok & {"df", "num", "list", "dict"}) or (k == "bool" and "num" in ok) or (k[:4] == "cls:" and supers(self.P, k) & ok):
                continue
            out.append((path, k, show(t)))
        # look inside where only one container is meant
        if len(kinds) == 1:
            k = next(iter(kinds))
            inner = [d for a, d in alts if a == k]
            if len(inner) == 1 and inner[0] not in (None, "any"):
                d = inner[0]
                fs = dict(fields)
                if k == "tuple":
                    ix = sorted(f[1] for f in fs if f[0] == "i")
                    if ("e",) not in fs and ix and ix == list(range(len(ix))):
                        if len(ix) != len(d):
                            out.append((path, "tuple of %d" % len(ix), "a tuple of %d" % len(d)))
                        else:
                            for i in ix:
                                out += self.diff(fs[("i", i)], d[i], "%s[%d]" % (path, i))
                elif k == "dict":
                    for f, s in fields:
                        out += self.diff(s, d[0] if f == ("kk",) else d[1], path + (" key" if f == ("kk",) else "[...]"))
                else:
                    for f, s in fields:
                        if f != ("kk",):
                            out += self.diff(s, d, path + "[...]")
        return out


# what a signature does not say although it is meant: (function, path, kind) -> why
REVIEWED = {
    ("pm4py.analysis:solve_marking_equation", "", "none"): "the equation has no solution",
    ("pm4py.analysis:solve_extended_marking_equation", "", "none"): "the equation has no solution",
    ("pm4py.conformance:conformance_declare", "", "df"): "return_diagnostics_dataframe",
    ("pm4py.conformance:conformance_diagnostics_alignments", "", "df"): "return_diagnostics_dataframe",
    ("pm4py.conformance:conformance_diagnostics_token_based_replay", "", "df"): "return_diagnostics_dataframe",
    ("pm4py.conformance:conformance_diagnostics_token_based_replay", "", "tuple"): "statistics of the places asked for in opt_parameters",
    ("pm4py.conformance:conformance_log_skeleton", "", "df"): "return_diagnostics_dataframe",
    ("pm4py.conformance:conformance_temporal_profile", "", "df"): "return_diagnostics_dataframe",
    ("pm4py.read:read_pnml", "[2]", "none"): "the file has no final marking and none is to be guessed (warned about)",
    ("pm4py.read:read_xes", "", "none"): "a file without a log element",
    ("pm4py.read:read_xes", "", "cls:pm4py.objects.log.obj:EventStream"): "joined by the analysis with a conversion that the reader does not ask for",
    ("pm4py.sim:play_out", "", "list"): "parameters of the algorithm that ask for the visited elements",
    ("pm4py.sim:play_out", "", "set"): "parameters of the algorithm that ask for strings",
    ("pm4py.sim:play_out", "", "dict"): "parameters of the algorithm that ask for variants",
    ("pm4py.sim:play_out", "", "none"): "an interrupted playout of which only the complete result was asked for",
    ("pm4py.utils:parse_powl_model_string", "", "none"): "a blank string",
    # algorithm layer
    ("pm4py.algo.conformance.alignments.process_tree.util.search_graph_pt_replay_semantics:can_close", "", "none"): "no further operator exists",
    ("pm4py.algo.discovery.dfg.algorithm:apply", "", "cls:pm4py.objects.dfg.obj:DirectlyFollowsGraph"): "the variants for typed graphs",
    ("pm4py.algo.evaluation.algorithm:apply", "[...]", "dict"): "the fitness is a dictionary",
    ("pm4py.algo.simulation.playout.dfg.variants.classic:apply", "", "none"): "the same",
    ("pm4py.algo.transformation.log_to_features.algorithm:apply", "", "df"): "the temporal variant",
    ("pm4py.algo.transformation.log_to_features.variants.trace_based:get_numeric_event_attribute_value", "", "none"): "no value",
    ("pm4py.objects.petri_net.saw_net.convert:convert_saw_net_to_stochastic_net_global_semantics", "", "tuple"): "with the markings",
    ("pm4py.objects.powl.parser:parse_powl_model_string", "", "none"): "a blank string",
    ("pm4py.statistics.attributes.pandas.get:get_kde_numeric_attribute", "", "list"): "x and y values",
    ("pm4py.util.compression.util:compress_multivariate", "[1]", "dict"): "the lookup table by attribute",
    ("pm4py.util.lp.variants.scipy_solver:get_points_from_sol", "", "none"): "no solution",
    ("pm4py.util.lp.variants.scipy_solver:get_prim_obj_from_sol", "", "none"): "no solution",
    ("pm4py.visualization.footprints.visualizer:apply", "", "none"): "unknown variant",
    ("pm4py.algo.simulation.playout.dfg.variants.performance:dict_based_choice", "", "none"): "nothing to choose from",
    ("pm4py.algo.querying.llm.abstractions.log_to_variants_descr:compute_perf_aggregation", "", "none"): "no aggregation asked for (tested by the caller)",
    ("pm4py.algo.discovery.dfg.algorithm:apply", "", "tuple"): "the variants that give the start and end activities too",
    ("pm4py.algo.discovery.footprints.log.variants.trace_by_trace:apply", "", "list"): "one per trace",
    ("pm4py.algo.discovery.performance_spectrum.variants.dataframe:apply", "", "list"): "the segments, put in the dictionary by the dispatcher",
    ("pm4py.algo.discovery.performance_spectrum.variants.dataframe_disconnected:apply", "", "list"): "the same",
    ("pm4py.algo.discovery.performance_spectrum.variants.log:apply", "", "list"): "the same",
    ("pm4py.algo.discovery.performance_spectrum.variants.log_disconnected:apply", "", "list"): "the same",
}
LOGLIKE = {"EventLog": "cls:pm4py.objects.log.obj:EventLog", "df": "df"}
# the parts of the algorithm layer whose signatures are kept up to date
LOWER = ("pm4py.algo.filtering.", "pm4py.algo.organizational_mining.", "pm4py.algo.transformation.", "pm4py.algo.evaluation.", "pm4py.statistics.",
         "pm4py.objects.", "pm4py.util.", "pm4py.algo.discovery.")
SLOW = ("pm4py.algo.discovery.heuristics.", "pm4py.algo.evaluation.replay_fitness.")      # reached from the simplified interface too


def c25(ctx):
    from sa import entries as EN
    P, rs = apirun.run(options=True, mode="kinds")
    ctx._P = P
    ctx.rule("in every context (input representation, option value, unknown option value) a function whose signature announces what it returns gives that kind of "
             "value, inside tuples and containers too; where it announces both an event log and a dataframe it gives the one that it was given; "
             "no function that announces a result runs off its end")
    ctx.assume("annotations of nested functions and of elements that the analysis cannot type are not compared; reviewed list of results that the signature omits")
    low = [f for f in EN.annotated_functions(P) if f.id.startswith(LOWER) and (ctx.tier == "thorough" or not f.id.startswith(SLOW))]
    ids = {f.id for f in low}
    rs = rs + apirun.run(options=False, mode="kinds-low", only=lambda f: f.id in ids)[1]
    C = Compare(P)
    asked, falls = set(), {}
    for r in rs:
        f = P.funcs[r.fid]
        for e in r.events:
            if e[0] == "fall":
                falls.setdefault(e[1], r)
        t = announced(P, f.mod, f.node.returns)
        if t == "any" or t == ("or", ("none", None)):
            continue
        asked.add(r.fid)
        names = {a for a, _ in t[1:]}
        for lab, k in LOGLIKE.items():
            first = r.label.split(",")[0]
            if first.partition("=")[2] == lab and k in names and len(names & (set(LOGLIKE.values()) | set(EN.LOGS))) > 1:
                t = ("or",) + tuple(x for x in t[1:] if x[0] == k or x[0] not in set(LOGLIKE.values()) | set(EN.LOGS))
        n = C.decided
        bad = [d for d in C.diff(r.meta, t) if (r.fid, d[0], d[1]) not in REVIEWED]
        for path, k, want in bad:
            ctx.bad("%s|%s|%s" % (r.fid, path, k), f.loc, "%s(%s) can return %s%s where its signature announces %s" %
                    (r.fid, r.label, name(k) if k in ("none", "df") or k[:4] == "cls:" else "a " + name(k), " (at %s)" % path if path else "", want), entry=r.fid, context=r.label)
        if C.decided > n and not bad:
            ctx.ok("%s [%s]: %s" % (r.fid, r.label, show(t)), C.decided - n)
    for g, r in sorted(falls.items()):
        f = P.funcs.get(g)
        if f is None or f.node.returns is None:
            continue
        t = announced(P, f.mod, f.node.returns)
        if t != "any" and any(a == "none" for a, _ in t[1:]):
            continue
        if (g, "", "none") in REVIEWED or "Optional" in ast.unparse(f.node.returns):
            ctx.ok()
            continue
        ctx.bad("%s||none" % g, f.loc, "%s announces a result (%s) but can run off its end and return None (seen from %s(%s))" %
                (g, ast.unparse(f.node.returns), r.fid, r.label), entry=r.fid, context=r.label)
    ctx.count("entry contexts", len(rs))
    ctx.count("functions whose announced result was compared", len(asked))
    ctx.count("values and components whose kind was decided", C.decided)
    ctx.count("values and components whose kind is not known to the analysis", C.unknown)
    ctx.need(C.decided >= 1200 and len(asked) >= 500, "only %d components of %d functions could be compared" % (C.decided, len(asked)))
