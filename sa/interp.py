"""Context-sensitive abstract interpreter over the Python syntax tree of the
analysed project: aliasing roots (which caller-visible object a value is, or
lies inside), may-taint (which entry parameters can influence a value, through
data and control), literal constants, enum/variant dispatch and option
dictionaries.  Nothing of the project is executed."""
import ast
from .values import *
from .project import AnalysisBroken, resolve_from, PKG

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "add", "discard",
            "update", "setdefault", "intersection_update", "difference_update", "symmetric_difference_update",
            "appendleft", "popleft", "extendleft", "subtract", "__setitem__", "__delitem__", "put", "move_to_end",
            "rotate", "add_node", "add_edge", "remove_node", "remove_edge", "add_edges_from", "add_nodes_from",
            "remove_edges_from", "remove_nodes_from", "__iadd__"}
ADDERS = {"append", "add", "appendleft", "insert", "put", "extend", "update", "extendleft", "setdefault",
          "add_node", "add_edge", "add_edges_from", "add_nodes_from", "__setitem__", "__iadd__"}
DF_MUTATORS = {"insert", "pop", "update", "__setitem__", "__delitem__"}
DF_KEEP = {"sort_values", "sort_index", "copy", "reset_index", "set_index", "drop", "dropna", "fillna", "merge",
           "rename", "drop_duplicates", "head", "tail", "sample", "astype", "join", "replace", "assign", "query",
           "to_frame", "explode", "melt", "convert_dtypes", "infer_objects", "where", "mask", "nlargest", "first", "last",
           "agg", "pivot", "pivot_table", "isin", "iloc", "loc", "transpose", "select_dtypes", "filter"}
PART_METHODS = {"get", "pop", "popitem", "popleft", "values", "items", "keys", "setdefault", "__getitem__", "nodes",
                "edges", "elements", "most_common", "__iter__", "iter", "getroot", "find", "findall", "result",
                "predecessors", "successors", "neighbors", "subgraph"}
VIEW_ATTRS = {"loc", "iloc", "at", "iat", "values", "index", "columns", "str", "dt", "T", "array"}
EXT_ARG_MUTATORS = {"heapq.heappush": 0, "heapq.heapify": 0, "heapq.heappop": 0, "heapq.heapreplace": 0,
                    "heapq.heappushpop": 0, "bisect.insort": 0,
                    "bisect.insort_left": 0, "bisect.insort_right": 0, "random.shuffle": 0, "numpy.random.shuffle": 0,
                    "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.copyto": 0, "operator.setitem": 0,
                    "operator.delitem": 0}
NP_ASARRAY = {"numpy.asarray", "numpy.asanyarray"}


# row restrictions (mode "rows"): a table that was restricted to the rows where a condition holds carries the
# label of that condition, "R:<condition>" ("R:<condition>@2" when the condition is on the second
# identifier of a link table); a column remembers which identifier it holds ("#c:...")
SECOND = frozenset([("str", "_2")])
COL_FIRST, COL_SECOND = frozenset(["#c1"]), frozenset(["#c2"])


def _isr(x):
    return x[:2] == "R:"


def rows_column(b, k):
    t = frozenset(x for x in b.alltaint if x[:2] not in ("#c", "W:"))
    ck = {x for x in k.alltaint if x[:2] == "#c"}
    if k.consts is not None:
        for c in k.consts:
            ck.add("#c2" if str(c[1]).endswith("_2") else "#c1")
    ck |= {"#cp:" + x[4:] for x in b.alltaint if x[:4] == "#ct:"}
    return mk(frozenset(["pd"]), None, E, E, t | ck | {x for x in k.alltaint if not _isr(x)})


def rows_mask(col, ids, what, member):
    """the condition that the values of a column are among ids (member), or another condition on the column"""
    base = frozenset(x for x in col.alltaint if x[:2] != "#c")
    own = frozenset(x for x in ids.alltaint if x[:2] != "#c" or x in ("#c:eid", "#c:oid"))
    lab = ",".join(sorted(own - base if not member else own))
    if len(lab) > 100:
        import hashlib
        lab = hashlib.md5(lab.encode()).hexdigest()
    # the whole column of a table: that table itself meets the condition
    proj = sorted(x[4:] for x in ids.alltaint if x[:4] == "#cp:") if member else ()
    lab = "R:%s<%s>[%s]" % (what, ",".join(proj), lab)
    ck = col.alltaint
    if member:
        a, b = ck & KINDS_OF_ID, ids.alltaint & KINDS_OF_ID
        if a and b and not a & b:
            return mk(frozenset(["pd"]), None, E, E, base | {"R:other-identifier:" + lab[2:]})
    first, second = "#c2" not in ck or "#c1" in ck, "#c2" in ck
    new = {lab} | ({x for x in ids.alltaint if _isr(x)} if member else set())
    out = set(base) | {x for x in ids.alltaint if not _isr(x) and x[:2] != "#c"}
    if first:
        out |= new
    if second:
        out |= {x if x.endswith("@2") else x + "@2" for x in new}
    return mk(frozenset(["pd"]), None, E, E, frozenset(out))


KINDS_OF_ID = frozenset(["#c:eid", "#c:oid"])


def rows_rewritten(k):
    """labels of a table whose identifier column is written anew"""
    out = set()
    ks = k.alltaint & KINDS_OF_ID
    for x in ks:
        if "#c2" in k.alltaint:
            out.add("W:" + x[3:] + "@2")
        if "#c1" in k.alltaint:
            out.add("W:" + x[3:])
    for c in k.consts or ():
        if c[1] in ("ocel:eid", "ocel:oid", "ocel:eid_2", "ocel:oid_2"):
            out.add("W:" + c[1][5:8] + ("@2" if c[1].endswith("_2") else ""))
    return frozenset(out)


OR_PARTS = {}


def rows_not(v):
    lab = set()
    for x in v.alltaint:
        lab |= OR_PARTS.get(x, {x})       # not (a or b): neither a nor b
    return mk(frozenset(["pd"]) if v.kinds is None or v.kinds & PANDAS else v.kinds, None, E, E,
              frozenset((("R:!" + x[2:]) if not x.startswith("R:!") else "R:" + x[3:]) if _isr(x) else x for x in lab))


# rows paired by position (mode "shift"): what .shift(n) of an ungrouped table returns carries "S:n" until the rows are
# restricted to those where the case identifier equals its shifted counterpart; "#cK" marks the case
# identifier's name and column, "#cG" rows grouped by it, "#cB:S:n" the comparison of the two
def shift_key(k):
    return "#cK" in k.alltaint or bool(k.consts) and any(str(c[1]).startswith(("case:concept:name", "@@case_index")) for c in k.consts)


def shift_column(b, k):
    t = frozenset(x for x in b.alltaint if x[:3] not in ("#cK", "#cB", "#cN")) | frozenset(x for x in k.alltaint if x[:2] != "#c")
    case = shift_key(k)
    if k.consts is not None and any("#cS:" + str(c[1]) in t for c in k.consts):
        case = True         # a column the moved case identifier was stored in
    named = {x for x in t if x[:2] == "S:" and "@" in x}
    if named:
        # columns renamed with a suffix: only those with the suffix hold moved rows
        sfx = {"@" + x[4:] for x in k.alltaint if x[:4] == "#sx:"}
        drop = {x for x in named if x[x.index("@"):] not in sfx}
        t = t - drop
    return mk(frozenset(["pd"]), None, E, E, frozenset(x for x in t if x[:4] != "#sx:") | ({"#cK"} if case else set()))


def shift_moves(t):
    return {(x.split(" at ")[0], x.split(" at ")[1].rpartition(":")[0]) for x in t}


def shift_compare(l, r, t, same):
    """comparison of two columns: "#cB:" is true on the rows whose partner is in the same case, "#cN:" on the others"""
    s = {x for x in t if x[:2] == "S:"}
    if "#cK" in l.alltaint and "#cK" in r.alltaint and s:
        t = (frozenset(t) - s) | {("#cB:" if same else "#cN:") + x for x in s}
    return frozenset(x for x in t if x != "#cK" and x[:4] != "#sx:")


def shift_checked(t, mark="#cB:"):
    """labels of a value that a comparison of the case identifiers takes part in"""
    done = shift_moves(x[4:] for x in t if x[:4] == mark)
    return frozenset(x for x in t if not (x[:2] == "S:" and shift_moves([x]) <= done)) if done else t


# on rows grouped by case: one row per case, which pairs of cases may then be made of
ROW_PER_CASE = frozenset(["first", "last", "min", "max", "mean", "sum", "median", "agg", "aggregate", "size", "count", "nunique", "reset_index",
                          "sort_values", "copy", "rename", "set_index", "__getitem__", "astype", "drop"])


# operations whose outcome has no rows of events any more
UNORDERED = frozenset(["groupby", "unique", "nunique", "value_counts", "to_dict", "pivot_table", "drop_duplicates"])


def shift_suffixed(b, v):
    sfx = [x[4:] for x in v.alltaint if x[:4] == "#sx:"]
    if len(sfx) != 1:
        return b
    t = frozenset(x + "@" + sfx[0] if x[:2] == "S:" and "@" not in x else x for x in b.alltaint)
    return with_(b, taint=t, ctaint=E, fields=())


def shift_not(t):
    return frozenset("#cN:" + x[4:] if x[:4] == "#cB:" else "#cB:" + x[4:] if x[:4] == "#cN:" else x for x in t)


# operations after which a value still holds every row of the table, or every value of the column
WHOLE = frozenset(["copy", "reset_index", "sort_values", "drop_duplicates", "rename", "assign", "unique", "to_list", "tolist", "to_numpy",
                   "astype", "dropna", "sample", "head", "tail", "query"])


def rows_part(v):
    """the same value, no longer known to be a whole table or column"""
    if not any(x[:4] in ("#cp:", "#ct:") for x in v.alltaint):
        return v
    f = lambda t: frozenset(x for x in t if x[:4] not in ("#cp:", "#ct:"))
    return mk(v.kinds, v.consts, v.refs, v.selfr, f(v.taint), v.cont, f(v.ctaint), {k: rows_part(x) for k, x in v.fields}, v.closed)


def rows_or(a, b):
    ra, rb = {x for x in a.alltaint if _isr(x)}, {x for x in b.alltaint if _isr(x)}
    out = {x for x in a.alltaint | b.alltaint if not _isr(x)} | (ra & rb)
    if ra ^ rb:
        import hashlib
        lab = "R:or[%s]" % hashlib.md5(repr((sorted(ra ^ rb))).encode()).hexdigest()
        OR_PARTS[lab] = ra ^ rb
        out.add(lab)
    return mk(frozenset(["pd"]), None, E, E, frozenset(out))


def rows_concat(lst, t):
    parts = [x for k, x in lst.fields if k[0] == "i"]
    if not parts:
        return t
    common = frozenset.intersection(*[frozenset(x for x in p.alltaint if _isr(x)) for p in parts])
    return frozenset(x for x in t if not _isr(x)) | common


class State:
    """Per-activation bookkeeping."""
    __slots__ = ("f", "mod", "cls", "ret", "exits", "_pc", "events", "yields", "brk", "cont", "node", "clo_env",
                 "params", "raises", "pathmode", "calls", "sink", "touched", "own")

    def __init__(self, f, mod, cls, node):
        self.f, self.mod, self.cls, self.node = f, mod, cls, node
        self.ret = BOT
        self.exits = None
        self.pc = E
        self.events = set()
        self.yields = None
        self.brk = []
        self.cont = []
        self.clo_env = {}
        self.params = ()
        self.raises = None
        self.pathmode = None
        self.calls = set()
        self.sink = set()
        self.own = None
        self.touched = frozenset()

    @property
    def pc(self):
        return self._pc

    @pc.setter
    def pc(self, t):
        # row restrictions and column identities are properties of data, not of control
        self._pc = frozenset(x for x in t if x[:2] not in ("R:", "#c", "W:", "S:")) if State.datalabels and t else t

    datalabels = False


class Summary:
    __slots__ = ("ret", "post", "events", "done", "ver", "sink", "touched", "args", "kids")

    def __init__(self):
        self.ret, self.post, self.events, self.done, self.ver, self.sink = BOT, {}, frozenset(), False, 0, E
        self.touched = E
        self.args, self.kids = set(), set()     # what this call passes on (see handed_on)


def handed_on(s):
    """(callee, parameter) -> {call site -> labels of what is handed over there} over all calls under a summary"""
    out, seen, work = {}, set(), [s]
    while work:
        x = work.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        work += x.kids
        for callee, site, given in x.args:
            for p, labels in given:
                d = out.setdefault((callee, p), {})
                d[site] = d.get(site, E) | labels
    return out


def env_join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    r = {}
    for k in a:
        if k in b:
            x, y = a[k], b[k]
            r[k] = x if x is y else join(x, y)
        else:
            r[k] = a[k]
    for k in b:
        if k not in a:
            r[k] = b[k]
    return r


def env_eq(a, b):
    if a is None or b is None:
        return a is b
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if b.get(k) is not v:
            return False
    return True


def nosize(t):
    return {x for x in t if x[:6] != "#rows@"}


# number of events of a dataframe (mode "size"): "#cev" marks a table with one row per event, "#rows@..." the number of its rows
PER_EVENT = "#cev"


def table_of(v):
    return v.kinds is not None and bool(v.kinds & PANDAS) and PER_EVENT in v.alltaint


def no_table(v):
    return with_(v, taint=frozenset(v.alltaint - {PER_EVENT}), ctaint=E) if PER_EVENT in v.alltaint and not v.fields else v


class Interp:
    MAXDEPTH = 60

    def __init__(self, proj, elem_kinds=None):
        self.stored = None
        self.shift = False     # track columns moved by rows against each other (C27)
        self.std = False       # the caller's choices of attribute names are known to be given (C04)
        self.sizes = False
        self.kindsof = False   # follow what kinds of results functions give (C25)
        self.added = None      # the right-hand side of the augmented assignment under way
        self.content = False   # note which attributes what is written was read from, and what was read from a file (C12)
        self.rows = False      # track row restrictions of tables (C06)
        self.meta = {}         # class -> ((constructor keyword, field), ...) whose absence is marked (C05)
        self.p = proj
        self.memo = {}
        self.stack = []
        self.widened = {}
        self.ctxs = {}
        self.modval = {}
        self.inprog_mod = set()
        self.closures = {}
        self.stats = dict(contexts=0, unresolved=0, resolved=0, deep=0, widened=0)
        self.observers = []
        self.elem_kinds = elem_kinds or {}
        self.attr_kinds = {}
        self.free_cache = {}
        self.assigned_cache = {}
        self.cha = {}
        for c in proj.classes.values():
            for nm, recs in c.members.items():
                if recs[-1][0] == "func":
                    self.cha.setdefault(nm, []).append((c, recs[-1][1]._sa_func))
        self.special = dict(SPECIAL)
        self.skip_funcs = {}

    # ------------------------------------------------------------ module level
    def cls_of(self, cid):
        return self.p.classes.get(cid)

    def mod_attr(self, modname, name):
        key = (modname, name)
        if key in self.modval:
            return self.modval[key]
        if key in self.inprog_mod:
            return TOP
        r = self.p.resolve(modname, name)
        if r is None:
            self.modval[key] = None
            return None
        if r[0] == "expr":
            self.inprog_mod.add(key)
            try:
                st = State(None, r[1], None, None)
                vals = []
                for e in r[2]:
                    vals.append(TOP if e is None else self.ev(e, {}, st))
                v = joinall(vals)
                root = ("G:%s.%s" % (r[1].name, name), "")
                if not (v.kinds is not None and v.kinds <= IMMUT) and not v.refs:
                    v = with_(v, selfr=frozenset(x for x in v.selfr if not is_alloc(x)) | {root})
                elif v.refs:
                    v = with_(v, selfr=E)
            finally:
                self.inprog_mod.discard(key)
        else:
            v = self.ref_value(r)
        self.modval[key] = v
        return v

    def ref_value(self, r):
        if r[0] == "mod":
            return mk(frozenset(["module"]), None, frozenset([("mod", r[1])]))
        if r[0] == "func":
            return mk(frozenset(["func"]), None, frozenset([("func", r[1].id)]))
        if r[0] == "class":
            return mk(frozenset(["func"]), None, frozenset([("cls", r[1].id)]))
        if r[0] == "ext":
            return mk(frozenset(["func"]), None, frozenset([("ext", r[1])]))
        return TOP

    # ------------------------------------------------------------ names
    def name(self, nm, env, st):
        v = env.get(nm)
        if v is not None:
            return v
        v = st.clo_env.get(nm)
        if v is not None:
            return v
        if st.cls is not None and st.node is None:      # class body expression
            m = self.p.class_member(st.cls, nm)
            if m is not None:
                return self.class_attr(st.cls, nm)
        v = self.mod_attr(st.mod.name, nm)
        if v is not None:
            return v
        return mk(frozenset(["func"]), None, frozenset([("ext", "builtins." + nm)]))

    def class_attr(self, cls, name):
        m = self.p.class_member(cls, name)
        if m is None:
            return None
        if m[0] == "func":
            return mk(frozenset(["func"]), None, frozenset([("func", m[1].id)]))
        if m[0] == "class":
            return mk(frozenset(["func"]), None, frozenset([("cls", m[1].id)]))
        owner = m[1]
        if self.p.is_enum(owner):
            return mk(frozenset(["enum:" + owner.id]), frozenset([("E", owner.id, name)]))
        key = ("C", owner.id, name)
        if key in self.modval:
            return self.modval[key]
        if key in self.inprog_mod:
            return TOP
        self.inprog_mod.add(key)
        try:
            st = State(None, owner.mod, owner, None)
            v = joinall([TOP if e is None else self.ev(e, {}, st) for e in m[2]])
        finally:
            self.inprog_mod.discard(key)
        if not (v.kinds is not None and v.kinds <= IMMUT) and not v.refs:
            v = with_(v, selfr=frozenset([("C:%s.%s" % (owner.id, name), "")]))
        self.modval[key] = v
        return v

    def enum_value(self, cid, member):
        key = ("EV", cid, member)
        if key in self.modval:
            return self.modval[key]
        if key in self.inprog_mod:
            return TOP
        self.inprog_mod.add(key)
        try:
            c = self.cls_of(cid)
            m = self.p.class_member(c, member)
            if m is None or m[0] != "expr":
                v = TOP
            else:
                st = State(None, m[1].mod, m[1], None)
                v = joinall([TOP if e is None else self.ev(e, {}, st) for e in m[2]])
                v = with_(v, selfr=E)
                if v.kinds is not None and v.kinds & frozenset(["list", "dict", "set"]) and not v.refs:
                    # a container held by an enumeration member is shared by all calls
                    v = with_(v, selfr=frozenset([("C:%s.%s" % (cid, member), "")]))
        finally:
            self.inprog_mod.discard(key)
        self.modval[key] = v
        return v

    # ------------------------------------------------------------ expressions
    def alloc(self, node, st):
        return "%s:%s:%s" % (st.mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def ev(self, e, env, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env, st)
            return TOP
        return m(e, env, st)

    def e_Constant(self, e, env, st):
        return const(e.value)

    def e_Name(self, e, env, st):
        return self.name(e.id, env, st)

    def e_JoinedStr(self, e, env, st):
        t = set()
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                t |= self.ev(x.value, env, st).alltaint
        if self.shift and e.values and isinstance(e.values[-1], ast.Constant):
            t |= {"#sx:" + str(e.values[-1].value)}
        return tainted(STR, frozenset(t))

    def e_FormattedValue(self, e, env, st):
        return tainted(STR, self.ev(e.value, env, st).alltaint)

    def e_Tuple(self, e, env, st):
        f = {}
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, st)
                f = {("e",): joinall([joinall(f.values()), self.elem(v)])}
                for y in e.elts[i + 1:]:
                    f[("e",)] = join(f[("e",)], self.ev(y.value if isinstance(y, ast.Starred) else y, env, st))
                break
            f[("i", i)] = self.ev(x, env, st)
        return mk(frozenset(["tuple"]), None, E, E, E, E, E, f)

    def _display(self, kind, elts, node, env, st):
        el = BOT
        if kind == "list" and 2 <= len(elts) <= 8 and not any(isinstance(x, ast.Starred) for x in elts):
            return fresh(kind, self.alloc(node, st), fields={("i", i): self.ev(x, env, st) for i, x in enumerate(elts)})
        for x in elts:
            if isinstance(x, ast.Starred):
                el = join(el, self.elem(self.ev(x.value, env, st)))
            else:
                el = join(el, self.ev(x, env, st))
        return fresh(kind, self.alloc(node, st), fields={("e",): el} if el is not BOT else ())

    def e_List(self, e, env, st):
        return self._display("list", e.elts, e, env, st)

    def e_Set(self, e, env, st):
        return self._display("set", e.elts, e, env, st)

    def e_Dict(self, e, env, st):
        v = fresh("dict", self.alloc(e, st), closed=True)
        for k, x in zip(e.keys, e.values):
            xv = self.ev(x, env, st)
            if k is None:
                v = self.dict_merge(v, xv)
            else:
                v = self.dict_set(v, self.ev(k, env, st), xv)
        return v

    # dict helpers --------------------------------------------------------
    def keys_of(self, kv):
        """set of normalised constant keys or None"""
        if kv.consts is None or not kv.consts:
            return None
        out = set()
        for c in kv.consts:
            if c[0] == "E":
                val = self.enum_value(c[1], c[2])
                if val.consts is not None and len(val.consts) == 1:
                    out.add(next(iter(val.consts)))
                else:
                    out.add(c)
            else:
                out.add(c)
        return out

    def dict_set(self, v, kv, xv, weak=False):
        ks = self.keys_of(kv)
        f = dict(v.fields)
        if ks is None:
            f[("k", "*")] = join(f.get(("k", "*"), BOT), xv)
            f[("kk",)] = join(f.get(("kk",), BOT), kv)
            closed = False
        else:
            closed = v.closed
            for k in ks:
                if len(ks) > 1 or weak:
                    f[("k", k)] = join(f.get(("k", k), BOT), xv)
                else:
                    f[("k", k)] = xv
        return with_(v, fields=f, closed=closed, ctaint=v.ctaint | (kv.alltaint if ks is None else E))

    def dict_merge(self, v, o):
        f = dict(v.fields)
        for k, x in o.fields:
            f[k] = join(f.get(k, BOT), x) if k in (("k", "*"), ("kk",)) else x
        cont = v.cont | o.cont
        for (p, path) in o.selfr:
            if not p.startswith("A:"):
                cont = cont | {(p, ext_path(path, "[]"))}
        return with_(v, fields=f, closed=v.closed and o.closed, cont=cont,
                     ctaint=v.ctaint | o.ctaint | (o.taint if not o.closed else E))

    def dict_get(self, v, kv):
        ks = self.keys_of(kv)
        if ks is None:
            r = part(v, "[]")
            if v.closed:
                r = BOT
            for k, x in v.fields:
                if k[0] in ("k", "i", "e"):
                    r = join(r, x)
            if r is BOT:
                r = part(v, "[]")
            return tainted(r, kv.taint | v.taint)
        r = BOT
        for k in ks:
            x = v.field(("k", k))
            if x is not None:
                r = join(r, x)
                if not v.closed and v.field(("k", "*")) is not None:
                    r = join(r, v.field(("k", "*")))
            else:
                w = v.field(("k", "*"))
                if w is not None:
                    r = join(r, w)
                if not v.closed:
                    r = join(r, part(v, "[]"))
        if r is BOT:
            r = BOT if v.closed else part(v, "[]")
        return tainted(r, v.taint) if r is not BOT else r

    def e_IfExp(self, e, env, st):
        t, e1, e2 = self.test(e.test, env, st)
        tv = self.ev(e.test, env, st)
        r = BOT
        if t is not False:
            r = join(r, self.ev(e.body, e1, st))
        if t is not True:
            r = join(r, self.ev(e.orelse, e2, st))
        return tainted(r, self.asked(e.test, tv.taint)) if t is None else r

    def e_BoolOp(self, e, env, st):
        r = BOT
        taint = set()
        cur = env
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, st)
            tr = self.truth(v)
            taint |= v.taint
            last = i == len(e.values) - 1
            if isinstance(e.op, ast.And):
                if last:
                    r = join(r, v)
                elif tr is not True:
                    r = join(r, v)
                    if tr is False:
                        break
                t, a, b = self.test(x, cur, st)
                cur = a if a is not None else cur
            else:
                if last:
                    r = join(r, v)
                elif tr is not False:
                    r = join(r, v)
                    if tr is True:
                        break
                t, a, b = self.test(x, cur, st)
                cur = b if b is not None else cur
        return tainted(r, frozenset(taint))

    def truth(self, v):
        if v.consts is not None and v.consts:
            ts = set()
            for c in v.consts:
                ts.add(True if c[0] == "E" else bool(c[1]))
            if len(ts) == 1:
                return ts.pop()
            return None
        if v.kinds is not None and v.kinds and v.kinds <= frozenset(["func", "module"]) and v.refs:
            return True
        return None

    def e_UnaryOp(self, e, env, st):
        v = self.ev(e.operand, env, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return tainted(BOOL if t is None else const(not t), v.taint)
        if v.consts is not None and len(v.consts) == 1 and isinstance(e.op, ast.USub):
            c = next(iter(v.consts))
            if c[0] in ("int", "float"):
                return tainted(const(-c[1]), v.taint)
        if self.rows and isinstance(e.op, ast.Invert):
            return rows_not(v)
        if self.shift and isinstance(e.op, ast.Invert):
            v = with_(v, taint=shift_not(v.alltaint), ctaint=E)
        if v.kinds is not None and v.kinds & PANDAS or isinstance(e.op, ast.Invert):
            return mk(frozenset(["pd"]) if isinstance(e.op, ast.Invert) and v.kinds is None else v.kinds,
                      None, E, E, v.alltaint)
        return mk(frozenset(["num"]), None, E, E, v.alltaint)

    def e_BinOp(self, e, env, st):
        a, b = self.ev(e.left, env, st), self.ev(e.right, env, st)
        if self.rows and not isinstance(e.op, ast.BitOr):
            a, b = rows_part(a), rows_part(b)
        return self.binop(e.op, a, b, e, st)

    def binop(self, op, a, b, e, st):
        if self.shift and isinstance(op, ast.Add) and b.consts is not None and len(b.consts) == 1 and next(iter(b.consts))[0] == "str":
            a = tainted(a, frozenset(["#sx:" + next(iter(b.consts))[1]]))
        t = a.taint | b.taint
        if isinstance(op, ast.Mod) and a.kinds == K_STR:
            return mk(K_STR, None, E, E, t | b.alltaint)      # formatting
        if self.rows and isinstance(op, ast.Add) and b.consts == SECOND and not (a.kinds and a.kinds & PANDAS):
            ks = frozenset(["str"])
            return mk(ks, frozenset([("str", c[1] + "_2") for c in a.consts if c[0] == "str"]) if a.consts else None, E, E, (t - COL_FIRST) | COL_SECOND)
        if a.consts is not None and b.consts is not None and isinstance(op, ast.Add) and len(a.consts) * len(b.consts) <= 16 \
                and a.consts and b.consts:
            out = set()
            ok = True
            for x in a.consts:
                for y in b.consts:
                    if x[0] == y[0] == "str" or (x[0] in ("int", "float") and y[0] in ("int", "float")):
                        z = x[1] + y[1]
                        out.add((type(z).__name__, z))
                    else:
                        ok = False
            if ok:
                return mk(a.kinds | b.kinds if a.kinds is not None and b.kinds is not None else None, frozenset(out), E, E, t)
        ks = None
        if a.kinds is not None and b.kinds is not None:
            ks = a.kinds | b.kinds
        cont_kinds = frozenset(["list", "set", "dict", "tuple"])
        if self.sizes and isinstance(op, ast.Mult) and ((a.kinds or E) | (b.kinds or E)) & cont_kinds:
            t = frozenset(nosize(t))        # one entry per row
        if (a.kinds and a.kinds & cont_kinds) or (b.kinds and b.kinds & cont_kinds):
            el = join(self.elem(a) if not (a.kinds and a.kinds <= IMMUT) else BOT,
                      self.elem(b) if not (b.kinds and b.kinds <= IMMUT) else BOT)
            kk = (a.kinds or E) & cont_kinds or (b.kinds or E) & cont_kinds
            return mk(frozenset(kk), None, E, frozenset([("A:" + self.alloc(e, st), "")]), t, a.cont | b.cont,
                      a.ctaint | b.ctaint, {("e",): el} if el is not BOT else ())
        if ks is not None and ks & PANDAS:
            if self.rows and isinstance(op, ast.BitOr):
                return rows_or(a, b)
            if self.shift and isinstance(op, (ast.BitAnd, ast.BitOr, ast.Mult)):
                # "same case and ..." keeps only pairs of one case; "other case or ..." separates at least those
                return mk(frozenset(["pd"]), None, E, E, shift_checked(a.alltaint | b.alltaint, "#cN:" if isinstance(op, ast.BitOr) else "#cB:"))
            return mk(frozenset(["pd"]), None, E, E, a.alltaint | b.alltaint)
        if ks is not None and ks <= frozenset(["str", "num", "bool"]):
            if isinstance(op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)):
                ks = frozenset(["num"])
            return mk(ks, None, E, E, t)
        # unknown: fresh (a + b never returns an operand), may be a container of parts
        return mk(ks, None, E, frozenset([("A:" + self.alloc(e, st), "")]) if ks is None else E, a.alltaint | b.alltaint,
                  a.cont | b.cont)

    def e_Compare(self, e, env, st):
        l = self.ev(e.left, env, st)
        t = set(l.taint)
        pd_ = bool(l.kinds and l.kinds & PANDAS)
        res = None
        cur = l
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, env, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                t |= r.taint | r.ctaint | cur.alltaint
                for k_, fv in r.fields:
                    if k_[0] in ("e", "kk", "i"):
                        t |= fv.alltaint
            else:
                t |= r.taint
            if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                t |= r.ctaint | cur.ctaint
                for _, fv in r.fields + cur.fields:
                    t |= fv.alltaint
            if r.kinds and r.kinds & PANDAS and not isinstance(op, (ast.In, ast.NotIn)):
                pd_ = True
            if len(e.ops) == 1:
                res = self.cmp(op, cur, r)
                if res is None and self.std and isinstance(op, (ast.In, ast.NotIn)) and r.fields:
                    ks = self.keys_of(cur)
                    if ks is not None and len(ks) == 1 and (r.field(("k", next(iter(ks)))) or BOT).consts is not None:
                        res = isinstance(op, ast.In)    # an option that was given
            cur = r
        if self.sizes and any(x.consts is not None and all(c in (("int", 0), ("int", 1)) for c in x.consts) for x in (l, cur)):
            t = nosize(t)       # whether there is anything at all is the same question for events and cases
        if res is not None:
            return tainted(const(res), frozenset(t))
        if self.shift and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            return mk(frozenset(["pd"]) if pd_ else frozenset(["bool"]), None, E, E, shift_compare(l, cur, frozenset(t), isinstance(e.ops[0], ast.Eq)))
        if self.rows and len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and l.alltaint & (COL_FIRST | COL_SECOND):
            return with_(rows_mask(l, cur, "isin", True), kinds=frozenset(["bool"]))
        if pd_ and self.rows:
            return rows_mask(l, mk(None, None, E, E, frozenset(t)), "cmp:%s" % self.alloc(e, st), False)
        return mk(frozenset(["pd"]) if pd_ else frozenset(["bool"]), None, E, E, frozenset(t))

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            # type objects / refs
            if a.refs and b.refs and a.kinds is not None and b.kinds is not None and "func" in a.kinds and "func" in b.kinds:
                if a.refs.isdisjoint(b.refs):
                    return not pos
                if len(a.refs) == 1 and a.refs == b.refs and a.kinds == frozenset(["func"]) == b.kinds:
                    return pos
                return None
            if a.consts is not None and b.consts is not None and a.consts and b.consts:
                ka, kb = self.normc(a.consts), self.normc(b.consts)
                if ka.isdisjoint(kb):
                    return not pos
                if len(ka) == 1 and ka == kb:
                    return pos
                return None
            for x, y in ((a, b), (b, a)):
                if x is not a and x is not b:
                    continue
                if x.consts == frozenset([("NoneType", None)]) and y.kinds is not None and y.kinds and "none" not in y.kinds \
                        and y.consts is None:
                    if isinstance(op, (ast.Is, ast.IsNot)) or not (y.kinds & PANDAS):
                        return not pos
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            ks = self.keys_of(a)
            if ks is not None and b.kinds == frozenset(["dict"]) and b.closed:
                have = {k[1] for k, _ in b.fields if k[0] == "k"}
                if ks.isdisjoint(have):
                    return not pos
                return None
            el = b.field(("e",)) if b.kinds in (frozenset(["list"]), frozenset(["set"])) else None
            if ks is not None and b.kinds == frozenset(["tuple"]) and b.fields and all(k[0] == "i" for k, _ in b.fields):
                el = joinall(x for _, x in b.fields)
            if ks is not None and el is not None and el.consts is not None and not b.cont and a.consts is not None:
                have = self.normc(el.consts)
                if self.normc(a.consts).isdisjoint(have):
                    return not pos
                if self.normc(a.consts) <= have and len(have) == 1:
                    return pos
            return None
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and a.consts and b.consts and len(a.consts) == len(b.consts) == 1:
            x, y = next(iter(a.consts)), next(iter(b.consts))
            if x[0] in ("int", "float") and y[0] in ("int", "float"):
                return {"Lt": x[1] < y[1], "LtE": x[1] <= y[1], "Gt": x[1] > y[1], "GtE": x[1] >= y[1]}[type(op).__name__]
        return None

    def normc(self, cs):
        return frozenset((("num", c[1]) if c[0] in ("int", "float") else c) for c in cs)

    def e_NamedExpr(self, e, env, st):
        v = self.ev(e.value, env, st)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, env, st):
        return self.ev(e.value, env, st)

    def e_Await(self, e, env, st):
        return self.ev(e.value, env, st)

    def e_Yield(self, e, env, st):
        v = self.ev(e.value, env, st) if e.value is not None else NONE
        st.yields = join(st.yields or BOT, tainted(v, st.pc))
        return TOP

    def e_YieldFrom(self, e, env, st):
        v = self.elem(self.ev(e.value, env, st))
        st.yields = join(st.yields or BOT, tainted(v, st.pc))
        return TOP

    def e_Slice(self, e, env, st):
        t = E
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                t = t | self.ev(x, env, st).alltaint
        return mk(frozenset(["slice"]), None, E, E, t)

    # attribute ------------------------------------------------------------
    def e_Attribute(self, e, env, st):
        b = self.ev(e.value, env, st)
        r = self.getattr(b, e.attr, e, env, st)
        if self.sizes and e.attr in ("shape", "size") and table_of(b) and b.kinds is not None and b.kinds & PANDAS:
            r = tainted(no_table(r), frozenset([self.rows_label(e, st)]))
        if self.content and r.refs == E and not (b.kinds is not None and b.kinds <= frozenset(["func", "module"])):
            a_ = e.attr.strip("_")
            r = steps(tainted(r, frozenset(["#cf:" + a_, "#kf:" + a_])), b, [a_])
        if self.rows and e.attr in ("event_id_column", "object_id_column"):
            r = tainted(r, frozenset(["#c1", "#c:" + ("eid" if e.attr[0] == "e" else "oid")]))
        return r

    def getattr(self, b, attr, e, env, st):
        r = BOT
        hit = False
        for ref in b.refs:
            if ref[0] == "mod":
                v = self.mod_attr(ref[1], attr)
                if v is not None:
                    r = join(r, v)
                    hit = True
                else:
                    self.note_missing(ref[1], attr, e, st)
                    hit = True
                    r = join(r, TOP)
            elif ref[0] == "ext":
                hit = True
                r = join(r, mk(frozenset(["func"]), None, frozenset([("ext", ref[1] + "." + attr)])))
            elif ref[0] == "cls":
                c = self.cls_of(ref[1])
                v = self.class_attr(c, attr)
                hit = True
                if v is not None:
                    r = join(r, v)
                elif attr == "__members__":
                    r = join(r, TOP)
                else:
                    r = join(r, TOP)
        if hit and r is not BOT and (b.kinds is not None and b.kinds <= frozenset(["func", "module"])):
            return tainted(r, b.taint)
        # enum members
        if b.consts is not None and b.consts and all(c[0] == "E" for c in b.consts):
            if attr in ("value", "_value_"):
                out = joinall(self.enum_value(c[1], c[2]) for c in b.consts)
                return tainted(out, b.taint)
            if attr == "name":
                return tainted(joinall(const(c[2]) for c in b.consts), b.taint)
        if b.kinds is not None:
            for k in b.kinds:
                if k.startswith("enum:") and attr in ("value", "name"):
                    c = self.cls_of(k[5:])
                    out = BOT
                    for m, recs in c.members.items():
                        if recs[-1][0] == "expr" and not m.startswith("_"):
                            out = join(out, self.enum_value(c.id, m) if attr == "value" else const(m))
                    return tainted(out if out is not BOT else TOP, b.taint)
        fv = b.field(("a", attr))
        if fv is not None:
            return tainted(fv, b.taint) if not (b.refs) else join(fv, r)
        if attr == "__class__":
            return self.type_of(b)
        # instance of a project class
        if b.kinds is not None:
            for k in b.kinds:
                if k.startswith("cls:"):
                    c = self.cls_of(k[4:])
                    if c is None:
                        continue
                    m = self.p.class_member(c, self.mangle(attr, st))
                    if m is None and self.mangle(attr, st) != attr:
                        m = self.p.class_member(c, attr)
                    if m is None:
                        continue
                    if m[0] == "func":
                        decs = [self.decname(d) for d in m[1].node.decorator_list]
                        if "property" in decs or "cached_property" in decs:
                            res = self.call_func(m[1], [b], {}, e, env, st)
                            r = join(r, res)
                        elif "staticmethod" in decs:
                            r = join(r, mk(frozenset(["func"]), None, frozenset([("func", m[1].id)])))
                        elif "classmethod" in decs:
                            r = join(r, mk(frozenset(["func"]), None, frozenset(
                                [("bound", m[1].id, mk(frozenset(["func"]), None, frozenset([("cls", c.id)])))])))
                        else:
                            r = join(r, mk(frozenset(["func"]), None, frozenset([("bound", m[1].id, b)])))
                        hit = True
                    elif m[0] == "expr":
                        g = self.property_getter(m)
                        if g is not None:
                            r = join(r, self.call_func(g, [b], {}, e, env, st))
                        else:
                            r = join(r, self.class_attr(c, attr) or TOP)
                            if has_structure(b):
                                r = join(r, part(b, "." + attr))
                        hit = True
                    elif m[0] == "class":
                        r = join(r, mk(frozenset(["func"]), None, frozenset([("cls", m[1].id)])))
                        hit = True
            if hit:
                if attr == "properties" and r.kinds is None and not r.fields:
                    r = with_(r, kinds=frozenset(["dict"]), closed=True, cont=E)
                return tainted(r, b.taint)
            if b.kinds and not b.refs and all(k.startswith("cls:") for k in b.kinds) and not attr.startswith("__"):
                self.no_attr(b, attr, e, st)
            if b.kinds & PANDAS and attr not in self.attr_kinds.get("df", ()):
                if attr == "attrs":
                    # assumption: a frame's attrs carry no option keys of their own
                    if self.shift:
                        b = with_(b, taint=frozenset(x for x in b.taint if x[:2] != "#c"), ctaint=frozenset(x for x in b.ctaint if x[:2] != "#c"))
                    return with_(part(b, ".attrs"), kinds=frozenset(["dict"]), closed=True, cont=E)
                if attr in VIEW_ATTRS:
                    return mk(frozenset(["pd"]), None, E, frozenset((p, path) for p, path in b.selfr), b.alltaint, b.cont)
                return mk(frozenset(["pd"]), None, E, E, b.alltaint)
            for k in b.kinds:
                ak = self.attr_kinds.get((k, attr))
                if ak is not None:
                    v = part(b, "." + attr)
                    v = with_(v, kinds=ak, selfr=E if ak <= IMMUT else v.selfr)
                    return v
            if b.closed_obj() if False else False:
                pass
        if attr in VIEW_ATTRS and b.kinds is None:
            return with_(part(b, "." + attr), selfr=part(b, "." + attr).selfr | b.selfr, kinds=None)
        v = part(b, "." + attr)
        if self.sizes and table_of(b):
            if attr in ("shape", "size"):
                return mk(None, None, E, E, frozenset(b.alltaint - {PER_EVENT}) | {self.rows_label(e, st)})
            if attr in ("columns", "attrs", "dtypes"):
                return no_table(v)
        if attr in ("name", "label", "year", "month", "day", "hour", "minute", "second", "shape", "size", "dtype", "operator"):
            v = with_(v, selfr=E, cont=E)
        return v

    def no_attr(self, b, attr, e, st):
        """an attribute that no class of the receiver defines and that nothing in the package ever stores"""
        if self.stored is None:
            self.stored = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self.stored.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.stored.add(n.args[1].value)
        if attr in self.stored:
            return
        for k in b.kinds:
            c = self.cls_of(k[4:])
            if c is None or self.p.ext_bases(c) - {"object", "Generic", "ABC", "abc.ABC"} or self.p.class_member(c, attr) or self.p.class_member(c, "__getattr__"):
                return
            if any(s.members.get(attr) for s in self.p.subclasses(c)):
                return
        st.events.add(("noattr", "/".join(sorted(k[4:] for k in b.kinds)), st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), attr))

    def decname(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        return d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")

    def property_getter(self, m):
        """class-level  x = property(getter[, setter])  -> getter Func"""
        for e in m[2]:
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "property" and e.args:
                a = e.args[0]
                if isinstance(a, ast.Name):
                    r = m[1].members.get(a.id)
                    if r and r[-1][0] == "func":
                        return r[-1][1]._sa_func
        return None

    def property_setter(self, c, attr):
        m = self.p.class_member(c, attr)
        if m is None:
            return None
        if m[0] == "expr":
            for e in m[2]:
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "property" and len(e.args) > 1:
                    a = e.args[1]
                    if isinstance(a, ast.Name):
                        r = m[1].members.get(a.id)
                        if r and r[-1][0] == "func":
                            return r[-1][1]._sa_func
        if m[0] == "func":
            for r in m[2].members.get(attr, []):
                if r[0] == "func" and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in r[1].decorator_list):
                    return r[1]._sa_func
        return None

    def mangle(self, attr, st):
        return attr

    def note_missing(self, modname, attr, e, st):
        for o in self.observers:
            f = getattr(o, "missing", None)
            if f:
                f(self, modname, attr, e, st)

    def type_of(self, v):
        refs = set()
        if v.kinds is None:
            return mk(None, None, E, E, v.taint)
        for k in v.kinds:
            if k.startswith("cls:"):
                refs.add(("cls", k[4:]))
            elif k == "df":
                refs.add(("ext", "pandas.DataFrame"))
            elif k == "pd":
                return mk(None, None, E, E, v.taint)
            elif k == "none":
                refs.add(("ext", "builtins.NoneType"))
            elif k == "num":
                refs |= {("ext", "builtins.int"), ("ext", "builtins.float")}
            elif k in ("str", "bool", "list", "dict", "set", "tuple", "bytes"):
                refs.add(("ext", "builtins." + k))
            elif k.startswith("enum:"):
                refs.add(("cls", k[5:]))
            else:
                return mk(None, None, E, E, v.taint)
        return mk(frozenset(["func"]), None, frozenset(refs), E, v.taint)

    # subscript ------------------------------------------------------------
    def e_Subscript(self, e, env, st):
        b = self.ev(e.value, env, st)
        k = self.ev(e.slice, env, st)
        self.note_key(b, k, e, st, "[]")
        r = self.subscript(b, k, e, env, st)
        if self.content and k.consts is not None and len(k.consts) == 1 and next(iter(k.consts))[0] == "str":
            r = steps(tainted(r, frozenset(["#cf:[%s]" % next(iter(k.consts))[1]])), b, ["[%s]" % next(iter(k.consts))[1]])
        elif self.content and k.consts is None and b.alltaint:
            by = sorted("{%s}" % x[4:] for x in k.alltaint if x[:4] == "#cl:" and x[4:5] not in ("[", "{"))
            if by and len(by) <= 6 and not any(x[:4] == "#cl:" and "{" in x for x in b.alltaint):
                r = steps(r, b, by)
        if self.content and b.kinds is not None and any(x.endswith(":Marking") for x in b.kinds):
            r = tainted(r, frozenset("#cA:tokens of " + x[4:] for x in b.alltaint if x[:4] == "#cA:" and x[4:10] != "tokens"))
        if self.content and b.kinds is not None and b.kinds and b.kinds <= PANDAS and (k.consts is None or k.kinds is not None and k.kinds & PANDAS):
            lost = k.alltaint - b.alltaint      # choosing rows is not content
            r = with_(r, taint=r.taint - lost, ctaint=r.ctaint - lost)
        if self.shift and "#cO" in k.alltaint and "#cO" not in b.alltaint:
            r = with_(r, taint=r.taint - {"#cU", "#cO"}, ctaint=r.ctaint - {"#cU", "#cO"})
        return r

    KEYS = frozenset(["concept:name", "time:timestamp", "case:concept:name", "org:resource", "start_timestamp", "lifecycle:transition"])

    def note_key(self, b, k, e, st, how):
        """a default attribute name used as a key of b while nothing the caller chose decides it"""
        if not b.alltaint:
            return
        if b.kinds is not None and b.kinds <= frozenset(["str", "num", "bool", "none"]):
            return
        if b.selfr and all(r[1].endswith(".attributes") or r[1].endswith("._attributes") for r in b.selfr):
            return      # the attributes of a case are not those of its events
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr in ("attributes", "_attributes"):
            return
        for x in [k] + [fv for kk, fv in k.fields if kk[0] in ("e", "i")]:
            named = x.consts is not None and any(c[0] == "str" and c[1][:1] == "\x00" for c in x.consts)
            if x.consts is None or x.taint and not named:
                continue
            for c in x.consts:
                if c[0] == "str" and c[1] in self.KEYS:
                    # a mapping built here under this very key is not the caller's log
                    if b.field(("k", c)) is not None and b.selfr and all(is_alloc(r) for r in b.selfr):
                        continue
                    st.events.add(("key", c[1], "|".join(sorted(b.kinds)) if b.kinds is not None else "?", st.f.id if st.f else st.mod.name,
                                   getattr(e, "lineno", 0), how + (" in some cases" if named else "")))

    def is_maskish(self, node):
        if isinstance(node, (ast.Compare, ast.List, ast.ListComp)):
            return True
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Invert):
            return True
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in \
                ("isin", "isna", "notna", "isnull", "notnull", "between", "duplicated", "eq", "ne", "contains", "str"):
            return True
        return False

    def subscript(self, b, k, e, env, st):
        if isinstance(e.value, ast.Name) and b.refs and b.kinds == frozenset(["func"]):
            # Enum["NAME"] / typing subscripts
            for r in b.refs:
                if r[0] == "cls" and self.p.is_enum(self.cls_of(r[1])):
                    return mk(frozenset(["enum:" + r[1]]), None, E, E, k.taint)
            return TOP
        if b.kinds is not None and b.kinds & PANDAS:
            t = b.alltaint | k.alltaint
            if b.kinds == frozenset(["df"]):
                if k.kinds is not None and k.kinds <= frozenset(["str"]) or k.consts is not None:
                    # a column: Series view of the frame
                    if self.rows:
                        return rows_column(b, k)
                    if self.shift:
                        return shift_column(b, k)
                    return mk(frozenset(["pd"]), None, E, E, t)
                if (k.kinds is not None and k.kinds & frozenset(["pd", "list", "slice", "df", "set"])) or self.is_maskish(e.slice):
                    if self.rows:
                        t = frozenset(x for x in t if x[:2] != "#c") | {x for x in b.alltaint if x[:4] == "#ct:"}
                    if self.shift:
                        t = frozenset(x for x in shift_checked(t) if x[:3] not in ("#cK", "#cB", "#cN"))
                    return mk(frozenset(["df"]), None, E, frozenset([("A:" + self.alloc(e, st), "")]), t)
                if self.rows:
                    return rows_column(b, k)
                if self.shift:
                    return shift_column(b, k)
                return mk(frozenset(["pd"]), None, E, E, t)
            # series / loc / groupby
            if self.rows and isinstance(e.value, ast.Attribute) and e.value.attr == "loc" and not isinstance(e.slice, ast.Tuple) \
                    and (self.is_maskish(e.slice) or "pd" in (k.kinds or ())):
                return mk(frozenset(["df"]), None, E, frozenset([("A:" + self.alloc(e, st), "")]),
                          frozenset(x for x in t if x[:2] != "#c") | {x for x in b.alltaint if x[:4] == "#ct:"})
            if self.shift and isinstance(e.value, ast.Attribute) and e.value.attr == "loc":
                t = frozenset(x for x in shift_checked(t) if x[:3] not in ("#cK", "#cB", "#cN"))
            if self.shift and (k.kinds is not None and k.kinds <= frozenset(["str"]) or k.consts is not None):
                return with_(shift_column(b, k), kinds=b.kinds)
            if self.rows and "df" in b.kinds and (k.alltaint & (COL_FIRST | COL_SECOND) or k.consts):
                return rows_column(b, k)
            if b.selfr and isinstance(e.value, ast.Attribute) and e.value.attr in ("loc", "iloc"):
                return mk(frozenset(["pd", "df"]) if self.is_maskish(e.slice) or "pd" in (k.kinds or ()) else frozenset(["pd"]),
                          None, E, frozenset([("A:" + self.alloc(e, st), "")]), t)
            return mk(b.kinds, None, E, E, t)
        if b.kinds is None and (self.is_maskish(e.slice) or (k.kinds is not None and k.kinds & frozenset(["pd", "list"]))):
            return mk(frozenset(["df"]) if not isinstance(e.slice, ast.Tuple) else None, None, E,
                      frozenset([("A:" + self.alloc(e, st), "")]), b.alltaint | k.alltaint)
        if isinstance(e.slice, (ast.List, ast.ListComp)):
            # only a dataframe can be indexed by a list (of columns): the selection is a new frame
            return mk(frozenset(["df"]), None, E, frozenset([("A:" + self.alloc(e, st), "")]), b.alltaint | k.alltaint)
        if isinstance(e.slice, ast.Slice):
            if b.kinds is not None and b.kinds <= frozenset(["str"]):
                return mk(b.kinds, None, E, E, b.taint | k.taint)
            # slicing copies the outer container
            n = sum(1 for kk, _ in b.fields if kk[0] == "i")
            if n and b.closed and b.kinds == frozenset(["tuple"]) and e.slice.step is None:
                def bound(x, d):
                    if x is None:
                        return d
                    w = self.ev(x, env, st)
                    if w.consts is not None and len(w.consts) == 1:
                        c = next(iter(w.consts))
                        if c[0] == "int":
                            return c[1]
                    return None
                lo, hi = bound(e.slice.lower, 0), bound(e.slice.upper, n)
                if lo is not None and hi is not None:
                    idx = list(range(n))[lo:hi]
                    return mk(b.kinds, None, E, E, b.taint | k.taint, E, b.ctaint,
                              {("i", j): b.field(("i", i)) for j, i in enumerate(idx)}, True)
            f = {("e",): self.elem(b)}
            return mk(b.kinds, None, E, frozenset([("A:" + self.alloc(e, st), "")]), b.taint | k.taint, b.cont, b.ctaint, f)
        if k.consts is not None and k.consts and any(kk[0] == "i" for kk, _ in b.fields):
            r = BOT
            n = sum(1 for kk, _ in b.fields if kk[0] == "i")
            for c in k.consts:
                if c[0] == "int":
                    i = c[1] if c[1] >= 0 else n + c[1]
                    x = b.field(("i", i))
                    if x is not None:
                        r = join(r, x)
            if r is not BOT:
                if b.field(("e",)) is not None:
                    r = join(r, b.field(("e",)))
                if b.kinds != frozenset(["tuple"]) and (b.ctaint or b.cont):
                    r = join(tainted(r, b.ctaint), part(b, "[]"))
                return tainted(r, b.taint | k.taint)
        if b.kinds is not None:
            for kd in b.kinds:
                ek = self.elem_kinds.get(kd)
                if ek is not None and len(b.kinds) == 1:
                    v = part(b, "[]")
                    for kk, x in b.fields:
                        v = join(v, self.elem(x)) if kk == ("a", "_list") or kk == ("a", "_dict") else v
                    return tainted(with_(v, kinds=ek), k.taint) if v.kinds is None else tainted(v, k.taint)
        if b.kinds is not None and "dict" in b.kinds or any(kk[0] == "k" for kk, _ in b.fields):
            r = self.dict_get(b, k)
            return tainted(r, k.taint) if r is not BOT else TOP
        r = self.elem(b)
        if b.kinds is not None and b.kinds <= frozenset(["str"]):
            r = STR
        return tainted(r, b.taint | b.ctaint | k.taint)

    def elem(self, v):
        """an element obtained by iterating v"""
        if v is BOT:
            return TOP
        if v.kinds is not None and v.kinds & PANDAS:
            return mk(None, None, E, E, v.alltaint)
        if v.kinds is not None and v.kinds and v.kinds <= frozenset(["str"]):
            return mk(v.kinds, None, E, E, v.taint)
        if v.kinds is not None and len(v.kinds) == 1:
            (k,) = v.kinds
            if k.startswith("cls:"):
                inner = v.field(("a", "_list"))
                if inner is None:
                    inner = v.field(("a", "_dict"))
                if inner is not None:
                    r = self.elem(inner)
                    ek = self.elem_kinds.get(k)
                    if ek is not None and r.kinds is None:
                        r = with_(r, kinds=ek)
                    return tainted(r, v.taint)
                ek = self.elem_kinds.get(k)
                if ek is not None:
                    return with_(part(v, "[]"), kinds=ek)
        r = BOT
        for k, x in v.fields:
            if k[0] in ("e", "i", "kk"):
                r = join(r, x)
        if v.kinds is not None and v.kinds == frozenset(["dict"]):
            # iterating keys
            ks = [k[1] for k, _ in v.fields if k[0] == "k" and k[1] != "*"]
            for kk in ks:
                if kk[0] != "E":
                    r = join(r, const(kk[1]))
                else:
                    r = join(r, TOP)
            if v.closed and r is not BOT:
                return tainted(r, v.taint)
            base = part(v, "[]")
            base = with_(base, selfr=base.selfr)
            return join(r, base) if r is not BOT else base
        if r is BOT:
            return part(v, "[]")
        if v.cont or any(not is_alloc(x) for x in v.selfr) or v.ctaint:
            g = part(v, "[]")
            if v.cont or any(not is_alloc(x) for x in v.selfr):
                return join(r, g)
            return tainted(r, g.taint)
        return tainted(r, v.taint)

    # comprehensions ----------------------------------------------------------
    def _comp(self, e, env, st, kind):
        env2 = dict(env)
        pc0 = st.pc
        taint = set()
        for g in e.generators:
            it = self.ev(g.iter, env2, st)
            taint |= it.taint | it.ctaint
            self.assign(g.target, self.elem(it), env2, st)
            for c in g.ifs:
                t, a, b = self.test(c, env2, st)
                cv = self.ev(c, env2, st)
                taint |= cv.alltaint
                if a is not None:
                    env2 = dict(a)
        taint = frozenset(taint)
        if kind == "dict":
            kv, xv = self.ev(e.key, env2, st), self.ev(e.value, env2, st)
            v = fresh("dict", self.alloc(e, st), closed=True)
            v = self.dict_set(v, with_(kv, consts=None), xv)
            v = with_(v, ctaint=v.ctaint | taint, taint=v.taint)
        else:
            x = self.ev(e.elt, env2, st)
            v = fresh(kind, self.alloc(e, st), fields={("e",): x}, ctaint=taint)
        if self.rows and any(g.ifs for g in e.generators):
            v = rows_part(v)
        st.pc = pc0
        # propagate mutation of outer containers performed inside
        for k in env:
            if env2.get(k) is not env[k] and k in env2:
                tg = set()
                for g in e.generators:
                    for n in ast.walk(g.target):
                        if isinstance(n, ast.Name):
                            tg.add(n.id)
                if k not in tg:
                    env[k] = join(env[k], env2[k])
        return v

    def e_ListComp(self, e, env, st):
        return self._comp(e, env, st, "list")

    def e_SetComp(self, e, env, st):
        return self._comp(e, env, st, "set")

    def e_GeneratorExp(self, e, env, st):
        return self._comp(e, env, st, "list")

    def e_DictComp(self, e, env, st):
        return self._comp(e, env, st, "dict")

    def free_names(self, node):
        r = self.free_cache.get(id(node))
        if r is None:
            names = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Name):
                    names.add(n.id)
            r = frozenset(names)
            self.free_cache[id(node)] = r
        return r

    def gives_value(self, node):
        """some return statement of the function has a value other than None"""
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                return True
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return False
            todo.extend(ast.iter_child_nodes(n))
        return False

    def closure(self, node, env, st):
        fn = self.free_names(node)
        cap = []
        for n in sorted(fn):
            v = env.get(n) or st.clo_env.get(n)
            if v is not None:
                cap.append((n, v))
        key = ("clo", id(node), tuple((n, v.n) for n, v in cap))
        if key not in self.closures:
            self.closures[key] = (node, st.mod, st.cls, dict(cap), st.f)
        return mk(frozenset(["func"]), None, frozenset([key]))

    def e_Lambda(self, e, env, st):
        return self.closure(e, env, st)

    # ------------------------------------------------------------ tests
    def test(self, e, env, st):
        """-> (True|False|None, env_if_true, env_if_false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, a, b = self.test(e.operand, env, st)
            return (None if t is None else not t), b, a
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur, fall, res = env, None, True
                for x in e.values:
                    t, a, b = self.test(x, cur, st)
                    if t is not True:
                        fall = env_join(fall, b if b is not None else cur)
                        res = None if res is not False else False
                    if t is False:
                        return False, None, fall
                    cur = a if a is not None else cur
                return (True if res is True else None), cur, fall
            cur, tr, res = env, None, False
            for x in e.values:
                t, a, b = self.test(x, cur, st)
                if t is not False:
                    tr = env_join(tr, a if a is not None else cur)
                    res = None
                if t is True:
                    return True, tr, None
                cur = b if b is not None else cur
            return (False if res is False else None), tr, cur
        v = self.ev(e, env, st)
        t = self.truth(v)
        et, ef = self.refine(e, env, st)
        return t, (et if t is not False else None), (ef if t is not True else None)

    def refine(self, e, env, st):
        et, ef = env, env

        def upd(name, v, w):
            a, b = dict(env), dict(env)
            a[name], b[name] = v, w
            return a, b
        if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in env:
            nm = e.args[0].id
            v = env[nm]
            fn = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if fn == "check_is_pandas_dataframe":
                return upd(nm, with_(v, kinds=frozenset(["df"])), self.minus(v, {"df"}))
            if fn == "isinstance" and len(e.args) == 2:
                ks = self.class_kinds(self.ev(e.args[1], env, st))
                if ks:
                    return upd(nm, self.narrow(v, ks), self.minus(v, ks))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "type" and len(l.args) == 1 \
                    and isinstance(l.args[0], ast.Name) and l.args[0].id in env and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                nm = l.args[0].id
                ks = self.class_kinds(self.ev(r, env, st), exact=True)
                if ks:
                    a, b = upd(nm, self.narrow(env[nm], ks), self.minus(env[nm], ks))
                    return (a, b) if isinstance(op, (ast.Is, ast.Eq)) else (b, a)
            if isinstance(l, ast.Name) and l.id in env:
                v = env[l.id]
                if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    a, b = upd(l.id, tainted(NONE, v.taint), self.minus(v, {"none"}))
                    return (a, b) if isinstance(op, (ast.Is, ast.Eq)) else (b, a)
                rv = self.ev(r, env, st)
                if isinstance(op, (ast.Eq, ast.Is)) and rv.consts is not None and len(rv.consts) == 1 and \
                        (v.kinds is None or not (v.kinds & PANDAS)) and v.consts is None and isinstance(r, (ast.Constant, ast.Attribute)):
                    return upd(l.id, with_(v, consts=rv.consts, kinds=rv.kinds, selfr=E, cont=E, fields=()), v)
                if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and v.consts is not None and rv.consts is not None and rv.consts:
                    eqv = with_(v, consts=frozenset(c for c in v.consts if c in rv.consts))
                    nev = with_(v, consts=frozenset(c for c in v.consts if c not in rv.consts)) if len(rv.consts) == 1 else v
                    a, b = upd(l.id, eqv if eqv.consts else v, nev if nev.consts else v)
                    return (a, b) if isinstance(op, (ast.Eq, ast.Is)) else (b, a)
        if isinstance(e, ast.Name) and e.id in env:
            v = env[e.id]
            return upd(e.id, self.minus(v, {"none"}) if v.kinds is not None and "none" in v.kinds and len(v.kinds) > 1 else v, v)
        return et, ef

    def class_kinds(self, v, exact=False):
        out = set()
        vs = [v] if not v.fields else [x for k, x in v.fields if k[0] == "i"]
        for x in vs:
            if not x.refs:
                return None
            for r in x.refs:
                if r[0] == "cls":
                    c = self.cls_of(r[1])
                    out.add("cls:" + r[1])
                    if not exact:
                        for s in self.p.subclasses(c):
                            out.add("cls:" + s.id)
                elif r[0] == "ext":
                    n = r[1].split(".")[-1]
                    out.add({"DataFrame": "df", "int": "num", "float": "num", "NoneType": "none", "Counter": "dict",
                             "OrderedDict": "dict", "defaultdict": "dict"}.get(n, n))
                else:
                    return None
        return frozenset(out)

    def narrow(self, v, ks):
        if v.kinds is None:
            return with_(v, kinds=frozenset(ks))
        inter = v.kinds & ks
        return with_(v, kinds=inter) if inter else with_(v, kinds=frozenset(ks))

    def minus(self, v, ks):
        if v.kinds is None:
            return v
        rest = v.kinds - frozenset(ks)
        if not rest:
            return v
        nv = v
        if "none" in ks and v.consts is not None:
            nv = with_(nv, consts=frozenset(c for c in v.consts if c[0] != "NoneType") or None)
        return with_(nv, kinds=rest)

    # ------------------------------------------------------------ mutation
    def mutated(self, v, what, node, st, added=None):
        """record a mutation of the object(s) v may be"""
        st.touched |= v.selfr
        for root in v.selfr:
            if not is_alloc(root) and not is_weak(root):
                st.events.add(("mut", root, st.f.id if st.f else st.mod.name, getattr(node, "lineno", 0), what))

    def touch(self, v, add, env, st, skip=None):
        """weakly propagate an addition to every variable that may hold v"""
        if not v.selfr:
            return
        at = add.alltaint | st.pc
        ar = frozenset(add.selfr | add.allroots)
        if not at and not ar:
            return
        ids = v.selfr
        for nm, w in list(env.items()):
            if nm == skip:
                continue
            if w.selfr & ids or w.allroots & ids or self._holds(w, ids):
                nt = w.ctaint | at
                nc = w.cont | frozenset(r for r in ar)
                if nt != w.ctaint or nc != w.cont:
                    env[nm] = with_(w, ctaint=nt, cont=nc)

    def _holds(self, w, ids):
        return bool(w.allroots & ids)

    def store_lv(self, e, nv, env, st):
        """rewrite the abstract value held by lvalue-able expression e"""
        if isinstance(e, ast.Name):
            if e.id in env:
                env[e.id] = nv
            return
        if isinstance(e, ast.Attribute):
            if e.attr in VIEW_ATTRS:
                b = self.ev(e.value, env, st)
                if b.kinds is not None and b.kinds & PANDAS:
                    return
            b = self.ev(e.value, env, st)
            if b.refs and not b.selfr:
                return
            nb = set_field(b, ("a", e.attr), nv)
            if nb is not b:
                self.store_lv(e.value, nb, env, st)
            return
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env, st)
            k = self.ev(e.slice, env, st)
            if b.kinds is not None and b.kinds & PANDAS:
                return
            nb = self.put(b, k, nv, weak=False)
            if nb is not b:
                self.store_lv(e.value, nb, env, st)

    def put(self, b, k, nv, weak=False):
        if any(kk[0] == "i" for kk, _ in b.fields) and k.consts is not None and len(k.consts) == 1:
            c = next(iter(k.consts))
            if c[0] == "int" and b.field(("i", c[1])) is not None:
                return set_field(b, ("i", c[1]), nv)
        if (b.kinds is not None and b.kinds <= frozenset(["dict", "none"])) or any(kk[0] == "k" for kk, _ in b.fields):
            return self.dict_set(b, k, nv, weak)
        if b.kinds is not None and b.kinds <= frozenset(["list"]):
            if any(kk[0] == "i" for kk, _ in b.fields):
                f = {kk: x for kk, x in b.fields if kk[0] != "i"}
                f[("e",)] = joinall(x for kk, x in b.fields if kk[0] in ("i", "e"))
                b = with_(b, fields=f)
            return with_(set_field(b, ("e",), join(b.field(("e",)) or BOT, nv)), ctaint=b.ctaint | k.taint)
        ks = self.keys_of(k)
        if ks is not None and b.kinds is None:
            return self.dict_set(b, k, nv, weak)
        return with_(set_field(b, ("e",), join(b.field(("e",)) or BOT, nv)), ctaint=b.ctaint | k.taint)

    def assign(self, t, v, env, st, node=None):
        if st.pc:
            v = tainted(v, st.pc)
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, fresh("list", self.alloc(x, st), fields={("e",): self.elem(v)}), env, st)
                    continue
                f = v.field(("i", i))
                if f is not None:
                    iv = tainted(f, v.taint)
                    if v.field(("e",)) is not None:
                        iv = join(iv, v.field(("e",)))
                else:
                    iv = self.elem(v)
                self.assign(x, iv, env, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, st)
            if b.refs and b.kinds is not None and b.kinds <= frozenset(["func", "module"]):
                for r in b.refs:
                    if r[0] in ("mod", "cls", "func", "ext"):
                        st.events.add(("mut", ("M:%s.%s" % (r[1], t.attr), ""), st.f.id if st.f else st.mod.name, t.lineno,
                                       "attribute store %s.%s" % (r[1], t.attr)))
                return
            self.mutated(b, "attribute store .%s" % t.attr, t, st)
            done = False
            if b.kinds is not None:
                for kd in b.kinds:
                    if kd.startswith("cls:"):
                        c = self.cls_of(kd[4:])
                        s = self.property_setter(c, t.attr) if c is not None else None
                        if s is not None:
                            self.call_func(s, [b, v], {}, t, env, st, [t.value, None])
                            done = True
            if not done and self.content and "#cF" in v.alltaint and b.kinds:
                own = [st.f.cls] if st.f is not None and st.f.cls is not None and isinstance(t.value, ast.Name) and t.value.id == "self" else \
                    [self.cls_of(kd[4:]) for kd in b.kinds if kd.startswith("cls:")]
                v = tainted(v, frozenset("#cR:%s.%s" % (c_.qual, t.attr.strip("_")) for c_ in own if c_ is not None))
            if not done and self.shift and t.attr == "columns" and b.kinds is not None and b.kinds & PANDAS:
                self.store_lv(t.value, shift_suffixed(b, v), env, st)
            elif not done:
                nb = set_field(b, ("a", t.attr), v)
                self.store_lv(t.value, nb, env, st)
                self.touch(b, v, env, st, skip=t.value.id if isinstance(t.value, ast.Name) else None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, st)
            k = self.ev(t.slice, env, st)
            for o in self.observers:
                f = getattr(o, "subscript", None)
                if f:
                    f(self, b, k, t, st)
            self.mutated(b, "item store", t, st)
            if b.kinds is not None and b.kinds & PANDAS:
                root = t.value
                while isinstance(root, (ast.Attribute, ast.Subscript)):
                    root = root.value
                nt = v.alltaint | k.alltaint | st.pc
                if self.shift:
                    col = {"#cS:" + str(c[1]) for c in k.consts or ()} if "#cK" in v.alltaint and any(x[:2] == "S:" for x in v.alltaint) else set()
                    nt = frozenset(x for x in nt if x[:2] != "#c" and x[:4] != "#sx:") | col
                if self.rows:
                    nt = frozenset(x for x in nt if x[:2] not in ("R:", "#c", "W:"))
                    w = rows_rewritten(k)
                    if w and isinstance(t.value, (ast.Name, ast.Attribute)):
                        self.store_lv(t.value, with_(b, taint=b.taint | w), env, st)
                        b = self.ev(t.value, env, st)
                nb = with_(b, ctaint=b.ctaint | nt)
                if isinstance(root, ast.Name) and root.id in env:
                    w = env[root.id]
                    env[root.id] = with_(w, ctaint=w.ctaint | nt)
                self.touch(b, mk(None, None, E, E, nt), env, st)
                return
            if self.content and "#cF" in (self.added or v).alltaint and b.kinds is not None and any(x.endswith(":Marking") for x in b.kinds):
                v = tainted(v, frozenset(["#cR:Marking.tokens"]))
            nb = self.put(b, k, v)
            self.store_lv(t.value, nb, env, st)
            self.touch(b, v, env, st, skip=t.value.id if isinstance(t.value, ast.Name) else None)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, st):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env, st)
        return env

    def stmt(self, s, env, st):
        return getattr(self, "s_" + type(s).__name__, self.s_generic)(s, env, st)

    def s_generic(self, s, env, st):
        return env

    def s_Expr(self, s, env, st):
        self.ev(s.value, env, st)
        return env

    def s_Assign(self, s, env, st):
        v = self.ev(s.value, env, st)
        for t in s.targets:
            self.assign(t, v, env, st, s)
        return env

    def s_AnnAssign(self, s, env, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, st), env, st, s)
        return env

    def s_AugAssign(self, s, env, st):
        import copy as _c
        t = s.target
        load = _c.copy(t)
        load.ctx = ast.Load()
        cur = self.ev(load, env, st)
        v = self.ev(s.value, env, st)
        r = self.binop(s.op, cur, v, s, st)
        mutable = cur.kinds is not None and cur.kinds & frozenset(["list", "set", "dict", "df"]) and \
            not (cur.kinds & frozenset(["num", "str"]))
        if cur.kinds is None and v.kinds is not None and v.kinds & frozenset(["list", "set", "dict"]) and isinstance(s.op, (ast.Add, ast.BitOr)):
            mutable = True
        if mutable:
            self.mutated(cur, "augmented assignment", s, st)
            r = with_(r, selfr=cur.selfr, cont=r.cont | cur.cont)
            self.touch(cur, v, env, st)
        if isinstance(t, ast.Name):
            env[t.id] = tainted(r, st.pc | cur.taint | v.taint)
        else:
            self.added = v                     # what a += b puts into a
            self.assign(t, tainted(r, st.pc), env, st, s)
            self.added = None
        return env

    def s_Return(self, s, env, st):
        v = self.ev(s.value, env, st) if s.value is not None else NONE
        st.ret = join(st.ret, tainted(v, st.pc))
        st.exits = env_join(st.exits, env)
        return None

    def s_Raise(self, s, env, st):
        if s.exc is not None:
            self.ev(s.exc, env, st)
        return None

    def s_Assert(self, s, env, st):
        t, a, b = self.test(s.test, env, st)
        return a if a is not None else env

    def s_Pass(self, s, env, st):
        return env

    def s_Delete(self, s, env, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env, st)
                k = self.ev(t.slice, env, st)
                self.mutated(b, "item delete", t, st)
                ks = self.keys_of(k)
                if ks and len(ks) == 1 and b.field(("k", next(iter(ks)))) is not None:
                    f = dict(b.fields)
                    del f[("k", next(iter(ks)))]
                    self.store_lv(t.value, with_(b, fields=f), env, st)
                else:
                    self.touch(b, mk(None, None, E, E, k.taint), env, st)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env, st)
                self.mutated(b, "attribute delete", t, st)
        return env

    def s_If(self, s, env, st):
        tv = self.ev(s.test, env, st)
        t, a, b = self.test(s.test, env, st)
        if t is True:
            return self.block(s.body, dict(a), st)
        if t is False:
            return self.block(s.orelse, dict(b), st)
        pc0 = st.pc
        nt = self.asked(s.test, tv.taint | tv.ctaint)
        st.pc = pc0 | nt
        r1 = self.block(s.body, dict(a), st)
        st.pc = pc0 | nt
        r2 = self.block(s.orelse, dict(b), st)
        st.pc = pc0
        if nt and ((r1 is None) != (r2 is None)):
            # one side leaves: the rest is control dependent, unless it leaves by raising
            side = s.body if r1 is None else s.orelse
            if not self.only_raises(side):
                st.pc = pc0 | nt
        return env_join(r1, r2)

    def asked(self, test, taint):
        """whether there is anything at all is the same question for events and cases: the size itself does not decide"""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test = test.operand
        return frozenset(nosize(taint)) if self.sizes and isinstance(test, ast.Call) else taint

    def only_raises(self, stmts):
        for n in stmts:
            for x in ast.walk(n):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                    return False
        return True

    def loop(self, s, env, st, head):
        """generic fixpoint: head(env)-> (env_body|None, env_exit|None)"""
        brk0, cont0 = st.brk, st.cont
        st.brk, st.cont = [], []
        pc0 = st.pc
        cur = dict(env)
        out = None
        for it in range(6):
            st.cont = []
            body_in, exit_env = head(dict(cur))
            out = env_join(out, exit_env)
            pcl = st.pc
            r = self.block(s.body, body_in, st) if body_in is not None else None
            st.pc = st.pc | pcl
            for c in st.cont:
                r = env_join(r, c)
            after = r
            nxt = env_join(cur, r)
            if env_eq(nxt, cur):
                break
            if it >= 3:
                nxt = {k: (v if cur.get(k) is v else self.widen(cur.get(k), v)) for k, v in nxt.items()}
            cur = nxt
        b2, ex = head(dict(cur))
        out = env_join(out, ex)
        if self.shift and isinstance(s, ast.For) and after is not None:
            out = dict(after)       # at least one round: a filter applied per column of a pattern
        if s.orelse and out is not None:
            out = self.block(s.orelse, out, st)
        for b in st.brk:
            out = env_join(out, b)
        # control dependence introduced by break/continue inside the loop stays
        leaves = any(isinstance(x, (ast.Return,)) for n in s.body for x in ast.walk(n))
        st.pc = st.pc if leaves else pc0
        st.brk, st.cont = brk0, cont0
        return out

    def widen(self, old, new):
        if old is None:
            return new
        v = new
        if v.consts is not None and (old.consts is None or not v.consts <= old.consts):
            v = with_(v, consts=None)
        return collapse_below(v, 2)

    def s_For(self, s, env, st):
        it = self.ev(s.iter, env, st)
        nt = it.taint | it.ctaint

        if self.content and it.closed and it.kinds == frozenset(["dict"]) and it.fields and len(it.fields) <= 16 and all(k[0] == "k" for k, _ in it.fields):
            it = mk(frozenset(["tuple"]), None, E, E, it.taint, E, E, {("i", i): const(k[1][1]) for i, (k, _) in enumerate(it.fields)})
        if it.fields and len(it.fields) <= (16 if self.content else 8) and all(k[0] == "i" for k, _ in it.fields) or \
                (it.closed and it.kinds == frozenset(["list"]) and not it.fields):
            brk0, cont0 = st.brk, st.cont
            st.brk, out = [], None
            cur = env
            for _, x in it.fields:
                if cur is None:
                    break
                st.cont = []
                cur = dict(cur)
                self.assign(s.target, tainted(x, it.taint), cur, st)
                cur = self.block(s.body, cur, st)
                for c in st.cont:
                    cur = env_join(cur, c)
            if s.orelse and cur is not None:
                cur = self.block(s.orelse, cur, st)
            for b in st.brk:
                cur = env_join(cur, b)
            st.brk, st.cont = brk0, cont0
            return cur

        def head(e):
            iv = self.ev(s.iter, e, st)
            st.pc = st.pc | (iv.taint | iv.ctaint)
            b = dict(e)
            self.assign(s.target, self.elem(iv), b, st)
            return b, e
        return self.loop(s, env, st, head)

    s_AsyncFor = s_For

    def s_While(self, s, env, st):
        def head(e):
            tv = self.ev(s.test, e, st)
            t, a, b = self.test(s.test, e, st)
            if t is None:
                st.pc = st.pc | tv.taint | tv.ctaint
            return (dict(a) if a is not None and t is not False else None), (dict(b) if b is not None and t is not True else None)
        return self.loop(s, env, st, head)

    def s_Break(self, s, env, st):
        st.brk.append(env)
        return None

    def s_Continue(self, s, env, st):
        st.cont.append(env)
        return None

    def s_With(self, s, env, st):
        for it in s.items:
            v = self.ev(it.context_expr, env, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, st)
        return self.block(s.body, env, st)

    s_AsyncWith = s_With

    def s_Try(self, s, env, st):
        mid = dict(env)
        cur = dict(env)
        for x in s.body:
            if cur is None:
                break
            cur = self.stmt(x, cur, st)
            mid = env_join(mid, cur)
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, st)
        out = cur
        for h in s.handlers:
            he = dict(mid)
            if h.name:
                he[h.name] = TOP
            r = self.block(h.body, he, st)
            out = env_join(out, r)
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, dict(mid), st)
                return None
            out = self.block(s.finalbody, out, st)
        return out

    s_TryStar = s_Try

    def s_Match(self, s, env, st):
        v = self.ev(s.subject, env, st)
        pc0 = st.pc
        st.pc = st.pc | v.alltaint
        out = env
        for c in s.cases:
            e2 = dict(env)
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    e2[nm] = self.elem(v)
            out = env_join(out, self.block(c.body, e2, st))
        st.pc = pc0
        return out

    def s_Import(self, s, env, st):
        for a in s.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            root = nm.split(".")[0]
            if root == PKG and nm in self.p.modules:
                env[a.asname or nm] = self.ref_value(("mod", nm))
            else:
                env[a.asname or nm] = self.ref_value(("ext", nm))
        return env

    def s_ImportFrom(self, s, env, st):
        base = resolve_from(st.mod, s)
        for a in s.names:
            if a.name == "*":
                continue
            if base.split(".")[0] == PKG:
                v = self.mod_attr(base, a.name)
                if v is None:
                    self.note_missing(base, a.name, s, st)
                    v = TOP
                env[a.asname or a.name] = v
            else:
                env[a.asname or a.name] = self.ref_value(("ext", base + "." + a.name))
        return env

    def s_FunctionDef(self, s, env, st):
        env[s.name] = self.closure(s, env, st)
        # let a recursive closure see itself
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env, st):
        c = getattr(s, "_sa_cls", None)
        env[s.name] = self.ref_value(("class", c)) if c is not None else TOP
        return env

    def s_Global(self, s, env, st):
        for n in s.names:
            st.events.add(("mut", ("G:%s.%s" % (st.mod.name, n), ""), st.f.id if st.f else st.mod.name, s.lineno,
                           "global statement for %s" % n))
        return env

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env, st):
        fn = e.func
        recv_expr = None
        if isinstance(fn, ast.Attribute):
            # super().m(...)
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and st.cls is not None:
                args, kw, exprs, kwexprs = self.args(e, env, st)
                return self.call_super(fn.attr, args, kw, exprs, kwexprs, e, env, st)
            b = self.ev(fn.value, env, st)
            recv_expr = fn.value
            if not (b.refs and b.kinds is not None and b.kinds <= frozenset(["func", "module"])):
                r = self.call_method(b, fn.attr, recv_expr, e, env, st)
                if self.content and fn.attr in ("items", "values", "get", "pop", "elements", "most_common", "copy") and b.kinds is not None and any(x.endswith(":Marking") for x in b.kinds):
                    r = tainted(r, frozenset("#cA:tokens of " + x[4:] for x in b.alltaint if x[:4] == "#cA:" and x[4:10] != "tokens"))
                if self.content and fn.attr in ("get", "pop", "find", "findall", "findtext", "iter") and e.args and r.refs == E:
                    k = self.ev(e.args[0], env, st)
                    if k.consts is not None and len(k.consts) == 1 and next(iter(k.consts))[0] == "str":
                        r = steps(tainted(r, frozenset(["#cf:[%s]" % next(iter(k.consts))[1]])), b, ["[%s]" % next(iter(k.consts))[1]])
                return r
            fv = self.getattr(b, fn.attr, fn, env, st)
        else:
            fv = self.ev(fn, env, st)
        args, kw, exprs, kwexprs = self.args(e, env, st)
        return self.call_value(fv, args, kw, e, env, st, exprs, kwexprs)

    def args(self, e, env, st):
        args, exprs, kw, kwexprs = [], [], {}, {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, st)
                n = sum(1 for k, _ in v.fields if k[0] == "i")
                if n and v.field(("e",)) is None:
                    for i in range(n):
                        args.append(v.field(("i", i)) or TOP)
                        exprs.append(None)
                else:
                    args.append(("*", self.elem(v)))
                    exprs.append(None)
            else:
                args.append(self.ev(a, env, st))
                exprs.append(a)
        for k in e.keywords:
            v = self.ev(k.value, env, st)
            if k.arg is None:
                for kk, x in v.fields:
                    if kk[0] == "k" and kk[1] != "*" and kk[1][0] == "str":
                        kw.setdefault(kk[1][1], x)
                if not v.closed:
                    kw["**"] = part(v, "[]")
            else:
                kw[k.arg] = v
                kwexprs[k.arg] = k.value
        return args, kw, exprs, kwexprs

    def flat(self, args, kw):
        return [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values())

    def call_value(self, fv, args, kw, e, env, st, exprs=None, kwexprs=None):
        r = BOT
        known = False
        for ref in sorted(fv.refs, key=repr):
            if ref[0] == "func":
                known = True
                r = join(r, self.call_func(self.p.funcs[ref[1]], args, kw, e, env, st, exprs, kwexprs))
            elif ref[0] == "bound":
                known = True
                r = join(r, self.call_func(self.p.funcs[ref[1]], [ref[2]] + list(args), kw, e, env, st, [None] + list(exprs or []), kwexprs))
            elif ref[0] == "cls":
                known = True
                r = join(r, self.instantiate(ref[1], args, kw, e, env, st, exprs, kwexprs))
            elif ref[0] == "clo":
                known = True
                r = join(r, self.call_closure(ref, args, kw, e, env, st, exprs, kwexprs))
            elif ref[0] == "ext":
                known = True
                r = join(r, self.call_ext(ref[1], args, kw, e, env, st, exprs, kwexprs))
            elif ref[0] == "mod":
                known = True
        if not known:
            self.stats["unresolved"] += 1
            return tainted(self.unknown_call(args, kw, e, env, st, extra=fv), fv.taint)
        return tainted(r, fv.taint) if r is not BOT else (BOT if False else TOP if r is BOT and not self.stack else r)

    def unknown_call(self, args, kw, e, env, st, extra=None):
        t, roots = set(), set()
        vals = self.flat(args, kw)
        cbs = []
        for v in vals + ([extra] if extra is not None else []):
            t |= v.alltaint
            roots |= v.selfr | v.allroots
            if v.refs and v.kinds is not None and "func" in v.kinds:
                cbs.append(v)
        if cbs:
            others = joinall(self.elem(v) for v in vals if v not in cbs) if len(vals) > len(cbs) else TOP
            if others is BOT:
                others = TOP
            for c in cbs:
                res = self.callback(c, [others], e, env, st)
                t |= res.alltaint
                roots |= res.selfr | res.allroots
        st.sink |= t
        cont = frozenset(r for r in roots)
        return mk(None, None, E, frozenset([("A:" + self.alloc(e, st), "")]), frozenset(t), cont)

    def callback(self, fv, cargs, e, env, st):
        """call a function value handed to unknown code: every positional parameter gets the join of cargs"""
        r = BOT
        base = joinall(cargs)
        for ref in fv.refs:
            f = None
            if ref[0] == "func":
                f = self.p.funcs[ref[1]]
                n = len(f.node.args.args)
                r = join(r, self.call_func(f, [base] * n, {}, e, env, st))
            elif ref[0] == "clo":
                node = self.closures[ref][0]
                n = len(node.args.args)
                r = join(r, self.call_closure(ref, [base] * n, {}, e, env, st))
            elif ref[0] == "bound":
                f = self.p.funcs[ref[1]]
                n = max(0, len(f.node.args.args) - 1)
                r = join(r, self.call_func(f, [ref[2]] + [base] * n, {}, e, env, st))
        return r if r is not BOT else TOP

    # external functions ---------------------------------------------------
    def call_ext(self, name, args, kw, e, env, st, exprs=None, kwexprs=None):
        cat = classify_ext(name)
        if cat is None:
            return self.call_ext_(name, args, kw, e, env, st, exprs, kwexprs)
        if cat == "open":
            m = (args[1] if len(args) > 1 and not isinstance(args[1], tuple) else kw.get("mode"))
            cat = "fs-read"
            if m is not None and (m.consts is None or any(c[0] != "str" or set(str(c[1])) & set("wax+") for c in m.consts)):
                cat = "fs-write"
        if cat not in ("rng", "clock", "uuid", "id"):
            st.events.add(("eff", cat, st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), name))
        r = self.call_ext_(name, args, kw, e, env, st, exprs, kwexprs)
        if cat in ("rng", "clock", "uuid", "id"):
            lab = frozenset(["#" + cat])
            r = tainted(r, lab) if r is not BOT else r
            if name.split(".")[-1] == "shuffle" and exprs and isinstance(exprs[0], ast.Name) and exprs[0].id in env:
                w = env[exprs[0].id]
                env[exprs[0].id] = with_(w, ctaint=w.ctaint | lab)
        return r

    def call_ext_(self, name, args, kw, e, env, st, exprs=None, kwexprs=None):
        if self.rows and name in ("numpy.isin", "numpy.in1d") and len(args) > 1 and isinstance(args[0], V) and isinstance(args[1], V):
            return rows_mask(args[0], args[1], "isin", True)
        r = self.call_ext__(name, args, kw, e, env, st, exprs, kwexprs)
        if self.sizes and name.startswith("numpy.") and PER_EVENT in r.alltaint and not (args and isinstance(args[0], V) and table_of(args[0])):
            r = no_table(r)
        if self.shift and args and isinstance(args[0], V):
            if name in ("numpy.argsort", "numpy.lexsort"):
                r = with_(r, taint=self.order_of(args[0], kw, r.taint, e, st))
            elif name == "numpy.unique":
                ri = kw.get("return_index", args[1] if len(args) > 1 and isinstance(args[1], V) else None)
                if ri is not None and shift_key(args[0]):
                    self.needs_gathered(args[0], e, st)
        if self.shift and name.endswith(".concat") and "#cE" in r.taint and (kw.get("axis") is None or kw["axis"].consts != frozenset([("int", 1)])):
            r = with_(r, taint=r.taint | {"#cU"})
        if self.shift and any(x[:3] in ("#cB", "#cG") for x in r.taint):
            return with_(r, taint=frozenset(x for x in shift_checked(r.taint) if x != "#cG"))
        return rows_part(r) if self.rows and not name.startswith(("builtins.", "copy.")) else r

    def call_ext__(self, name, args, kw, e, env, st, exprs=None, kwexprs=None):
        short = name.split(".")[-1]
        pos = [a[1] if isinstance(a, tuple) else a for a in args]
        if self.content and short == "SubElement" and pos:
            for v in pos[1:]:
                self.touch(pos[0], v, env, st)
            return with_(pos[0], fields=(), closed=False)     # what is stored in it is part of the tree
        vals = self.flat(args, kw)
        t = frozenset().union(*[v.alltaint for v in vals]) if vals else E
        al = frozenset([("A:" + self.alloc(e, st), "")])
        if name.startswith("builtins."):
            r = self.call_builtin(short, pos, kw, e, env, st, exprs, t, al)
            if r is not None:
                return r
        if name in ("copy.copy", "copy.deepcopy") and pos:
            return self.do_copy(pos[0], short, e, env, st)
        if short in ("Counter", "OrderedDict", "defaultdict", "deque") and name.startswith("collections."):
            kind = "list" if short == "deque" else "dict"
            if short == "defaultdict":
                v = fresh("dict", self.alloc(e, st), closed=False)
                if pos[1:]:
                    v = self.dict_merge(v, pos[1])
                return v
            if not pos:
                return fresh(kind, self.alloc(e, st), closed=kind == "dict")
            src = pos[0]
            if kind == "dict" and src.kinds is not None and "dict" in src.kinds:
                return with_(self.dict_merge(fresh("dict", self.alloc(e, st), closed=True), src), taint=src.taint)
            return fresh(kind, self.alloc(e, st), fields={(("e",) if kind == "list" else ("kk",)): self.elem(src)}, taint=src.taint, ctaint=src.ctaint)
        if name in EXT_ARG_MUTATORS and pos:
            i = EXT_ARG_MUTATORS[name]
            self.mutated(pos[i], "call %s" % name, e, st)
            if len(pos) > 1 and exprs and exprs[i] is not None and short in ("heappush", "insort", "heappushpop", "heapreplace"):
                b = pos[i]
                nb = with_(set_field(b, ("e",), join(b.field(("e",)) or BOT, tainted(pos[1], st.pc))))
                self.store_lv(exprs[i], nb, env, st)
                self.touch(b, pos[1], env, st, skip=exprs[i].id if isinstance(exprs[i], ast.Name) else None)
            if short in ("heappop", "heappushpop", "heapreplace"):
                return self.elem(pos[i])
            return NONE
        if name in ("functools.partial",) and pos and pos[0].refs:
            return pos[0]
        if short == "reduce" and len(pos) >= 2:
            return self.callback(pos[0], [self.elem(pos[1])] + ([pos[2]] if len(pos) > 2 else []), e, env, st)
        if self.sizes and short in ("DataFrame", "from_dict", "from_records", "unique", "merge"):
            t = t - {PER_EVENT}
        if short in ("DataFrame",) or (short in ("from_dict", "from_records", "read_csv", "read_parquet", "merge", "concat", "to_datetime", "json_normalize")
                                       and ("pandas" in name or "DATAFRAME" in name)):
            st.sink |= t
            if self.rows and short == "concat" and pos:
                t = rows_concat(pos[0], t)
            return mk(frozenset(["df"]) if short not in ("to_datetime",) else frozenset(["pd"]), None, E, al, t)
        if name.startswith(("math.", "time.", "datetime.", "re.", "uuid.", "hashlib.", "os.path.", "json.dumps", "random.")) and \
                short not in ("sample", "choice", "choices"):
            for v in vals:
                if v.refs and "func" in (v.kinds or ()):
                    self.callback(v, [TOP], e, env, st)
            return mk(None if name.startswith(("re.", "datetime.")) else frozenset(["num", "str", "bool"]), None, E, E, t)
        if short in ("sample", "choice", "choices") and pos:
            return mk(None, None, E, al, t, frozenset(pos[0].cont) | part(pos[0], "[]").selfr, E, {("e",): self.elem(pos[0])}) \
                if short != "choice" else self.elem(pos[0])
        if name.startswith("itertools.") and pos:
            el = joinall(self.elem(x) for x in pos)
            if short in ("chain", "islice", "takewhile", "dropwhile", "cycle", "repeat", "from_iterable", "filterfalse"):
                if short == "from_iterable":
                    el = self.elem(el)
                for v in pos:
                    if v.refs and "func" in (v.kinds or ()):
                        self.callback(v, [el], e, env, st)
                return fresh("list", self.alloc(e, st), fields={("e",): el}, taint=t)
            return fresh("list", self.alloc(e, st), fields={("e",): mk(frozenset(["tuple"]), None, E, E, t, E, E, {("e",): el})}, taint=t)
        if name.startswith("numpy."):
            if name in NP_ASARRAY:
                r = self.unknown_call(args, kw, e, env, st)
                return with_(r, selfr=r.selfr | pos[0].selfr)
            for v in vals:
                if v.refs and "func" in (v.kinds or ()):
                    self.callback(v, [TOP], e, env, st)
            return mk(frozenset(["pd"]), None, E, al, t)
        if short in ("Thread", "Timer", "Process") and ("target" in kw or "function" in kw):
            target = kw.get("target") or kw.get("function")
            a = kw.get("args")
            fields = [x for k, x in (a.fields if a is not None else ()) if k[0] == "i"]
            self.call_value(target, fields, {}, e, env, st)
        return self.unknown_call(args, kw, e, env, st)

    def do_copy(self, v, how, e, env, st):
        """copy.copy / copy.deepcopy"""
        r = BOT
        dunder = "__copy__" if how == "copy" else "__deepcopy__"
        if v.kinds is not None:
            rest = set()
            for k in v.kinds:
                if k.startswith("cls:"):
                    m = self.p.class_member(self.cls_of(k[4:]), dunder)
                    if m is not None and m[0] == "func":
                        res = self.call_func(m[1], [with_(v, kinds=frozenset([k]))] + ([NONE] if how == "deepcopy" else []), {}, e, env, st)
                        if res.kinds is None:
                            res = with_(res, kinds=frozenset([k]))   # a copy has the class of its original
                        r = join(r, res)
                        continue
                rest.add(k)
            if not rest:
                return r
            v = with_(v, kinds=frozenset(rest))
        al = frozenset([("A:" + self.alloc(e, st), "")])
        if how == "deepcopy":
            return join(r, mk(v.kinds, v.consts, v.refs, al, v.taint, E, v.ctaint | (v.alltaint - v.taint),
                              {k: self.strip_roots(f) for k, f in v.fields}, v.closed))
        if v.kinds is not None and v.kinds & PANDAS:
            return join(r, mk(v.kinds, None, E, al, v.taint, E, v.ctaint))
        f = dict(v.fields)
        if any(not is_alloc(x) for x in v.selfr) and not (v.closed and v.kinds == frozenset(["dict"])):
            k = ("k", "*") if v.kinds == frozenset(["dict"]) else ("e",)
            f[k] = join(f.get(k, BOT), with_(part(with_(v, cont=E, fields=()), "[]")))
        return join(r, mk(v.kinds, v.consts, v.refs, al, v.taint, v.cont, v.ctaint, f, v.closed))

    def strip_roots(self, v):
        return mk(v.kinds, v.consts, v.refs, E, v.taint, E, v.ctaint, {k: self.strip_roots(f) for k, f in v.fields}, v.closed)

    def shallow_items(self, v):
        cont = set(v.cont)
        return frozenset(cont)

    def rows_label(self, e, st):
        return "#rows@%s:%d" % (st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0))

    def call_builtin(self, n, pos, kw, e, env, st, exprs, t, al):
        a = pos[0] if pos else None
        if n in ("list", "set", "frozenset", "tuple", "sorted", "reversed", "iter"):
            kind = {"sorted": "list", "reversed": "list", "iter": "list", "frozenset": "set", "tuple": "list"}.get(n, n)
            if a is None:
                return fresh(kind, self.alloc(e, st))
            el = self.elem(a)
            tt = a.taint | a.ctaint
            if "key" in kw:
                res = self.callback(kw["key"], [el], e, env, st)
                tt = tt | res.alltaint
            for x in kw.values():
                tt = tt | x.taint
            if n == "tuple" and a.fields and all(k[0] == "i" for k, _ in a.fields):
                return a
            kk = frozenset([kind]) if n != "tuple" else frozenset(["tuple"])
            ordered = {k: x for k, x in a.fields if k[0] == "i"} if n in ("list", "iter") and a.fields and all(k[0] == "i" for k, _ in a.fields) else {("e",): el}
            return mk(kk, None, E, al if n != "tuple" else E, a.taint, E, a.ctaint | (tt - a.taint), ordered)
        if n == "dict":
            v = fresh("dict", self.alloc(e, st), closed=True)
            if a is not None:
                if a.kinds is not None and "dict" in a.kinds or any(k[0] == "k" for k, _ in a.fields):
                    v = self.dict_merge(v, a)
                else:
                    el = self.elem(a)
                    v = with_(v, closed=False, taint=v.taint | a.taint, ctaint=v.ctaint | a.ctaint,
                              fields={("k", "*"): self.elem(el) if not el.field(("i", 1)) else el.field(("i", 1)),
                                      ("kk",): el.field(("i", 0)) or self.elem(el)})
                    if any(k.startswith("cls:") for k in (a.kinds or ())):
                        v = with_(v, fields={("k", "*"): self.elem(a)})
            for k, x in kw.items():
                if k != "**":
                    v = self.dict_set(v, const(k), x)
                else:
                    v = with_(v, closed=False, cont=v.cont | x.selfr | x.cont, ctaint=v.ctaint | x.alltaint)
            return v
        if n in ("len", "abs", "sum", "round", "int", "float", "hash", "id", "ord", "bool", "any", "all", "pow", "divmod", "complex"):
            tt = set()
            for x in pos:
                tt |= x.taint | x.ctaint
                if n in ("sum", "any", "all", "hash"):
                    tt |= x.alltaint
            if n == "sum" and a is not None and a.field(("e",)) is not None and a.field(("e",)).kinds and \
                    a.field(("e",)).kinds & frozenset(["list", "cls"]):
                return None
            if n == "len" and self.sizes and a is not None:
                if table_of(a):
                    tt.add(self.rows_label(e, st))
                tt.discard(PER_EVENT)
            if n == "len" and self.content:
                tt = {x for x in tt if x[:2] != "#c" and x[:3] != "#kf"}      # how many is not the content
            return mk(frozenset(["num"]) if n not in ("bool", "any", "all") else frozenset(["bool"]), None, E, E, frozenset(tt))
        if n in ("str", "repr", "format", "chr", "ascii", "hex", "bin", "input"):
            if n == "str" and a is not None and a.consts is not None and len(a.consts) == 1:
                c = next(iter(a.consts))
                if c[0] == "str":
                    return a
            return mk(frozenset(["str"]), None, E, E, t)
        if n in ("min", "max"):
            if len(pos) == 1:
                el = self.elem(a)
                if "key" in kw:
                    t = t | self.callback(kw["key"], [el], e, env, st).alltaint
                return tainted(el, t) if "default" not in kw else tainted(join(el, kw["default"]), t)
            return tainted(joinall(pos), t)
        if n == "enumerate" and a is not None:
            el = mk(frozenset(["tuple"]), None, E, E, E, E, E, {("i", 0): NUM, ("i", 1): self.elem(a)})
            return mk(frozenset(["list"]), None, E, al, a.taint, E, a.ctaint, {("e",): el})
        if n == "zip":
            el = mk(frozenset(["tuple"]), None, E, E, E, E, E, {("i", i): self.elem(x) for i, x in enumerate(pos)}) if pos else TOP
            return mk(frozenset(["list"]), None, E, al, E, E, t, {("e",): el})
        if n == "range":
            tt = frozenset().union(*[x.taint for x in pos]) if pos else E
            if self.sizes:
                tt = frozenset(nosize(tt))      # going through the rows
            return mk(frozenset(["list"]), None, E, E, tt, E, E, {("e",): NUM})
        if n in ("map", "filter") and len(pos) >= 2:
            el = joinall(self.elem(x) for x in pos[1:])
            res = self.callback(pos[0], [el], e, env, st) if pos[0].refs else TOP
            if n == "filter":
                return mk(frozenset(["list"]), None, E, al, pos[1].taint, E, pos[1].ctaint | res.taint | pos[0].taint, {("e",): el})
            if any(r[0] == "ext" for r in pos[0].refs):
                res = mk(None, None, E, E, el.alltaint | res.alltaint)
            return mk(frozenset(["list"]), None, E, al, E, E, t, {("e",): res})
        if n == "isinstance" and len(pos) == 2:
            ks = self.class_kinds(pos[1])
            tt = pos[0].taint
            if ks is not None and pos[0].kinds is not None and pos[0].kinds:
                if pos[0].kinds <= ks:
                    return tainted(const(True), tt)
                if pos[0].kinds.isdisjoint(ks) and not (pos[0].kinds & frozenset(["pd", "slice"])) and \
                        not (ks & frozenset(["Iterable", "Collection", "Mapping", "Sequence", "Enum", "object", "MutableMapping", "Number", "ABC", "EnumMeta"])) \
                        and all(k in KNOWN_KINDS or k.startswith(("cls:", "enum:")) for k in pos[0].kinds):
                    return tainted(const(False), tt)
            return mk(frozenset(["bool"]), None, E, E, tt)
        if n == "type" and len(pos) == 1:
            return self.type_of(pos[0])
        if n == "hasattr" and len(pos) == 2:
            if pos[0].kinds is not None and pos[0].kinds <= PANDAS and pos[1].consts == frozenset([("str", "attrs")]):
                return const(True)
            if pos[0].kinds and pos[1].consts is not None and len(pos[1].consts) == 1:
                a_ = next(iter(pos[1].consts))[1]
                if pos[0].kinds <= PANDAS and a_ in ("properties", "_list"):
                    return const(False)
                if all(k.startswith("cls:") for k in pos[0].kinds):
                    if all(self.p.class_member(self.cls_of(k[4:]), a_) is not None for k in pos[0].kinds):
                        return const(True)
            return mk(frozenset(["bool"]), None, E, E, pos[0].taint)
        if n == "getattr" and len(pos) >= 2:
            if pos[1].consts is not None and len(pos[1].consts) == 1:
                v = self.getattr(pos[0], next(iter(pos[1].consts))[1], e, env, st)
                return join(v, pos[2]) if len(pos) > 2 else v
            return tainted(part(pos[0], ".*"), t)
        if n == "setattr" and len(pos) == 3:
            if self.content and isinstance(e, ast.Call) and len(e.args) == 3 and isinstance(e.args[0], ast.Name) and pos[1].consts is not None and len(pos[1].consts) == 1:
                t_ = ast.copy_location(ast.Attribute(value=e.args[0], attr=next(iter(pos[1].consts))[1], ctx=ast.Store()), e)
                self.assign(t_, pos[2], env, st)
                return NONE
            self.mutated(pos[0], "setattr", e, st)
            self.touch(pos[0], pos[2], env, st)
            for r in pos[0].refs:
                st.events.add(("mut", ("M:%s" % (r[1],), ""), st.f.id if st.f else st.mod.name, e.lineno, "setattr on %s" % (r[1],)))
            return NONE
        if n == "delattr" and pos:
            self.mutated(pos[0], "delattr", e, st)
            return NONE
        if n == "next" and pos:
            v = self.elem(pos[0])
            return join(v, pos[1]) if len(pos) > 1 else v
        if n in ("print",):
            st.sink |= t
            return NONE
        if n in ("eval", "exec", "open", "__import__", "vars", "dir", "globals", "locals"):
            st.sink |= t
            return mk(None, None, E, al, t)
        if n in ("object",):
            return fresh("obj", self.alloc(e, st))
        if n == "super":
            return TOP
        if n == "callable":
            return BOOL
        if n.endswith(("Error", "Exception", "Warning", "Interrupt")):
            return mk(frozenset(["exc"]), None, E, E, t)
        return None

    # methods ----------------------------------------------------------------
    def call_method(self, b, attr, recv, e, env, st):
        args, kw, exprs, kwexprs = self.args(e, env, st)
        # a field holding a callable
        fv = b.field(("a", attr))
        if fv is not None and fv.refs and fv.kinds == frozenset(["func"]):
            return self.call_value(fv, args, kw, e, env, st, exprs, kwexprs)
        # enum attribute like variant.value.apply handled in getattr: value refs
        r = BOT
        hit = False
        if b.refs:
            v = self.getattr(with_(b, kinds=frozenset(["func"]), selfr=E, fields=()), attr, e, env, st)
            if v.refs:
                r = join(r, self.call_value(v, args, kw, e, env, st, exprs, kwexprs))
                hit = True
        if b.kinds is not None:
            for k in sorted(b.kinds):
                if k.startswith("cls:"):
                    c = self.cls_of(k[4:])
                    m = self.p.class_member(c, attr) if c is not None else None
                    if m is not None and m[0] == "func":
                        hit = True
                        decs = [self.decname(d) for d in m[1].node.decorator_list]
                        if "staticmethod" in decs:
                            r = join(r, self.call_func(m[1], args, kw, e, env, st, exprs, kwexprs))
                        else:
                            r = join(r, self.call_func(m[1], [b] + args, kw, e, env, st, [recv] + exprs, kwexprs))
            if hit and all(k.startswith("cls:") or k == "none" for k in b.kinds):
                return tainted(r, b.taint) if r is not BOT else r
        elif attr not in MUTATORS and attr not in PART_METHODS and attr in self.cha and len(self.cha[attr]) <= 6 and attr not in GENERIC_METHODS:
            # class-hierarchy candidates for a receiver of unknown kind
            for c, f in self.cha[attr]:
                if any(self.decname(d) in ("staticmethod", "classmethod") for d in f.node.decorator_list):
                    continue
                n = len(f.node.args.args)
                if len(args) + len(kw) > n - 1 and not f.node.args.vararg and not f.node.args.kwarg:
                    continue
                hit = True
                bb = with_(b, kinds=frozenset(["cls:" + c.id]))
                r = join(r, self.call_func(f, [bb] + args, kw, e, env, st, [recv] + exprs, kwexprs))
            if hit:
                return tainted(r, b.taint) if r is not BOT else r
        if attr == "sample" and b.kinds is not None and b.kinds & PANDAS and "random_state" not in kw:
            b = tainted(b, frozenset(["#rng"]))
        if attr in FILE_METHODS and (args or kw):
            a0 = args[0] if args else next(iter(kw.values()))
            a0 = a0[1] if isinstance(a0, tuple) else a0
            if attr in FILE_METHODS[:7] or a0.kinds is None or "str" in a0.kinds:
                st.events.add(("eff", "fs-write", st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), "." + attr))
        r2 = self.generic_method(b, attr, recv, args, kw, exprs, e, env, st)
        return join(r, r2)

    # rows gathered by case (C29): "#cU" is a table whose rows of a case need not lie together, "#cO" the positions
    # that gather them
    def needs_gathered(self, v, e, st):
        st.events.add(("gathered", st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), "#cU" not in v.alltaint))

    def gathered(self, by, kw, t, e, st):
        if by.fields:
            keys = dict(by.fields)
            first, alone = keys.get(("i", 0)), len(keys) == 1
            if first is None:
                first, alone = joinall([x for _, x in by.fields]), False
        else:
            first, alone = by, by.kinds is None or not by.kinds & frozenset(["list", "tuple"])
        t = t - {"#cU"}
        if not shift_key(first):
            return t | {"#cU"}
        if alone:
            self.needs_stable(kw, e, st)
        return t

    def needs_stable(self, kw, e, st):
        k = kw.get("kind")
        ok = k is not None and k.consts is not None and {c[1] for c in k.consts} <= {"stable", "mergesort"}
        if not ok and kw.get("stable") is not None and kw["stable"].consts is not None:
            ok = {c[1] for c in kw["stable"].consts} <= {True}
        st.events.add(("stable", st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), ok))

    def order_of(self, v, kw, t, e, st):
        t = t - {"#cU", "#cK"}
        if shift_key(v):
            self.needs_stable(kw, e, st)
            t = t | {"#cO"}
        return t

    def generic_method(self, b, attr, recv, args, kw, exprs, e, env, st):
        if self.sizes and table_of(b):
            r = self.generic_method_(b, attr, recv, args, kw, exprs, e, env, st)
            if attr in ("groupby", "unique", "nunique", "drop_duplicates", "value_counts", "to_dict", "pivot_table", "set_axis"):
                return no_table(r)      # no longer one row per event
            return tainted(r, frozenset([self.rows_label(e, st)])) if attr == "count" else r
        if self.shift and b.kinds is not None and b.kinds & PANDAS:
            r = self.generic_method_(b, attr, recv, args, kw, exprs, e, env, st)
            t = shift_checked(r.taint, "#cN:" if attr == "mask" else "#cB:")
            if attr != "append":
                t = (t - {"#cU", "#cE"}) | (b.alltaint & {"#cU", "#cE"})
            pos = [a for a in args if isinstance(a, V)]
            if attr == "groupby":
                keys = pos[0] if pos else kw.get("by", BOT)
                t = t - {"#cK", "#cU", "#cE"}
                if shift_key(keys) or any(shift_key(x) for _, x in keys.fields):
                    t = t | {"#cG"}
            elif "#cG" in t and attr == "ngroup":
                t = (t - {"#cG"}) | {"#cK"}
            elif "#cG" in t and attr not in ROW_PER_CASE:
                t = t if attr in ("shift", "diff", "pct_change") else frozenset(x for x in t if x != "#cG")
            elif attr in ("shift", "diff", "pct_change") and "#cG" not in t:
                n = "1" if not (pos or kw) else "?"
                if pos and pos[0].consts is not None and len(pos[0].consts) == 1:
                    n = str(next(iter(pos[0].consts))[1])
                if attr != "shift":
                    n = "d"
                t = t | {"S:%s at %s:%d" % (n, st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0))}
            if attr in ("shift", "diff", "pct_change"):
                st.events.add(("shift", st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), "#cG" in t))
                if "#cG" not in t:
                    self.needs_gathered(b, e, st)
            elif attr == "sort_values" and "#cE" in t:
                t = self.gathered(pos[0] if pos else kw.get("by", BOT), kw, t, e, st)
            elif attr in ("sort_index", "sample"):
                t = t | {"#cU"} if "#cE" in t else t
            elif attr == "argsort":
                t = self.order_of(b, kw, t, e, st)
            elif attr in UNORDERED:
                t = t - {"#cU", "#cE"}
            elif attr in ("eq", "ne") and pos:
                t = shift_compare(b, pos[0], t, attr == "eq")
            elif attr == "set_index":
                t = frozenset(x for x in t if x != "#cK")
            elif attr == "query" and pos and "#cK" in pos[0].alltaint:
                t = frozenset(x for x in t if x[:2] != "S:")     # a condition in text that names the case identifier
            return with_(r, taint=t)
        if not self.rows:
            return self.generic_method_(b, attr, recv, args, kw, exprs, e, env, st)
        if attr in ("add", "append", "update", "extend"):
            args = [rows_part(a) if isinstance(a, V) else a for a in args]
        whole = attr in WHOLE or attr in ("union", "get", "pop", "items", "values", "keys")
        if whole and b.kinds == frozenset(["df"]):
            args, kw = [rows_part(a) if isinstance(a, V) else a for a in args], {k: rows_part(x) if isinstance(x, V) else x for k, x in kw.items()}
        r = self.generic_method_(b, attr, recv, args, kw, exprs, e, env, st)
        return r if whole else rows_part(r)

    def generic_method_(self, b, attr, recv, args, kw, exprs, e, env, st):
        pos = [a[1] if isinstance(a, tuple) else a for a in args]
        vals = self.flat(args, kw)
        t = frozenset().union(*[v.alltaint for v in vals]) if vals else E
        al = frozenset([("A:" + self.alloc(e, st), "")])
        isdf = b.kinds is not None and bool(b.kinds & PANDAS)
        if isdf or attr in ("get", "groupby", "sort_values", "pop", "drop_duplicates", "dropna"):
            for v in vals:
                self.note_key(b, v, e, st, "." + attr)
        # callbacks
        for v in vals:
            if v.refs and v.kinds is not None and "func" in v.kinds and not isdf and attr not in ("submit", "apply_async", "map", "starmap"):
                el = self.elem(b)
                res = self.callback(v, [join(el, joinall(self.elem(x) for x in vals if x is not v))], e, env, st)
                t = t | res.alltaint
            elif v.refs and v.kinds is not None and "func" in v.kinds and isdf:
                res = self.callback(v, [mk(None, None, E, E, b.alltaint)], e, env, st)
                t = t | res.alltaint
        inpl = kw.get("inplace")
        if inpl is not None and self.truth(inpl) is not False:
            self.mutated(b, "call .%s(inplace=True)" % attr, e, st)
            self.touch(b, mk(None, None, E, E, t), env, st)
            if isinstance(recv, ast.Name) and recv.id in env:
                env[recv.id] = with_(env[recv.id], ctaint=env[recv.id].ctaint | t)
            return NONE
        if self.rows and attr == "isin" and pos and (isdf or b.kinds is None):
            return rows_mask(b, pos[0], "isin", True)
        if self.rows and isdf and attr in ("merge", "join") and kw and any(x in COL_SECOND for k, v in kw.items() if isinstance(v, V) for x in v.alltaint):
            t = t | {x + "@2" for x in t if x[:2] == "R:" and not x.endswith("@2")}
        if self.rows and isdf and attr in ("between", "isna", "notna", "isnull", "notnull", "duplicated", "eq", "ne", "ge", "gt", "le", "lt"):
            return rows_mask(b, mk(None, None, E, E, t), "%s:%s" % (attr, self.alloc(e, st)), False)
        if self.rows and b.kinds == frozenset(["df"]) and attr in ("sample", "head", "tail", "query", "dropna", "nlargest", "nsmallest", "filter", "truncate") \
                and not (attr == "dropna" and "axis" in kw):
            return mk(b.kinds, None, E, al, b.alltaint | t | frozenset(["R:%s:%s" % (attr, self.alloc(e, st))]))
        if isdf and b.kinds <= PANDAS:
            if attr in DF_MUTATORS and "df" in b.kinds:
                self.mutated(b, "call .%s()" % attr, e, st)
            ks = frozenset(["df"]) if (b.kinds == frozenset(["df"]) and attr in DF_KEEP) else frozenset(["pd"])
            if attr in ("to_dict", "tolist", "items", "iterrows", "itertuples", "unique", "to_list"):
                kd = None
                if self.kindsof and attr in ("to_list", "tolist"):
                    kd = frozenset(["list"])
                elif self.kindsof and attr == "to_dict":
                    o = pos[0] if pos else kw.get("orient")
                    oc = {c[1] for c in o.consts} if o is not None and o.consts else None
                    kd = frozenset(["dict"]) if o is None or (oc and oc <= {"dict", "list", "series", "split", "tight", "index"}) else \
                        frozenset(["list"]) if oc == {"records"} else None
                return mk(kd, None, E, al, b.alltaint | t)
            if attr.startswith("to_"):
                st.sink |= b.alltaint | t
            return mk(ks, None, E, al, b.alltaint | t)
        if b.kinds is not None and b.kinds and b.kinds <= frozenset(["str", "num", "bool", "none", "bytes"]):
            if attr in ("split", "rsplit", "splitlines"):
                return mk(frozenset(["list"]), None, E, al, b.taint | t, E, E, {("e",): STR})
            if attr == "join":
                return mk(frozenset(["str"]), None, E, E, b.taint | t)
            if self.kindsof:
                k1 = None if not hasattr(str, attr) else "bytes" if attr == "encode" else "num" if attr in ("find", "rfind", "index", "rindex", "count") else \
                    "bool" if attr.startswith(("is", "starts", "ends")) else None if attr in ("maketrans", "partition", "rpartition") else "str"
                return mk(frozenset([k1]) if k1 and "str" in b.kinds else None, None, E, E, b.taint | t)
            if "str" in b.kinds:
                return mk(frozenset(["str", "num", "bool"]) if attr not in ("lower", "upper", "strip", "replace", "format") else frozenset(["str"]), None, E, E, b.taint | t)
            return mk(None, None, E, E, b.taint | t)
        tb = b.taint
        if attr in ("submit", "apply_async"):
            if pos and pos[0].refs:
                res = self.call_value(pos[0], args[1:], kw, e, env, st, exprs[1:])
                return mk(None, None, E, al, t | tb, E, E, {("e",): res, ("a", "_result"): res})
        if attr == "result":
            x = b.field(("a", "_result"))
            if x is not None:
                return tainted(x, tb)
        if attr in ("map", "starmap", "imap") and pos and pos[0].refs and len(pos) > 1:
            res = self.callback(pos[0], [joinall(self.elem(x) for x in pos[1:])], e, env, st)
            return mk(frozenset(["list"]), None, E, al, t | tb, E, E, {("e",): res})
        if attr in ("copy", "__copy__"):
            return self.do_copy(b, "copy", e, env, st)
        if attr == "__deepcopy__":
            return self.do_copy(b, "deepcopy", e, env, st)
        if attr in ("items",) and b.closed and b.kinds == frozenset(["dict"]) and len(b.fields) <= 8 and not b.cont and \
                all(k[0] == "k" and k[1] != "*" and k[1][0] != "E" for k, _ in b.fields) and all(is_alloc(x) for x in b.selfr):
            f = {("i", i): mk(frozenset(["tuple"]), None, E, E, b.taint, E, E, {("i", 0): const(k[1][1]), ("i", 1): x})
                 for i, (k, x) in enumerate(b.fields)}
            return mk(frozenset(["list"]), None, E, al, b.taint, E, b.ctaint, f, True)
        if attr in ("items",):
            kk = b.field(("kk",)) or BOT
            for k, _ in b.fields:
                if k[0] == "k" and k[1] != "*":
                    kk = join(kk, const(k[1][1]) if k[1][0] != "E" else TOP)
            if not b.closed or kk is BOT:
                kk = join(kk, mk(None, None, E, part(b, "[]").selfr, b.taint | b.ctaint, b.cont))
            vv = joinall(x for k, x in b.fields if k[0] == "k")
            if vv is BOT or not b.closed or b.cont:
                vv = join(vv, part(b, "[]"))
            el = mk(frozenset(["tuple"]), None, E, E, b.taint | b.ctaint, E, E, {("i", 0): kk, ("i", 1): vv})
            return mk(frozenset(["list"]), None, E, al, b.taint, E, b.ctaint, {("e",): el})
        if attr == "values":
            vv = joinall(x for k, x in b.fields if k[0] == "k")
            if vv is BOT or not b.closed or b.cont:
                vv = join(vv, part(b, "[]"))
            return mk(frozenset(["list"]), None, E, al, b.taint, E, b.ctaint, {("e",): vv})
        if attr == "keys":
            return mk(frozenset(["list"]), None, E, al, b.taint, E, b.ctaint, {("e",): self.elem(b)})
        if attr in ("get", "setdefault", "pop") and pos and (b.kinds is None or "dict" in b.kinds or any(k[0] == "k" for k, _ in b.fields)):
            r = self.dict_get(b, pos[0])
            if len(pos) > 1:
                r = join(r, tainted(pos[1], st.pc if attr == "setdefault" else E))
            elif attr == "get":
                r = join(r, NONE)
            if attr != "get":
                self.mutated(b, "call .%s()" % attr, e, st)
                if attr == "setdefault" and len(pos) > 1:
                    nb = self.dict_set(b, pos[0], tainted(pos[1], st.pc), weak=True)
                    self.store_lv(recv, nb, env, st)
                elif attr == "pop":
                    ks = self.keys_of(pos[0])
                    if ks and len(ks) == 1 and b.field(("k", next(iter(ks)))) is not None:
                        f = dict(b.fields)
                        del f[("k", next(iter(ks)))]
                        self.store_lv(recv, with_(b, fields=f), env, st)
            if r is BOT:
                r = NONE
            return tainted(r, b.taint | pos[0].taint | (b.ctaint if self.keys_of(pos[0]) is None else E))
        if attr in MUTATORS:
            self.mutated(b, "call .%s()" % attr, e, st)
            if any(k[0] == "i" for k, _ in b.fields):
                f = {k: x for k, x in b.fields if k[0] != "i"}
                f[("e",)] = joinall(x for k, x in b.fields if k[0] in ("i", "e"))
                b = with_(b, fields=f)
                self.store_lv(recv, b, env, st)
            ret = NONE
            if attr in ("pop", "popleft", "popitem"):
                ret = self.elem(b) if attr != "popitem" else mk(frozenset(["tuple"]), None, E, E, b.alltaint, E, E,
                                                                {("i", 0): self.elem(b), ("i", 1): self.dict_get(b, TOP)})
            nb = b
            add = BOT
            if attr in ("append", "add", "appendleft", "put") and pos:
                add = tainted(pos[0], st.pc)
                nb = set_field(b, ("e",), join(b.field(("e",)) or BOT, add))
                if any(k[0] == "i" for k, _ in b.fields):
                    nb = with_(nb, fields={("e",): joinall(x for k, x in nb.fields if k[0] in ("i", "e"))})
            elif attr == "insert" and len(pos) > 1:
                add = tainted(pos[1], st.pc | pos[0].taint)
                nb = set_field(b, ("e",), join(b.field(("e",)) or BOT, add))
            elif attr in ("extend", "extendleft") and pos:
                add = tainted(self.elem(pos[0]), st.pc | pos[0].taint)
                nb = set_field(b, ("e",), join(b.field(("e",)) or BOT, add))
            elif attr == "update":
                if b.kinds == frozenset(["set"]):
                    for x in pos:
                        add = join(add, tainted(self.elem(x), st.pc | x.taint))
                    nb = set_field(b, ("e",), join(b.field(("e",)) or BOT, add))
                else:
                    for x in pos:
                        nb = self.dict_merge(nb, tainted(x, st.pc))
                        add = join(add, self.elem(x))
                        add = join(add, with_(x, selfr=E, fields=x.fields))
                    for k, x in kw.items():
                        if k != "**":
                            nb = self.dict_set(nb, const(k), x)
            else:
                tt = st.pc
                for x in vals:
                    tt = tt | x.taint
                    if attr in ADDERS:
                        add = join(add, x)
                if attr == "sort":
                    tt = tt | t
                nb = with_(b, ctaint=b.ctaint | tt)
                if attr in ADDERS and vals:
                    nb = with_(nb, cont=nb.cont | frozenset().union(*[x.selfr | x.allroots for x in vals]),
                               ctaint=nb.ctaint | t)
                add = with_(add, taint=add.taint | tt) if add is not BOT else mk(None, None, E, E, tt)
            if nb is not b:
                self.store_lv(recv, nb, env, st)
            self.touch(b, add if add is not BOT else mk(None, None, E, E, st.pc), env, st,
                       skip=recv.id if isinstance(recv, ast.Name) else None)
            return tainted(ret, b.taint)
        if attr in ("union", "intersection", "difference", "symmetric_difference"):
            el = join(self.elem(b), joinall(self.elem(x) for x in pos) if attr in ("union", "symmetric_difference") else BOT)
            tt = t if attr != "union" else E
            return mk(frozenset(["set"]), None, E, al, tb | st.pc | (frozenset().union(*[x.taint for x in pos]) if pos else E), E,
                      b.ctaint | tt | (frozenset().union(*[x.ctaint for x in pos]) if pos else E), {("e",): el})
        if attr in ("index", "count", "startswith", "endswith", "timestamp", "total_seconds", "strftime", "isoformat", "issubset", "issuperset", "isdisjoint"):
            tt = b.alltaint | t
            return mk(frozenset(["num"]) if attr in ("index", "count", "timestamp", "total_seconds") else frozenset(["str"]) if attr in ("isoformat", "strftime")
                      else frozenset(["num", "bool"]), None, E, E, tt)
        if attr in ("lower", "upper", "strip", "replace", "format", "encode", "decode", "join", "lstrip", "rstrip"):
            return mk(None, None, E, E, b.alltaint | t)
        # unknown method: never assumed to mutate; result may hold parts of receiver and arguments
        roots = set(b.cont) | set(part(b, "[]").selfr)
        for v in vals:
            roots |= v.selfr | v.allroots
        roots |= b.allroots
        st.sink |= b.alltaint | t
        # an unknown method may store its arguments in a freshly allocated receiver
        if t or st.pc:
            if any(is_alloc(x) for x in b.selfr) or not b.selfr:
                nb = with_(b, ctaint=b.ctaint | t | st.pc)
                if nb is not b and isinstance(recv, (ast.Name, ast.Attribute)):
                    self.store_lv(recv, nb, env, st)
        sr = al
        if attr in PART_METHODS:
            return mk(None, None, E, frozenset(x for x in part(b, "[]").selfr), b.alltaint | t, frozenset(roots))
        return mk(None, None, E, sr, b.alltaint | t, frozenset(roots))

    def call_super(self, attr, args, kw, exprs, kwexprs, e, env, st):
        selfv = env.get(st.params[0]) if st.params else None
        if selfv is None:
            return TOP
        r = BOT
        for c in self.p.mro(st.cls)[1:]:
            recs = c.members.get(attr)
            if recs and recs[-1][0] == "func":
                f = recs[-1][1]._sa_func
                se = ast.Name(id=st.params[0], ctx=ast.Load())
                return self.call_func(f, [selfv] + args, kw, e, env, st, [se] + exprs, kwexprs)
        return self.generic_method(selfv, attr, ast.Name(id=st.params[0], ctx=ast.Load()), args, kw, exprs, e, env, st) if attr != "__init__" else NONE

    def instantiate(self, cid, args, kw, e, env, st, exprs, kwexprs):
        c = self.cls_of(cid)
        if self.p.is_enum(c):
            return mk(frozenset(["enum:" + cid]), None, E, E, frozenset().union(*[v.alltaint for v in self.flat(args, kw)]) if args else E)
        v = fresh("cls:" + cid, self.alloc(e, st))
        eb = self.p.ext_bases(c)
        if any(b.split(".")[-1] in ("dict", "Counter", "list", "set", "OrderedDict", "defaultdict") for b in eb) and args:
            pos = [a[1] if isinstance(a, tuple) else a for a in args]
            v = with_(v, fields=dict(v.fields, **{}) , cont=v.cont)
            v = self.dict_merge(v, with_(pos[0], closed=False))
        m = self.p.class_member(c, "__init__")
        if m is None or m[0] != "func":
            vals = self.flat(args, kw)
            if vals:
                v = with_(v, ctaint=frozenset().union(*[x.alltaint for x in vals]), cont=v.cont | frozenset().union(*[x.selfr | x.allroots for x in vals]))
            return v
        env2 = {"$self": v}
        se = ast.Name(id="$self", ctx=ast.Load())
        env.update(env2)
        self.call_func(m[1], [v] + list(args), kw, e, env, st, [se] + list(exprs or []), kwexprs)
        v = env.pop("$self", v)
        if self.meta and cid in self.meta:
            if cid.endswith(":Trace"):
                st.events.add(("newtrace", st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), "**" in kw or "attributes" in kw and bool(kw["attributes"].alltaint)))
            for k, fld in self.meta[cid] if "**" not in kw else ():
                if k not in kw and not (k == "omni_present" and "globals" in kw):
                    f = v.field(("a", fld)) or mk(frozenset(["dict"]))
                    v = set_field(v, ("a", fld), tainted(f, frozenset(["#nometa"])))
        return v

    # function application ----------------------------------------------------
    def bind(self, node, args, kw, mod, cls, env_defaults, fid, clo=None):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        star = None
        i = 0
        for v in args:
            if isinstance(v, tuple):
                star = join(star or BOT, v[1])
                continue
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
            i += 1
        if star is not None:
            for n in names:
                if n not in out and n not in kw:
                    out[n] = star
            extra.append(star)
        kwrest = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            else:
                kwrest[k] = v
        st0 = State(None, mod, None, None)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in out:
                if "**" in kw and n in defaults:
                    pass
                continue
            if n in defaults:
                d = defaults[n]
                v = self.ev(d, dict(clo or {}), st0)
                if not (v.kinds is not None and v.kinds <= IMMUT) and isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)) \
                        and not v.refs and not (v.kinds is not None and v.kinds <= frozenset(["tuple"])):
                    v = with_(v, selfr=frozenset([("D:%s.%s" % (fid, n), "")]))
                if "**" in kw:
                    v = join(v, kw["**"])
                out[n] = v
            else:
                out[n] = kw["**"] if "**" in kw else TOP
        if a.vararg:
            f = {("i", i): v for i, v in enumerate(extra)}
            out[a.vararg.arg] = mk(frozenset(["tuple"]), None, E, E, E, E, E, f if star is None else {("e",): joinall(extra)})
        if a.kwarg:
            v = fresh("dict", "kw:" + fid, closed="**" not in kw)
            for k, x in kwrest.items():
                v = self.dict_set(v, const(k), x)
            if "**" in kw:
                x = kw["**"]
                v = with_(v, cont=v.cont | x.selfr | x.cont, ctaint=v.ctaint | x.alltaint)
            out[a.kwarg.arg] = v
        return out

    def call_func(self, f, args, kw, e, env, st, exprs=None, kwexprs=None):
        sp = self.special.get(f.id)
        if sp is not None:
            return sp(self, f, args, kw, e, env, st)
        self.stats["resolved"] += 1
        for o in self.observers:
            g = getattr(o, "call", None)
            if g:
                g(self, f, args, kw, e, env, st)
        bound = self.bind(f.node, args, kw, f.mod, f.cls, None, f.id)
        if st.own is not None:
            st.own.args.add((f.id, (st.f.id if st.f else st.mod.name, getattr(e, "lineno", 0), getattr(e, "col_offset", 0)),
                             tuple((n, v.taint | v.ctaint) for n, v in sorted(bound.items()) if n not in ("self", "parameters", "kwargs"))))
        return self._apply(f.id, f, f.node, f.mod, f.cls, bound, {}, args, e, env, st, exprs, kwexprs, kw)

    def call_closure(self, ref, args, kw, e, env, st, exprs=None, kwexprs=None):
        node, mod, cls, cap, owner = self.closures[ref]
        fid = "%s:%s.<%s>" % (mod.name, owner.qual if owner else "", getattr(node, "name", "lambda"))
        # captured variables: the current environment's value wins when we are still in the owner
        clo = dict(cap)
        if owner is st.f:
            for n in cap:
                if n in env:
                    clo[n] = env[n]
        bound = self.bind(node, args, kw, mod, cls, None, fid, clo)
        if getattr(node, "name", None):
            clo.setdefault(node.name, mk(frozenset(["func"]), None, frozenset([ref])))
        f = getattr(node, "_sa_func", None) or owner
        return self._apply((fid, id(node)), f, node, mod, cls, bound, clo, args, e, env, st, exprs, kwexprs, kw)

    def _apply(self, fkey, f, node, mod, cls, bound, clo, args, e, env, st, exprs, kwexprs, kw):
        ctx = tuple((n, bound[n].n) for n in sorted(bound)) + tuple((n, clo[n].n) for n in sorted(clo))
        key = (fkey, ctx)
        s = self.memo.get(key)
        if s is None:
            nact = sum(1 for k in self.stack if k[0] == fkey)
            cnt = self.ctxs.setdefault(fkey, set())
            if nact >= 3 or len(cnt) > 80:
                # widen the context
                self.stats["widened"] += 1
                old = self.widened.get(fkey)
                nb = {n: self.wval(bound[n]) for n in bound}
                nc = {n: self.wval(clo[n]) for n in clo}
                if old is not None:
                    nb = {n: join(old[0].get(n, BOT), nb[n]) for n in nb}
                    nb = {n: self.wval(v) for n, v in nb.items()}

                    def amb(v):
                        # a merge of several call sites: which object it is, is not known well enough to accuse
                        if len(v.selfr) > 1 and any(not is_alloc(x) for x in v.selfr):
                            return with_(v, selfr=frozenset(weaken(x) for x in v.selfr))
                        return v
                    nb = {n: amb(v) for n, v in nb.items()}
                    nc = {n: join(old[1].get(n, BOT), nc[n]) for n in nc}
                self.widened[fkey] = (nb, nc)
                bound, clo = nb, nc
                ctx = tuple((n, bound[n].n) for n in sorted(bound)) + tuple((n, clo[n].n) for n in sorted(clo))
                key = (fkey, ctx)
                s = self.memo.get(key)
        if s is None:
            if len(self.stack) > self.MAXDEPTH:
                self.stats["deep"] += 1
                r = self.unknown_call(args, kw, e, env, st)
                return with_(r, selfr=r.selfr | frozenset().union(*[v.selfr for v in self.flat(args, kw)])) if args or kw else r
            self.ctxs[fkey].add(ctx)
            s = Summary()
            self.memo[key] = s
            self.stack.append(key)
            try:
                for it in range(4):
                    ver = s.ver
                    before = (s.ret, s.events, s.touched, tuple(sorted(s.post.items(), key=lambda kv: kv[0])))
                    self.run(key, f, node, mod, cls, bound, clo, s)
                    after = (s.ret, s.events, s.touched, tuple(sorted(s.post.items(), key=lambda kv: kv[0])))
                    if not getattr(s, "ver") or before == after:
                        break
            finally:
                self.stack.pop()
            s.done = True
        elif not s.done:
            s.ver = 1       # recursion reached: iterate the head
        if st.own is not None:
            st.own.kids.add(s)
        st.events |= s.events
        st.sink |= s.sink
        if s.touched:
            vis = set()
            for v in bound.values():
                vis |= v.selfr | v.allroots
            for v in clo.values():
                vis |= v.selfr | v.allroots
            tch = s.touched & vis
            st.touched |= tch
        else:
            tch = E
        # post-states
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        if exprs:
            for i, ex in enumerate(exprs):
                if ex is None or i >= len(names):
                    continue
                self.apply_post(names[i], ex, bound, s, env, st)
        for k, ex in (kwexprs or {}).items():
            self.apply_post(k, ex, bound, s, env, st)
        if tch and st.pc:
            for nm, w in list(env.items()):
                if (w.selfr & tch or w.allroots & tch) and not st.pc <= w.ctaint:
                    env[nm] = with_(w, ctaint=w.ctaint | st.pc)
        return tainted(s.ret, st.pc) if s.ret is not BOT else s.ret

    def wval(self, v):
        return with_(collapse(v), consts=None if v.consts is not None and len(v.consts) > 3 else v.consts)

    def apply_post(self, nm, ex, bound, s, env, st):
        pv = s.post.get(nm)
        ov = bound.get(nm)
        if pv is None or ov is None or pv is ov:
            return
        if not isinstance(ex, (ast.Name, ast.Attribute, ast.Subscript)):
            if isinstance(ex, ast.Call):
                self.touch(ov, pv, env, st)
            return
        cur = self.ev(ex, env, st)
        if cur is ov:
            self.store_lv(ex, tainted(pv, E), env, st)
        else:
            self.store_lv(ex, join(cur, pv), env, st)
        if ov.selfr:
            add = mk(None, None, E, E, (pv.alltaint - ov.alltaint) | st.pc, pv.allroots - ov.allroots)
            self.touch(ov, add, env, st, skip=ex.id if isinstance(ex, ast.Name) else None)

    def run(self, key, f, node, mod, cls, bound, clo, s):
        self.stats["contexts"] += 1
        st = State(f, mod, cls, node)
        st.clo_env = clo
        st.own = s
        st.params = [x.arg for x in node.args.posonlyargs + node.args.args]
        env = dict(bound)
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, env, st)
            s.ret = join(s.ret, v)
            s.events = s.events | frozenset(st.events)
            s.sink = s.sink | frozenset(st.sink)
            st.exits = env
        else:
            out = self.block(node.body, env, st)
            if out is not None:
                st.exits = env_join(st.exits, out)
                if self.kindsof and f is not None and st.ret is not BOT and self.gives_value(node):
                    st.events.add(("fall", f.id))
                st.ret = join(st.ret, tainted(NONE, st.pc))
            r = st.ret
            if st.yields is not None:
                r = fresh("list", "gen:%s" % (key[0],), fields={("e",): st.yields})
            s.ret = join(s.ret, r)
            s.events = s.events | frozenset(st.events)
            s.sink = s.sink | frozenset(st.sink)
        s.touched = s.touched | frozenset(st.touched)
        if st.exits:
            for n in bound:
                w = st.exits.get(n)
                o = bound[n]
                if w is not None and w is not o and o.selfr and w.selfr == o.selfr:
                    s.post[n] = join(s.post.get(n, BOT), w)
            # closures mutate captured variables through aliasing only (see touch)


# methods of third-party objects that write the file named by their first argument
FILE_METHODS = ("to_csv", "to_parquet", "to_sql", "to_pickle", "to_excel", "to_feather", "savefig", "write_image", "to_hdf")
_EFF = [
    ("rng", ("random.", "numpy.random.", "secrets.")),
    ("uuid", ("uuid.",)),
    ("process", ("os.system", "os.popen", "os.spawn", "os.exec", "subprocess.", "os.kill", "os.fork")),
    ("network", ("socket.", "requests.", "urllib.request.", "http.client.", "smtplib.", "ftplib.", "websocket", "aiohttp.", "httpx.")),
    ("fs-write", ("os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "shutil.",
                  "tempfile.", "os.chmod", "os.link", "os.symlink")),
    ("fs-read", ("pandas.read_", "lxml.etree.parse", "lxml.etree.iterparse", "xml.etree.ElementTree.parse", "sqlite3.connect", "os.listdir",
                 "os.walk", "os.scandir", "glob.")),
    ("env-write", ("random.seed", "numpy.random.seed", "matplotlib.use", "logging.basicConfig", "signal.signal", "pandas.set_option",
                   "socket.setdefaulttimeout", "sys.setswitchinterval", "gc.disable", "gc.enable",
                   "os.putenv", "os.unsetenv", "os.chdir", "os.environ.", "sys.setrecursionlimit", "locale.setlocale", "warnings.filterwarnings",
                   "warnings.simplefilter", "sys.path.")),
]
_CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.process_time", "time.localtime", "time.gmtime", "time.ctime",
          "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "datetime.now",
          "pandas.Timestamp.now", "pandas.Timestamp.today"}
_CE_CACHE = {}


def classify_ext(name):
    """effect category of an external callable, None when it has none of interest"""
    if name in _CE_CACHE:
        return _CE_CACHE[name]
    r = None
    if name in _CLOCK:
        r = "clock"
    elif name in ("builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open"):
        r = "open"
    elif name == "builtins.id":
        r = "id"
    elif name in ("os.environ.get", "uuid.UUID"):
        r = None
    elif name in ("random.seed", "numpy.random.seed"):
        r = "env-write"
    else:
        for cat, ps in _EFF:
            if any(name == p or (name.startswith(p) and (p.endswith(".") or p in ("os.exec", "os.spawn", "websocket", "pandas.read_", "lxml.etree.iterparse"))) for p in ps):
                r = cat
                break
    _CE_CACHE[name] = r
    return r


K_STR = frozenset(["str"])
KNOWN_KINDS = frozenset(["df", "dict", "list", "set", "tuple", "str", "num", "bool", "none", "func", "module", "bytes"])
GENERIC_METHODS = {"get", "run", "apply", "close", "open", "read", "write", "save", "view", "start", "stop", "join", "send",
                   "format", "split", "replace", "copy", "index", "count", "keys", "values", "items", "sort", "filter", "map",
                   "min", "max", "sum", "mean", "fit", "transform", "predict", "flush", "set", "is_alive", "acquire", "release"}


def sp_get_param_value(I, f, args, kw, e, env, st):
    names = ["p", "parameters", "default"]
    b = dict(zip(names, [a[1] if isinstance(a, tuple) else a for a in args]))
    b.update(kw)
    p, params, default = b.get("p", TOP), b.get("parameters", TOP), b.get("default", NONE)
    for o in I.observers:
        g = getattr(o, "param_read", None)
        if g:
            g(I, p, params, default, e, st)
    if default.consts is not None and default.consts and all(c[0] == "E" for c in default.consts):
        default = joinall(I.enum_value(c[1], c[2]) for c in default.consts)
    ks = I.keys_of(p)
    if I.shift and ks is not None and all("case_id" in str(k[1]) for k in ks):
        default = tainted(default, frozenset(["#cK"])) if default is not NONE else default
        if not (params.kinds is not None and params.kinds <= frozenset(["none"])):
            return tainted(sp_get_param_value_(I, p, params, default, ks, st), frozenset(["#cK"]))
    return sp_get_param_value_(I, p, params, default, ks, st)


def sp_get_param_value_(I, p, params, default, ks, st):
    if params.kinds is not None and params.kinds <= frozenset(["none"]):
        if ks is not None and len(ks) == 1 and next(iter(ks))[0] == "str":
            st.events.add(("par", next(iter(ks))[1], E, st.f.id if st.f else st.mod.name))
        return default
    got = BOT
    if ks is None:
        got = I.dict_get(params, p)
    else:
        for k in ks:
            x = params.field(("k", k))
            if x is not None:
                got = join(got, x)
            if not params.closed:
                y = params.field(("k", "*"))
                if y is not None:
                    got = join(got, y)
                if x is None:
                    got = join(got, part(params, "[]"))
    if got is not BOT and got.consts is not None and got.consts and all(c[0] == "E" for c in got.consts):
        got = joinall(tainted(I.enum_value(c[1], c[2]), got.taint) for c in got.consts)
    if ks is not None and len(ks) == 1 and next(iter(ks))[0] == "str":
        st.events.add(("par", next(iter(ks))[1], got.alltaint if got is not BOT else E, st.f.id if st.f else st.mod.name))
    if ks is not None and len(ks) == 1 and params.closed and params.field(("k", next(iter(ks)))) is not None:
        return got
    return join(got, default)


def sp_get_variant(I, f, args, kw, e, env, st):
    v = args[0] if args else kw.get("variant", TOP)
    if v.consts is not None and v.consts and any(c[0] == "E" for c in v.consts):
        out = BOT
        for c in v.consts:
            out = join(out, I.enum_value(c[1], c[2])) if c[0] == "E" else out
        return tainted(out, v.taint)
    if v.kinds is not None:
        for k in v.kinds:
            if k.startswith("enum:"):
                return I.getattr(with_(v, consts=None), "value", e, env, st)
    if v.refs:
        return v
    # unknown variant: any member of the Variants enum visible in the calling module
    r = I.p.resolve(st.mod.name, "Variants")
    if r and r[0] == "class":
        c = r[1]
        out = BOT
        for m, recs in c.members.items():
            if recs[-1][0] == "expr":
                out = join(out, I.enum_value(c.id, m))
        if out is not BOT:
            return tainted(out, v.taint)
    return v


def sp_unroll(I, f, args, kw, e, env, st):
    v = args[0]
    if v.consts is not None and v.consts and all(c[0] == "E" for c in v.consts):
        return tainted(joinall(I.enum_value(c[1], c[2]) for c in v.consts), v.taint)
    return v


def sp_check_df(I, f, args, kw, e, env, st):
    v = args[0] if args else TOP
    if v.kinds is not None and v.kinds:
        if v.kinds == frozenset(["df"]):
            return tainted(const(True), v.taint)
        if not (v.kinds & PANDAS):
            return tainted(const(False), v.taint)
    return tainted(BOOL, v.taint)


def sp_none(I, f, args, kw, e, env, st):
    return NONE


SPECIAL = {
    "pm4py.util.exec_utils:get_param_value": sp_get_param_value,
    "pm4py.util.exec_utils:get_variant": sp_get_variant,
    "pm4py.util.exec_utils:unroll": sp_unroll,
    "pm4py.util.pandas_utils:check_is_pandas_dataframe": sp_check_df,
}
