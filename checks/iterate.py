"""C30: a collection is not changed in size while it is being gone through.

Access paths (local variable, attributes, items) are followed through every function; a change of the collection that a loop
goes through counts when the loop can come to its next round afterwards.  Calls are followed through summaries."""
import ast

CHANGING = frozenset("add remove discard pop popitem clear insert update popleft appendleft setdefault sort reverse difference_update "
                     "intersection_update symmetric_difference_update subtract rotate".split())
WORKLIST = frozenset("append extend".split())              # a list may grow while it is gone through (work list)
GRAPH = {"add_node": "nodes edges", "add_nodes_from": "nodes edges", "remove_node": "nodes edges adj", "remove_nodes_from": "nodes edges adj",
         "add_edge": "edges adj", "add_edges_from": "edges adj", "remove_edge": "edges adj", "remove_edges_from": "edges adj"}
LAZY = {"enumerate", "reversed", "iter", "zip", "map", "filter", "tqdm"}
INVERSE = {("in_arcs", "target"): 1, ("out_arcs", "source"): 1, ("children", "parent"): 1, ("outgoing", "from_state"): 1, ("incoming", "to_state"): 1}
VIEWS = {"keys", "values", "items"}


class St:
    __slots__ = ("env", "ver", "dirty", "flag")

    def __init__(self, env=None, ver=None, dirty=(), flag=None):
        self.env, self.ver, self.dirty = dict(env or {}), dict(ver or {}), frozenset(dirty)

    def copy(self):
        return St(self.env, self.ver, self.dirty)


def canon(a):
    a = a.lstrip("_")
    return a


def join(a, b, tag):
    if a is None or b is None:
        return a or b
    r = St()
    for d in ("env", "ver"):
        x, y, z = getattr(a, d), getattr(b, d), getattr(r, d)
        for k in set(x) | set(y):
            if x.get(k) == y.get(k):
                z[k] = x[k]
            else:
                z[k] = (("j", tag, k),) if d == "env" else ("j", tag)
    r.dirty = a.dirty | b.dirty
    return r


def assigned(body):
    names, attrs = set(), set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(canon(n.attr))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
    return names, attrs


class Walk:
    def __init__(self, an, f):
        self.an, self.f, self.mod, self.cls = an, f, f.mod, f.cls
        self.loops = {}          # id -> (path, node, sure)
        self.stack = []          # loops around
        self.brk, self.cont = [], []
        self.changes = {}        # path from a parameter -> what
        self.loc = {}            # function-local imports and definitions
        self.n = 0
        self.reports = []
        self.nloops = 0
        self.nested = []

    # ------------------------------------------------------------ paths
    def path(self, e, st):
        if isinstance(e, ast.Name):
            return st.env.get(e.id) or (("g", e.id),)
        if isinstance(e, ast.Attribute):
            return self.attr(self.path(e.value, st), canon(e.attr), st)
        if isinstance(e, ast.Subscript):
            p = self.path(e.value, st)
            k = e.slice
            if p is None or isinstance(k, ast.Slice):
                return None
            if isinstance(k, ast.Constant):
                return p + (("[]", repr(k.value)),)
            q = self.path(k, st)
            return p + (("[]", q),) if q is not None else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.keywords:
            if e.func.attr in VIEWS and not e.args:
                p = self.path(e.func.value, st)
                return p + (("view", e.func.attr),) if p is not None else None
            a = self.an.getters.get(e.func.attr)
            if a and not e.args:
                return self.attr(self.path(e.func.value, st), a, st)
            if e.func.attr in ("nodes", "edges") and not e.args:
                return self.attr(self.path(e.func.value, st), e.func.attr, st)
        return None

    def attr(self, p, a, st):
        if p is None:
            return None
        last = p[-1]
        if len(p) == 1 and last[0] == "item" and last[1] is not None and last[1][-1][0] == "." and (last[1][-1][1], a) in INVERSE:
            return last[1][:-1] or None
        return p + ((".", a, st.ver.get(a, 0)),)

    def over(self, e, st):
        """paths of the collections that a loop goes through themselves, with the fact whether they are dictionaries for sure"""
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in LAZY or isinstance(f, ast.Attribute) and f.attr == "tqdm":
                return [x for a in e.args for x in self.over(a, st)]
        if isinstance(e, ast.GeneratorExp):
            return [x for x in self.over(e.generators[0].iter, st)]
        p = self.path(e, st)
        if p and p[-1][0] == "view":
            return [(p[:-1], p[-1][1])]
        return [(p, "")] if p else []

    # ------------------------------------------------------------ changes
    def change(self, p, what, node, st, key=None):
        if p is None:
            return
        for i in self.stack:
            for q, how, keyp in self.loops[i][0]:
                if q == p:
                    if what == "item assignment" and (how == "" or key == keyp or key is None):
                        continue
                    if what == "WORK" and how == "":
                        continue
                    st.dirty |= {(i, what, node.lineno)}
        if what in ("item assignment",):
            return
        root = p[0]
        if root[0] == "p" and all(s[0] == "." and s[2] == 0 for s in p[1:]) and len(p) <= 5:
            self.changes.setdefault((root[1],) + tuple(s[1] for s in p[1:]), what)

    def call(self, e, st):
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.path(f.value, st)
            if f.attr in CHANGING:
                if not (f.attr == "pop" and False):
                    self.change(b, f.attr, e, st)
                return
            if f.attr in WORKLIST:
                self.change(b, "WORK", e, st)
                return
            if f.attr in GRAPH and b:
                for a in GRAPH[f.attr].split():
                    self.change(b + ((".", a, st.ver.get(a, 0)),), f.attr, e, st)
                self.change(b, f.attr, e, st) if "node" in f.attr else None
        for g, bound in self.callees(e, st):
            s = self.an.summary(g)
            if not s:
                continue
            a = g.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            m = {}
            if bound is not None and names:
                m[names[0]] = bound
                names = names[1:]
            for x, arg in zip(names, e.args):
                if isinstance(arg, ast.Starred):
                    break
                m[x] = self.path(arg, st)
            for k in e.keywords:
                if k.arg:
                    m[k.arg] = self.path(k.value, st)
            for key, what in list(s.items()):
                p = m.get(key[0])
                for x in key[1:]:
                    p = self.attr(p, x, st)
                self.change(p, what if what == "WORK" else "call of %s" % g.qual if not str(what).startswith("WORK") else what, e, st)

    def callees(self, e, st):
        f = e.func
        P = self.an.P
        if isinstance(f, ast.Name):
            if f.id in self.loc:
                r = self.loc[f.id]
            elif f.id in st.env:
                return []
            else:
                r = P.resolve(self.mod.name, f.id)
            return [(r[1], None)] if r and r[0] == "func" else []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.cls is not None:
                c = self.cls if not isinstance(self.cls, str) else None
                m = self.an.methods_of(self.cls, f.attr)
                return [(m, self.path(f.value, st))] if m else []
            r = None
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                if root.id in self.loc:
                    x = self.loc[root.id]
                    parts = []
                    y = f
                    while isinstance(y, ast.Attribute):
                        parts.append(y.attr)
                        y = y.value
                    for a in reversed(parts):
                        x = P.resolve(x[1], a) if x and x[0] == "mod" else None
                    r = x
                else:
                    r = P.resolve_expr_static(self.mod, f)
            if r and r[0] == "func":
                return [(r[1], None)]
            if r is None:
                ms = self.an.byname.get(f.attr, ())
                if 0 < len(ms) <= 3:
                    return [(m, self.path(f.value, st)) for m in ms]
        return []

    def expr(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            g = e.generators[0]
            self.expr(g.iter, st)
            fake = [ast.Expr(value=x) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])]
            for c in e.generators:
                fake += [ast.Expr(value=x) for x in c.ifs]
            for x in e.generators[1:]:
                fake.append(ast.Expr(value=x.iter))
            inner = st.copy()
            res, _ = self.loop_(e, g.target, g.iter, fake, inner)
            st.dirty |= res.dirty
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st)
        if isinstance(e, ast.Call):
            self.call(e, st)

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def bind(self, t, st, p=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = p or (("v", t.id, t.lineno, t.col_offset),)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, st)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value, st)
            st.ver[canon(t.attr)] = (t.lineno, t.col_offset)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, st)
            self.expr(t.slice, st)
            b = self.path(t.value, st)
            if b is not None and not isinstance(t.slice, ast.Slice):
                self.change(b, "item assignment", t, st, self.path(t.slice, st))

    def loop_(self, s, target, it, body, st):
        self.nloops += 1
        i = id(s)
        ps = self.over(it, st)
        names, attrs = assigned(body)
        tn = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        for n in names | tn:
            st.env[n] = (("l", n, s.lineno, s.col_offset),)
        for a in attrs:
            st.ver[a] = ("l", s.lineno, s.col_offset)
        keyp = None
        if isinstance(target, ast.Name) and len(ps) == 1 and ps[0][1] == "":
            txt = ast.unparse(it)
            if any(isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id == target.id and ast.unparse(n.value) == txt
                   for b in body for n in ast.walk(b)):
                ps = [(ps[0][0], "keys")]           # it is looked up by what the loop yields: a dictionary
        if isinstance(target, ast.Name):
            if len(ps) == 1 and ps[0][1] != "values":
                keyp = (("item", ps[0][0] if ps[0][1] == "" else None, s.lineno, s.col_offset),)
                st.env[target.id] = keyp
        elif isinstance(target, (ast.Tuple, ast.List)) and len(ps) == 1 and ps[0][1] == "items" and isinstance(target.elts[0], ast.Name):
            keyp = (("l", target.elts[0].id, s.lineno, s.col_offset),)
        self.loops[i] = ([(p, how, keyp) for p, how in ps], s)
        before = st.copy()
        st.dirty = frozenset(d for d in st.dirty if d[0] != i)
        self.stack.append(i)
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        out = self.block(body, st)
        ends = [x for x in self.cont + [out] if x is not None]
        self.stack.pop()
        for x in ends:
            for d in x.dirty:
                if d[0] == i and d[1] != "WORK-":
                    self.reports.append((s, d[1], d[2]))
        brk = self.brk
        self.brk, self.cont = sb, sc
        res = before
        for x in ends:
            res = join(res, x, (s.lineno, s.col_offset))
        return res, brk

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env.pop(s.name, None)
            f = getattr(s, "_sa_func", None)
            if f is not None:
                self.loc[s.name] = ("func", f)
            inner = st.copy()
            for x in ast.walk(s.args):
                if isinstance(x, ast.arg):
                    inner.env[x.arg] = (("v", x.arg, s.lineno),)
            saved = self.stack, self.brk, self.cont
            self.stack, self.brk, self.cont = [], [], []
            self.block(s.body, inner)
            self.stack, self.brk, self.cont = saved
            return st
        if isinstance(s, ast.ClassDef):
            return st
        if isinstance(s, ast.Import):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                self.loc[n] = ("mod", a.name if a.asname else n)
            return st
        if isinstance(s, ast.ImportFrom):
            if s.module and not s.level:
                for a in s.names:
                    r = self.an.P.resolve(s.module, a.name)
                    if r:
                        self.loc[a.asname or a.name] = r
                        st.env.pop(a.asname or a.name, None)
            return st
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st)
            res, brk = self.loop_(s, s.target, s.iter, s.body, st)
            if s.orelse:
                res = self.block(s.orelse, res)
            for b in brk:
                res = join(res, b, (s.lineno, s.col_offset, "b"))
            return res
        if isinstance(s, ast.While):
            names, attrs = assigned(s.body)
            for n in names:
                st.env[n] = (("l", n, s.lineno, s.col_offset),)
            for a in attrs:
                st.ver[a] = ("l", s.lineno, s.col_offset)
            self.expr(s.test, st)
            before = st.copy()
            sb, sc = self.brk, self.cont
            self.brk, self.cont = [], []
            out = self.block(s.body, st)
            ends = self.cont + [out]
            brk = self.brk
            self.brk, self.cont = sb, sc
            forever = isinstance(s.test, ast.Constant) and s.test.value
            res = None if forever else before
            if not forever:
                for x in ends:
                    res = join(res, x, (s.lineno, s.col_offset))
                if s.orelse:
                    res = self.block(s.orelse, res)
            for b in brk:
                res = join(res, b, (s.lineno, s.col_offset, "b"))
            return res
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a, b = st.copy(), st
            a = self.block(s.body, a)
            b = self.block(s.orelse, b)
            return join(a, b, (s.lineno, s.col_offset))
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            before = st.copy()
            out = self.block(s.body, st)
            mid = join(before, out, (s.lineno, "t")) if out is not None else before
            if out is not None:
                out = self.block(s.orelse, out)
            res = out
            for h in s.handlers:
                m = mid.copy()
                if h.name:
                    m.env[h.name] = (("v", h.name, h.lineno),)
                x = self.block(h.body, m)
                res = join(res, x, (h.lineno, "h"))
            if s.finalbody:
                res = self.block(s.finalbody, res if res is not None else mid.copy()) and res
            return res
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            res = st.copy()
            for c in s.cases:
                res = join(res, self.block(c.body, st.copy()), (c.pattern.lineno, "m"))
            return res
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            return None
        if isinstance(s, ast.Break):
            self.brk.append(st)
            return None
        if isinstance(s, ast.Continue):
            self.cont.append(st)
            return None
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            p = self.path(s.value, st)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    ps = [self.path(x, st) for x in s.value.elts]
                    for x, q in zip(t.elts, ps):
                        self.bind(x, st, q)
                else:
                    self.bind(t, st, p)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
                self.bind(s.target, st, self.path(s.value, st))
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            t = s.target
            p = self.path(t, st)
            if isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)) and p is not None:
                self.change(p, "augmented assignment", s, st) if any(q == p for i in self.stack for q, _, _ in self.loops[i][0]) else None
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.expr(t.value, st)
                    self.change(self.path(t.value, st), "del", s, st)
                elif isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st

    def run(self):
        a = self.f.node.args
        st = St()
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            st.env[x.arg] = (("p", x.arg),)
        self.block(self.f.node.body, st)
        return self


class Analysis:
    def __init__(self, P):
        self.P = P
        self.getters, self.byname, self.cache, self.open = {}, {}, {}, set()
        bad = set()
        for f in P.funcs.values():
            if f.cls is None:
                continue
            self.byname.setdefault(f.node.name, []).append(f)
            n = f.node
            body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) \
                    and body[0].value.value.id == "self" and len(n.args.args) == 1:
                a = canon(body[0].value.attr)
                if self.getters.setdefault(n.name, a) != a:
                    bad.add(n.name)
            else:
                bad.add(n.name)
        for b in bad:
            self.getters.pop(b, None)

    def methods_of(self, cls, name):
        c = cls
        m = self.P.class_member(c, name)
        return m[1] if m and m[0] == "func" else None

    def walk(self, f):
        if f.id not in self.cache:
            self.open.add(f.id)
            self.cache[f.id] = Walk(self, f).run()
            self.open.discard(f.id)
        return self.cache[f.id]

    def summary(self, f):
        if f.id in self.open:
            return self.prev.get(f.id)
        return self.walk(f).changes

    prev = {}

    def solve(self):
        for _ in range(4):
            self.cache = {}
            for f in list(self.P.funcs.values()):
                self.walk(f)
            new = {k: dict(w.changes) for k, w in self.cache.items()}
            if new == self.prev:
                break
            self.prev = new
        return self


def c30(ctx):
    an = Analysis(ctx.P).solve()
    ctx.rule("no loop comes to its next round after its body, or a function called in it, has added or removed elements of the very collection that the loop goes through "
             "(list, set, dictionary, view of a dictionary, nodes or edges of a graph); changes right before leaving the loop, and loops over a copy, are fine, and a list may be extended at its end")
    ctx.assume("two access paths denote the same collection when they are the same path from the same value, or are related by the inverse references of nets, trees and transition systems "
               "(the target of an arc in t.in_arcs is t); changes through other aliases are not seen")
    ctx.need(len(an.cache) > 2500 and sum(len(w.changes) for w in an.cache.values()) > 120, "the functions of the package could not be followed")
    changing = sum(1 for w in an.cache.values() if w.changes)
    for k, w in sorted(an.cache.items()):
        for s, what, line in w.reports:
            it = ast.unparse(getattr(s, "iter", None) or s.generators[0].iter)
            ctx.bad("%s|%s|%s" % (k, it[:60], what), "%s:%d" % (w.mod.rel, line),
                    "%s goes through %s (line %d) and comes to the next round after it has been changed by: %s (line %d)" % (k, it, s.lineno, what, line))
        for _ in range(w.nloops):
            ctx.ok("%s: a loop of the function" % k)
    ctx.cover.update({"functions": len(an.cache), "loops": sum(w.nloops for w in an.cache.values()), "functions that change a collection reached from a parameter": changing})
