"""C11: copies are complete and own what they hold; equality compares the content and agrees with the hash."""
import ast
import copy as _copy

from .base import spec

TYPED = ("type", "isinstance")
BUILD = {"dict", "list", "set", "frozenset", "tuple", "Counter", "deque", "OrderedDict", "defaultdict"}


class V:
    """abstract value: where its data comes from (path -> 0 the object itself, 1 own container, 2 own elements too), new objects, tuple parts"""
    __slots__ = ("data", "news", "tup", "of", "kw", "const", "partial")

    def __init__(self, data=None, news=(), tup=None, of=None, const=False, partial=False):
        self.data, self.news, self.tup, self.of, self.kw, self.const, self.partial = dict(data or {}), set(news), tup, of, None, const, partial


def lift(v, n):
    return V({p: max(l, n) for p, l in v.data.items()}, v.news)


def elem(p, l):
    """an element (path ends in a star) that is put in a container gives the base path at one level more"""
    if p and p[-1] in ("*", "*v"):
        return p[:-1], min(2, l + 1)
    if p and p[-1] == "*k":
        return p[:-1] + ("keys",), min(2, l + 1)
    return p, min(2, l + 1)


def put(into, v):
    for p, l in v.data.items():
        q, m = elem(p, l)
        into.data[q] = min(m, into.data.get(q, 2)) if q in into.data else m
    into.news |= v.news


def join(a, b, keep=(), typed=False):
    if a is None:
        return b
    if b is None:
        return a
    heap = {}
    for o in set(a.heap) | set(b.heap):
        fa, fb = a.heap.get(o), b.heap.get(o)
        if fa is None or fb is None:
            heap[o] = fa or fb
            continue
        heap[o] = {}
        for f in set(fa) | set(fb):
            x, y = fa.get(f, V()), fb.get(f, V())
            d = {}
            for p in set(x.data) | set(y.data):
                if p in x.data and p in y.data:
                    d[p] = max(x.data[p], y.data[p]) if typed else min(x.data[p], y.data[p])
                elif any(p[:len(k)] == k for k in keep):
                    d[p] = x.data.get(p, y.data.get(p))
            heap[o][f] = V(d, x.news | y.news)
    s = S()
    s.heap = heap
    s.memo = {**a.memo, **b.memo}
    s.cls = {**a.cls, **b.cls}
    s.env = {}
    for k in set(a.env) & set(b.env):
        x, y = a.env[k], b.env[k]
        if x is y:
            s.env[k] = x
        else:
            d = {p: (max if typed else min)(x.data[p], y.data[p]) for p in set(x.data) & set(y.data)}
            for p in set(x.data) ^ set(y.data):
                if any(p[:len(q)] == q for q in keep):
                    d[p] = x.data.get(p, y.data.get(p))
            s.env[k] = V(d, x.news | y.news, x.tup if x.tup == y.tup else None, x.of if x.of == y.of else None)
    return s


class S:
    def __init__(self):
        self.env, self.heap, self.memo, self.cls = {}, {}, {}, {}

    def fork(self):
        s = S()
        s.env = dict(self.env)
        s.heap = {o: {f: V(v.data, v.news, v.tup, v.of) for f, v in fs.items()} for o, fs in self.heap.items()}
        s.memo, s.cls = dict(self.memo), dict(self.cls)
        return s


def mangle(cls, a):
    return a


def fields_of(P, cls):
    """name of a property -> field that its getter returns, over the class and its bases"""
    out = {}
    for c in reversed(P.mro(cls)):
        for name, recs in c.members.items():
            r = recs[-1]
            if r[0] == "expr" and isinstance(r[1], ast.Call) and isinstance(r[1].func, ast.Name) and r[1].func.id == "property" and r[1].args:
                g = r[1].args[0]
                g = g.id if isinstance(g, ast.Name) else None
                if g in c.members and c.members[g][-1][0] == "func":
                    x = returned_attr(c.members[g][-1][1])
                    if x:
                        out[name] = x
            elif r[0] == "func" and any(isinstance(d, ast.Name) and d.id == "property" for d in r[1].decorator_list):
                x = returned_attr(r[1])
                if x:
                    out[name] = x
    for k in list(out):
        while out[k] in out and out[out[k]] != out[k]:
            out[k] = out[out[k]]
    return out


def returned_attr(fn):
    rets = [n.value for n in ast.walk(fn) if isinstance(n, ast.Return)]
    if len(rets) == 1 and isinstance(rets[0], ast.Attribute) and isinstance(rets[0].value, ast.Name) and rets[0].value.id == fn.args.args[0].arg:
        return rets[0].attr
    return None


def clean(f):
    return f.lstrip("_")


class Copier:
    def __init__(self, P, cls, fn):
        self.P, self.root = P, cls
        self.n = 0
        self.depth = 0
        self.rets = []
        st = S()
        a = fn.node.args.args
        st.env[a[0].arg] = V({(): 0})
        for x in a[1:]:
            st.env[x.arg] = V()
            st.env[x.arg].kw = "memo"
        self.run(fn, st, True, cls)

    # ------------------------------------------------------------ facts
    def facts(self):
        outs = []
        for st, v in self.rets:
            out = {}
            seen = set()

            def go(o, pre):
                if o in seen:
                    return
                seen.add(o)
                for f, x in st.heap.get(o, {}).items():
                    for p, l in x.data.items():
                        if p and p[-1] == "*v" or p and p[-1] == "*k":
                            p = p[:-1]
                        k = (pre + clean(f), ".".join(clean(q) for q in p))
                        out[k] = max(l, out.get(k, 0))
                    for m in x.news:
                        go(m, pre + clean(f) + "/")
            for o in sorted(v.news, key=str):
                go(o, "")
            for p, l in v.data.items():
                out[("result", ".".join(clean(q) for q in p))] = l
            for o in st.heap:
                if isinstance(o, tuple):                    # parts of the copy that are reached through the memo
                    go(o, "copy of %s: " % ".".join(clean(q) for q in o))
            outs.append(out)
        if not outs:
            return {}
        keys = set(outs[0])
        for o in outs[1:]:
            keys &= set(o)
        return {k: min(o[k] for o in outs) for k in keys}

    # ------------------------------------------------------------ statements
    def run(self, fn, st, top, cls):
        self.depth += 1
        saved = getattr(self, "cur", None), getattr(self, "frets", None), getattr(self, "conts", None)
        self.cur, self.frets, self.conts = (fn, cls), [], []
        end = self.block(fn.node.body, st)
        if end is not None:
            self.frets.append((end, V()))
        rets = self.frets
        self.cur, self.frets, self.conts = saved
        self.depth -= 1
        if top:
            self.rets = [r for r in rets if not r[1].kw == "memo"]
        return rets

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            self.frets.append((st, self.ex(s.value, st) if s.value is not None else V()))
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            self.conts.append(st)
            return None
        if isinstance(s, ast.If):
            t = self.test(s.test, st)
            if t is not None:
                return self.block(s.body if t else s.orelse, st)
            typed = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in TYPED for n in ast.walk(s.test))
            keep = self.truth(s.test, st)
            a = self.block(s.body, st.fork())
            b = self.block(s.orelse, st.fork())
            return join(a, b, keep, typed)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.bind(s.target, self.iterate(self.ex(s.iter, st), st), st)
            old, self.conts = self.conts, []
            out = self.block(s.body, st)
            for c in self.conts:
                out = join(out, c)
            self.conts = old
            return out
        if isinstance(s, ast.While):
            self.ex(s.test, st)
            old, self.conts = self.conts, []
            out = self.block(s.body, st)
            for c in self.conts:
                out = join(out, c)
            self.conts = old
            return out
        if isinstance(s, ast.With):
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, st)
            return self.block(s.finalbody, a) if a is not None else None
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, st)
            for t in s.targets:
                self.bind(t, v, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ex(s.value, st), st, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.ex(s.value, st)
            x = self.ex(s.target, st) if not isinstance(s.target, ast.Subscript) else V()
            d = V(x.data, x.news)
            d.data.update(v.data)
            d.news |= v.news
            self.bind(s.target, d, st)
            return st
        if isinstance(s, ast.Expr):
            self.ex(s.value, st)
        return st

    def test(self, t, st):
        """value of a test that the context decides, or None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.test(t.operand, st)
            return None if x is None else not x
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, op = t.left, t.comparators[0], t.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.ex(r, st)
                if isinstance(c.kw, dict) and isinstance(l, ast.Constant):
                    return (l.value in c.kw) == isinstance(op, ast.In)
                if c.kw == "memo":
                    return None if self.is_id(l) and self.path(l.args[0], st) != () else isinstance(op, ast.NotIn)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None and isinstance(l, ast.Name):
                v = st.env.get(l.id)
                if v is not None and (v.const or v.data or v.news) and not any(p for p in v.data if p) or v is not None and self.depth > 1 and (v.data or v.news or v.const):
                    return v.const == isinstance(op, ast.Is) if v.const else isinstance(op, ast.IsNot)
        return None

    def truth(self, t, st):
        """paths whose emptiness the test asks about"""
        out = []
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Name)):
                try:
                    v = self.ex(n, st)
                except RecursionError:
                    continue
                out += [p for p in v.data if p]
        if any(isinstance(n, ast.Compare) and not (isinstance(n.ops[0], (ast.Is, ast.IsNot)) or any(isinstance(c, ast.Constant) and c.value in (0, 1) for c in n.comparators)) for n in ast.walk(t)):
            return ()
        return [p for p in out if not p[-1].startswith("*")]

    def is_id(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "id" and len(e.args) == 1

    def path(self, e, st):
        v = self.ex(e, st)
        ps = sorted(p for p, l in v.data.items() if l == 0)
        return ps[0] if ps else None

    def bind(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, v.tup[i] if v.tup and i < len(v.tup) else V(), st)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value, st)
            for o in b.news:
                self.store(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value, st)
            if b.kw == "memo":
                if self.is_id(t.slice) and v.news:
                    p = self.path(t.slice.args[0], st)
                    if p is not None and p not in st.memo:
                        st.memo[p] = min(v.news, key=str)
                return
            k = self.ex(t.slice, st)
            val = V(v.data, v.news)
            val.news |= k.news
            if b.of:
                o, f = b.of
                put(st.heap[o].setdefault(f, V()), val)
            elif b.news:
                for o in b.news:
                    m = self.P.class_member(st.cls[o], "__setitem__") if st.cls.get(o) is not None else None
                    if m and m[0] == "func":
                        a = m[1].node.args.args
                        self.inline(m[1], {a[0].arg: V(news={o}), a[1].arg: k, a[2].arg: v}, st, st.cls[o])
                    else:
                        put(st.heap[o].setdefault("[]", V()), val)
            elif isinstance(t.value, ast.Name):
                n = V(b.data, b.news)
                put(n, val)
                st.env[t.value.id] = n

    def store(self, o, attr, v, st):
        c = st.cls.get(o)
        if c is not None:
            m = fields_of(self.P, c).get(attr)
            attr = m or attr
        st.heap.setdefault(o, {})[clean(attr)] = V(v.data, v.news)

    # ------------------------------------------------------------ expressions
    def iterate(self, v, st):
        if v.tup is not None and v.kw == "items":
            return V(tup=v.tup)
        if v.kw == "index":
            x = V()
            x.kw = "idx"
            return x
        if v.kw == "memo" or v.partial:
            return V(partial=v.partial)
        d = {}
        for p, l in v.data.items():
            if p == ():
                m = self.P.class_member(self.root, "__iter__")
                f = self.container() if m and m[0] == "func" else None
                d[(f, "*") if f else ("[]", "*k")] = 0
            else:
                d[p + ("*",)] = max(0, l - 1)
        return V(d, tup=v.tup)

    def container(self):
        """the field that holds the elements of a collection class"""
        for n in ("__iter__", "__len__"):
            m = self.P.class_member(self.root, n)
            if m and m[0] == "func":
                for x in ast.walk(m[1].node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        return clean(x.attr)
        return None

    def ex(self, e, st):
        if e is None:
            return V()
        if isinstance(e, ast.Name):
            return st.env.get(e.id, V())
        if isinstance(e, ast.Constant):
            return V(const=e.value is None)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.ex(x, st) for x in e.elts]
            v = V(tup=vs)
            for x in vs:
                put(v, x)
            return v
        if isinstance(e, ast.Dict):
            v = V()
            for k, x in zip(e.keys, e.values):
                w = self.ex(x, st)
                put(v, w) if k is not None else v.data.update(lift(w, 1).data)
            return v
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, st)
            if t is not None:
                return self.ex(e.body if t else e.orelse, st)
            a, b = self.ex(e.body, st), self.ex(e.orelse, st)
            typed = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in TYPED for n in ast.walk(e.test))
            keep = self.truth(e.test, st)
            memo = any(isinstance(n, ast.Name) and st.env.get(n.id, V()).kw == "memo" for n in ast.walk(e.test))
            d = {}
            for p in set(a.data) | set(b.data):
                if p in a.data and p in b.data:
                    d[p] = (max if typed else min)(a.data[p], b.data[p])
                elif memo or any(p[:len(k)] == k for k in keep):
                    d[p] = a.data.get(p, b.data.get(p))
            return V(d, a.news | b.news)
        if isinstance(e, ast.BoolOp):
            vs = [self.ex(x, st) for x in e.values]
            out = V()
            for v in vs:
                out.data.update(v.data)
                out.news |= v.news
            return out
        if isinstance(e, ast.Attribute):
            return self.attr(e, st)
        if isinstance(e, ast.Subscript):
            b = self.ex(e.value, st)
            if b.kw == "memo":
                p = self.path(e.slice.args[0], st) if self.is_id(e.slice) else None
                if p == ():
                    r = V()
                    r.kw = "memo"
                    return r
                if p in st.memo:
                    return V(news={st.memo[p]})
                if p is not None:
                    st.heap.setdefault(p, {})
                    st.cls.setdefault(p, None)
                    return V({p: 2}, {p})
                return V()
            if isinstance(b.kw, dict) and isinstance(e.slice, ast.Constant):
                return b.kw.get(e.slice.value, V())
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                if s.lower is None and s.upper is None and (s.step is None):
                    return lift(b, 1)
                return V(partial=True)
            k = self.ex(e.slice, st)
            if k.partial:
                return V()
            d = {}
            for p, l in b.data.items():
                if p == ():
                    c = self.container() if self.P.class_member(self.root, "__getitem__") else None
                    d[(c, "*v") if c else ("[]", "*v")] = 0
                else:
                    d[p + ("*v",)] = max(0, l - 1)
            return V(d)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = st
            saved = dict(st.env)
            partial = False
            for g in e.generators:
                self.bind(g.target, self.iterate(self.ex(g.iter, s2), s2), s2)
                partial |= bool(g.ifs)
            v = V()
            if isinstance(e, ast.DictComp):
                k, w = self.ex(e.key, s2), self.ex(e.value, s2)
                put(v, V(w.data, w.news | k.news))
            else:
                put(v, self.ex(e.elt, s2))
            st.env = saved
            return V() if partial else v
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Starred):
            return self.ex(e.value, st)
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value, st)
            self.bind(e.target, v, st)
            return v
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, st)
        return V()

    def attr(self, e, st):
        b = self.ex(e.value, st)
        out = V()
        for p, l in b.data.items():
            if l == 0 or p in b.news:
                a = e.attr
                if p == ():
                    a = fields_of(self.P, self.root).get(a, a)
                out.data[p + (clean(a),)] = 0 if p not in b.news else 2
        if b.news:
            for o in b.news:
                a = e.attr
                c = st.cls.get(o)
                if c is not None:
                    a = fields_of(self.P, c).get(a, a)
                a = clean(a)
                f = st.heap.get(o, {}).get(a)
                if f is not None:
                    out.data.update(f.data)
                    out.news |= f.news
                out.of = (o, a)
                if isinstance(o, tuple):
                    out.data = {}
        return out

    def inline(self, f, env, st, cls):
        if self.depth > 6:
            return V()
        saved = st.env
        st.env = dict(env)
        rets = self.run(f, st, False, cls)
        out, heap = None, None
        for s, v in rets:
            out = v if out is None else V({p: min(out.data[p], v.data[p]) for p in set(out.data) & set(v.data)}, out.news | v.news)
            heap = s if heap is None else join(heap, s)
        if heap is not None:
            st.heap, st.memo, st.cls = heap.heap, heap.memo, heap.cls
        st.env = saved
        return out or V()

    def construct(self, cls, args, kws, st):
        self.n += 1
        o = self.n
        st.heap[o] = {}
        st.cls[o] = cls
        m = self.P.class_member(cls, "__init__") if cls is not None else None
        if m and m[0] == "func":
            self.call_init(m[1], m[2], o, args, kws, st, cls)
        else:
            for v in args:
                st.heap[o].setdefault("[]", V()).data.update(lift(v, 1).data)
        return V(news={o})

    def call_init(self, fn, owner, o, args, kws, st, cls):
        a = fn.node.args
        names = [x.arg for x in a.args]
        env = {names[0]: V(news={o})}
        for n in names[1:] + [x.arg for x in a.kwonlyargs]:
            env[n] = V(const=True)
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            env[n] = V(const=isinstance(d, ast.Constant) and d.value is None)
        for n, v in zip(names[1:], args):
            env[n] = v
        extra = {}
        for k, v in kws.items():
            if k in env:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            x = V()
            x.kw = extra
            env[a.kwarg.arg] = x
        if a.vararg:
            rest = args[len(names) - 1:]
            v = V()
            for r in rest:
                v.data.update(r.data)
                v.news |= r.news
            env[a.vararg.arg] = v
        self.inline(fn, env, st, owner)

    def call(self, e, st):
        f = e.func
        args = []
        for a in e.args:
            args.append(self.ex(a, st))
        kws = {k.arg: self.ex(k.value, st) for k in e.keywords if k.arg}
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        cur, cls = self.cur
        if name in ("deepcopy",) and args:
            return V({p: 2 for p in args[0].data})
        if name == "copy" and args and (isinstance(f, ast.Name) or isinstance(f.value, ast.Name) and f.value.id == "copy"):
            return lift(args[0], 1)
        if isinstance(f, ast.Name) and f.id in BUILD:
            if args and args[0].partial:
                return V(partial=True)
            out = V()
            for a in args:
                if a.kw == "items":
                    put(out, a.tup[1])
                else:
                    out.data.update(lift(a, 1).data)
                    out.news |= a.news
            return out
        if isinstance(f, ast.Name) and f.id == "range":
            v = V()
            if len(args) == 1:
                v.kw = "index"
            else:
                v.partial = True
            return v
        if isinstance(f, ast.Name) and f.id in ("enumerate",) and args:
            it = self.iterate(args[0], st)
            v = V(tup=[V(), it])
            v.kw = "items"
            return v
        if isinstance(f, ast.Name) and f.id in ("iter", "sorted", "reversed") and args:
            return args[0]
        # constructors
        c = None
        if isinstance(f, ast.Attribute) and f.attr == "__class__" or isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "type":
            b = self.ex(f.value if isinstance(f, ast.Attribute) else f.args[0], st)
            if () in b.data:
                return self.construct(self.root, args, kws, st)
            c = self.guess(args, kws)
            return self.construct(c, args, kws, st) if c is not None else self.anon(args, kws, st)
        r = self.P.resolve_expr_static(cur.mod, f, cls) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "class":
            return self.construct(r[1], args, kws, st)
        if r and r[0] == "func" and (r[1].cls is None):
            a = [x.arg for x in r[1].node.args.args]
            env = {n: V(const=True) for n in a}
            env.update(zip(a, args))
            env.update({k: v for k, v in kws.items() if k in a})
            return self.inline(r[1], env, st, None)
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
                for b in self.P.mro(cls)[1:]:
                    recs = b.members.get(f.attr)
                    if recs and recs[-1][0] == "func":
                        g = recs[-1][1]._sa_func
                        me = st.env.get(cur.node.args.args[0].arg, V())
                        if f.attr == "__init__" and me.news:
                            self.call_init(g, b, min(me.news, key=str), args, kws, st, cls)
                            return V()
                        a = [x.arg for x in g.node.args.args]
                        env = {a[0]: me}
                        for n, v in zip(a[1:], args):
                            env[n] = v
                        for k, v in kws.items():
                            env[k] = v
                        return self.inline(g, env, st, b)
                return V()
            b = self.ex(f.value, st)
            m = f.attr
            if b.kw == "memo":
                if m == "get" and e.args and self.is_id(e.args[0]):
                    return self.ex(ast.Subscript(value=f.value, slice=e.args[0], ctx=ast.Load()), st)
                return V()
            # C.__init__(self, ...)
            target = None
            if () in b.data and not b.news:
                mm = self.P.class_member(self.root, m)
                target = (mm[1], mm[2]) if mm and mm[0] == "func" else None
            elif b.news and not b.of:
                o = min(b.news, key=str)
                mm = self.P.class_member(st.cls[o], m) if st.cls.get(o) is not None else None
                target = (mm[1], mm[2]) if mm and mm[0] == "func" else None
            if target:
                a = [x.arg for x in target[0].node.args.args]
                env = {a[0]: b}
                for n in a[1:]:
                    env[n] = V(const=True)
                for n, v in zip(a[1:], args):
                    env[n] = v
                env.update({k: v for k, v in kws.items() if k in a})
                return self.inline(target[0], env, st, target[1])
            if m == "copy" and not args:
                return lift(b, 1) if () not in b.data else V()
            if m in ("items", "keys", "values", "elements"):
                d = [p if p else (self.container() or "[]",) for p in b.data]
                if m == "items":
                    v = V(tup=[V({p + ("*k",): 0 for p in d}), V({p + ("*v",): 0 for p in d})])
                    v.kw = "items"
                    return v
                return V({p: 0 for p in d}) if m == "values" else V({p + ("keys",): 0 for p in d})
            if m == "get" and b.data and args:
                return V({(p if p else (self.container() or "[]",)) + ("*v",): 0 for p in b.data})
            if m in ("append", "add", "insert", "extend", "update", "appendleft"):
                val = args[-1] if args else V()
                many = m in ("extend", "update")
                for o in ([b.of[0]] if b.of else b.news):
                    fld = b.of[1] if b.of else "[]"
                    x = st.heap[o].setdefault(fld, V())
                    if many:
                        if val.kw == "items":
                            put(x, val.tup[1])
                        else:
                            x.data.update(lift(val, 1).data if not val.partial else {})
                            x.news |= val.news
                    else:
                        put(x, val)
                if not b.of and not b.news and isinstance(f.value, ast.Name):
                    n = V(b.data, b.news)
                    if many:
                        put(n, val.tup[1]) if val.kw == "items" else n.data.update(lift(val, 1).data if not val.partial else {})
                    else:
                        put(n, val)
                    st.env[f.value.id] = n
                return V()
        return V()

    def anon(self, args, kws, st):
        return self.construct(None, args, kws, st)

    def guess(self, args, kws):
        """class of an element by the names of the parameters that it gets"""
        best = None
        for c in self.P.classes.values():
            if c.mod is self.cur[0].mod and ("." in c.qual):
                m = self.P.class_member(c, "__init__")
                if m and m[0] == "func":
                    names = [x.arg for x in m[1].node.args.args][1:]
                    want = []
                    for v in args:
                        ps = sorted(v.data)
                        want.append(ps[0][-1] if ps else None)
                    if all(w is None or i < len(names) and names[i] == w for i, w in enumerate(want)) and all(k in names for k in kws):
                        if best is None or len(names) < len([x for x in self.P.class_member(best, "__init__")[1].node.args.args]) - 1:
                            best = c
        return best


# ---------------------------------------------------------------- equality and hash
class Reads:
    """which parts of an object an expression reads: tokens like 'label', 'list.*', 'list.len', 'id'"""

    def __init__(self, P, cls, fn, roots, depth=0):
        self.P, self.cls, self.fn, self.depth = P, cls, fn, depth
        self.env = {n: {(r, ())} for n, r in roots.items()}
        self.props = fields_of(P, cls)
        self.pairs, self.mismatch, self.unordered = set(), [], []
        self.out = set()
        self.rootnames = set(roots.values())
        self.cont = None
        for n in ("__iter__", "__len__"):
            m = P.class_member(cls, n)
            if m and m[0] == "func":
                for x in ast.walk(m[1].node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        self.cont = clean(x.attr)

    def own(self, n):
        """token path of the whole collection"""
        return (self.cont,) if self.cont else ("[]",)

    def ex(self, e):
        """-> set of (root, path)"""
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            return set(self.env.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            b = self.ex(e.value)
            out = set()
            for r, p in b:
                a = e.attr
                if p == ():
                    m = self.P.class_member(self.cls, a)
                    if m and m[0] == "func" and any(isinstance(d, ast.Name) and d.id == "property" for d in m[1].node.decorator_list) and self.props.get(a) is None:
                        out |= self.method(m[1], r)
                        continue
                    a = self.props.get(a, a)
                out.add((r, p + (clean(a),)))
            return out
        if isinstance(e, ast.Subscript):
            b = self.ex(e.value)
            k = self.ex(e.slice) if not isinstance(e.slice, ast.Slice) else set()
            part = isinstance(e.slice, ast.Slice) and (e.slice.lower is not None or e.slice.upper is not None)
            out = set()
            for r, p in b:
                out.add((r, (p or self.own(r)) + (("part",) if part or ("?", ("part",)) in k or isinstance(e.slice, (ast.Constant, ast.UnaryOp)) else () if isinstance(e.slice, ast.Slice) else ("*",))))
            return out
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                av = [self.ex(a) for a in e.args]
                al = set().union(*av) if av else set()
                if f.id == "id":
                    return {(r, p + ("id",)) for r, p in al}
                if f.id == "len":
                    return {(r, (p or self.own(r)) + ("len",)) for r, p in al}
                if f.id in ("frozenset", "set", "tuple", "list", "sorted", "dict", "sum", "enumerate", "zip", "iter", "reversed", "all", "any", "map"):
                    return {(r, p if p else self.own(r) + (("*",) if self.cont else ("keys",))) for r, p in al}
                if f.id == "hash":
                    out = set()
                    for r, p in al:
                        if p == ():
                            m = self.P.class_member(self.cls, "__hash__")
                            if m and m[0] == "func":
                                out |= self.method(m[1], r)
                        else:
                            out.add((r, p))
                    return out
                if f.id == "isinstance" or f.id == "type":
                    return set()
                if f.id == "range":
                    return {("?", ("part",))} if len(e.args) > 1 else set()
                r = self.P.resolve(self.fn.mod.name, f.id)
                if r and r[0] == "func" and self.depth < 4:
                    names = [x.arg for x in r[1].node.args.args]
                    out = set()
                    for n, v in zip(names, av):
                        for rt, p in v:
                            if p == ():
                                out |= self.method(r[1], rt, n)
                            else:
                                out.add((rt, p))
                    return out
                return al
            if isinstance(f, ast.Attribute):
                b = self.ex(f.value)
                al = set()
                for a in e.args:
                    al |= self.ex(a)
                out = set()
                for r, p in b:
                    m = f.attr
                    if p == ():
                        mm = self.P.class_member(self.cls, m)
                        if mm and mm[0] == "func" and self.depth < 4:
                            out |= self.method(mm[1], r)
                            continue
                    q = p or self.own(r)
                    if m in ("keys",):
                        out.add((r, q + ("keys",)))
                    elif m in ("items",):
                        out |= {(r, q + ("keys",)), (r, q + ("*",))}
                    elif m in ("values", "get", "__getitem__", "elements"):
                        out.add((r, q + ("*",)))
                    elif m in ("__hash__", "__repr__", "__str__", "lower", "copy"):
                        out.add((r, p or q))
                    elif m == "__eq__":
                        self.compare(b, al, e)
                    else:
                        out.add((r, p or q))
                return out | (al if not b else set())
            return set()
        if isinstance(e, ast.Compare):
            l = self.ex(e.left)
            out = set(l)
            for op, c in zip(e.ops, e.comparators):
                r = self.ex(c)
                if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    if isinstance(op, (ast.Is, ast.IsNot)):
                        l2 = {(x, p + ("id",)) for x, p in l}
                        r2 = {(x, p + ("id",)) for x, p in r}
                        self.compare(l2, r2, e)
                    elif isinstance(e.left, ast.Tuple) and isinstance(c, ast.Tuple) and len(e.left.elts) == len(c.elts):
                        for a, b in zip(e.left.elts, c.elts):
                            self.compare(self.ex(a), self.ex(b), e)
                    else:
                        self.compare(l, r, e)
                out |= r
                l = r
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.loop(g.target, g.iter)
                for x in g.ifs:
                    self.ex(x)
            out = self.ex(e.key) | self.ex(e.value) if isinstance(e, ast.DictComp) else self.ex(e.elt)
            if any(g.ifs for g in e.generators):
                out = {(r, p + ("part",)) for r, p in out}
            self.env = saved
            return out
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ex(c)
        return out

    def method(self, fn, root, name=None):
        r = Reads(self.P, self.cls, fn, {name or fn.node.args.args[0].arg: root}, self.depth + 1)
        r.body(fn.node.body)
        self.unordered += r.unordered
        return r.out

    def loop(self, t, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("zip", "enumerate") and isinstance(t, ast.Tuple):
            args = ([None] if it.func.id == "enumerate" else []) + list(it.args)
            for x, a in zip(t.elts, args):
                self.loop(x, a) if a is not None else None
            return
        v = self.ex(it)
        items = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items"
        if isinstance(t, ast.Tuple) and items:
            b = {(r, p or self.own(r)) for r, p in self.ex(it.func.value)}
            self.assign(t.elts[0], {(r, p + ("keys",)) for r, p in b})
            self.assign(t.elts[1], {(r, p + ("*",)) for r, p in b})
            return
        isrange = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"
        if isrange:
            self.assign(t, {("?", ("part",))} if len(it.args) > 1 and not (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0) else set())
            return
        self.assign(t, {(r, (p or self.own(r)) + (() if p and p[-1] in ("keys", "*") else ("*",) if p or self.cont else ("keys",))) for r, p in v})

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, v)

    def compare(self, l, r, e):
        rl = {x for x, _ in l if x != "?"}
        rr = {x for x, _ in r if x != "?"}
        if rl and rr and rl != rr and len(self.rootnames) > 1:
            a = {p for _, p in l if _ != "?"}
            b = {p for _, p in r if _ != "?"}
            if len(rl) == 1 and len(rr) == 1:
                if a == b:
                    self.pairs |= a
                else:
                    self.mismatch.append((a, b, e))
            else:
                self.pairs |= a & b

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Return):
                self.out |= self.ex(s.value)
            elif isinstance(s, ast.Assign):
                v = self.ex(s.value)
                for t in s.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, y in zip(t.elts, s.value.elts):
                            self.assign(x, self.ex(y))
                    else:
                        self.assign(t, v)
            elif isinstance(s, ast.AugAssign):
                v = self.ex(s.value) | self.ex(s.target)
                self.assign(s.target, v)
            elif isinstance(s, (ast.For,)):
                saved = len(self.unordered)
                self.loop(s.target, s.iter)
                self.body(s.body)
                self.body(s.orelse)
            elif isinstance(s, ast.If):
                self.ex(s.test)
                before = dict(self.env)
                self.body(s.body)
                mid, self.env = self.env, dict(before)
                self.body(s.orelse)
                for k, v in mid.items():
                    self.env[k] = self.env.get(k, set()) | v
            elif isinstance(s, ast.While):
                self.ex(s.test)
                self.body(s.body)
            elif isinstance(s, (ast.With,)):
                self.body(s.body)
            elif isinstance(s, ast.Try):
                self.body(s.body)
            elif isinstance(s, ast.Expr):
                self.ex(s.value)


def tok(p):
    return ".".join(p)


def eq_reads(P, cls, m):
    a = m[1].node.args.args
    r = Reads(P, cls, m[1], {a[0].arg: "S", a[1].arg: "O"})
    r.body(m[1].node.body)
    return {tok(p) for p in r.pairs}, r.mismatch


def hash_reads(P, cls, m):
    a = m[1].node.args.args
    r = Reads(P, cls, m[1], {a[0].arg: "S"})
    r.body(m[1].node.body)
    return {tok(p) for x, p in r.out if x == "S"}


def covered(t, have):
    """is the part that is read also compared (itself, or a whole that it belongs to)"""
    if "id" in have:
        return True
    parts = t.split(".")
    return any(".".join(parts[:i]) in have for i in range(1, len(parts) + 1)) or (parts[-1] == "len" and ".".join(parts[:-1] + ["*"]) in have)


def order_bound(P, cls, fn):
    """an expression of the hash whose value depends on the order of an unordered collection (keys, items of a mapping or set)"""
    unordered = bool({b.split(".")[-1] for b in P.ext_bases(cls)} & {"Counter", "dict", "set", "Mapping", "MutableMapping", "defaultdict"})
    out = []

    def loose(e):
        if isinstance(e, ast.Name) and e.id == "self":
            return unordered
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset", "dict"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "map", "enumerate") and e.args:
            return any(loose(a) for a in e.args)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            return loose(e.generators[0].iter)
        return False
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("tuple", "list", "str", "repr", "enumerate") and n.args and loose(n.args[0]):
            out.append(n)
        if isinstance(n, ast.For) and loose(n.iter):
            for x in ast.walk(n):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp):
                    acc = x.targets[0].id
                    for y in ast.walk(x.value):
                        if isinstance(y, ast.BinOp) and isinstance(y.op, (ast.Mult, ast.LShift)) and any(isinstance(z, ast.Name) and z.id == acc for z in ast.walk(y)):
                            out.append(x)
    return out


COPY = ("__copy__", "__deepcopy__", "copy")


def classes(P):
    for cid, c in sorted(P.classes.items()):
        yield cid, c


def copy_facts(P):
    out = {}
    for cid, c in classes(P):
        for n in COPY:
            recs = c.members.get(n)
            if recs and recs[-1][0] == "func":
                fn = recs[-1][1]._sa_func
                if n == "copy" and (len(fn.node.args.args) != 1 or not any(isinstance(x, ast.Return) for x in ast.walk(fn.node))):
                    continue
                k = Copier(P, c, fn)
                out[(cid, n)] = (fn, k.facts(), len(k.rets))
    return out
