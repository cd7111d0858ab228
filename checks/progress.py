"""C31: every round of a loop makes progress.

For each while loop: what its exits depend on (access paths and the direction in which they must move), and, for every way through
the body, whether something of it moves.  Graph searches: what is put on a work list depends on what was seen before.  Recursion:
a function does not call itself with its own unchanged arguments."""
import ast

PURE_FUNCS = frozenset("""len range str int float bool tuple list set frozenset dict sorted min max sum isinstance print zip enumerate any all abs type round
 repr hash id reversed map filter getattr hasattr callable issubclass divmod ord chr format bytes vars dir iter super deepcopy copy""".split())
PURE_METHODS = frozenset("""get keys values items copy index count startswith endswith split join lower upper strip replace format union intersection
 difference issubset issuperset isdisjoint lstrip rstrip find isdigit isnumeric encode decode total_seconds timestamp group match search
 __getitem__ __len__ __contains__ ljust rjust zfill toordinal weekday isoformat strftime to_dict tolist""".split())
SHRINK = frozenset("pop popleft popitem remove discard clear".split())
GROW = frozenset("append add insert appendleft put push setdefault".split())
GROWS = frozenset("extend update".split())
ORDER = {ast.Lt: "<", ast.LtE: "<", ast.Gt: ">", ast.GtE: ">"}
MAXST = 160
STRICT = True


def path(e):
    """components of an access path, or None"""
    if isinstance(e, ast.Name):
        return (e.id,)
    if isinstance(e, ast.Attribute):
        p = path(e.value)
        return p + ("." + e.attr.lstrip("_"),) if p else None
    if isinstance(e, ast.Subscript):
        p = path(e.value)
        return p + ("[]",) if p else None
    return None


def paths_in(e):
    """maximal access paths read in an expression"""
    out = []
    p = path(e)
    if p is not None:
        out.append(p)
        x = e
        while not isinstance(x, ast.Name):
            if isinstance(x, ast.Subscript):
                out += paths_in(x.slice)
            x = x.value
        return out
    for c in ast.iter_child_nodes(e):
        if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)):
            if isinstance(e, ast.Call) and c is e.func:
                if isinstance(c, ast.Attribute):
                    out += paths_in(c.value)
                continue
            if isinstance(c, ast.comprehension):
                for y in [c.iter] + c.ifs:
                    out += paths_in(y)
            elif isinstance(c, ast.keyword):
                out += paths_in(c.value)
            else:
                out += paths_in(c)
    return out


def pre(a, b):
    return b[:len(a)] == a


def touches(p, r):
    return pre(p, r) or pre(r, p)


def const_num(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = const_num(e.operand)
        return None if v is None else -v
    return None


def atoms(t, pos=True):
    """what the continuation 't is pos' depends on: list of (kind, {path: want}); kind order | flag | size | any"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand, not pos)
    if isinstance(t, ast.BoolOp):
        return [a for v in t.values for a in atoms(v, pos)]
    if isinstance(t, ast.NamedExpr):
        return [("done", {})]
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, type(t.ops[0]), t.comparators[0]
        ln, rn = lens(l), lens(r)
        if op in ORDER:
            up = (ORDER[op] == "<") == pos           # continues while l is below r
            if ln is not None and const_num(r) is not None:
                return [("size", {ln: "grow" if up else "shrink"})]
            if rn is not None and const_num(l) is not None:
                return [("size", {rn: "shrink" if up else "grow"})]
            w = {}
            for e, d in ((l, "up" if up else "down"), (r, "down" if up else "up")):
                n = lens(e)
                if n is not None:
                    w[n] = "grow" if d == "up" else "shrink"
                else:
                    lin(e, d, w)
            return [("order", w)] + call_atoms(t)
        if op in (ast.Eq, ast.NotEq) and ln is not None and const_num(r) == 0:
            empty = (op is ast.Eq) == pos            # continues while empty
            return [("size", {ln: "grow" if empty else "shrink"})]
        return [("any", {p: "any" for p in paths_in(t)})] + call_atoms(t)
    p = path(t)
    if p is not None:
        return [("flag", {p: pos})]
    n = lens(t)
    if n is not None:
        return [("size", {n: "shrink" if pos else "grow"})]
    return [("any", {p: "any" for p in paths_in(t)})] + call_atoms(t)


def call_atoms(t):
    for c in ast.walk(t):
        if isinstance(c, ast.Call):
            f = c.func
            if isinstance(f, ast.Name) and f.id not in PURE_FUNCS or isinstance(f, ast.Attribute) and f.attr not in PURE_METHODS:
                return [("call", {})]
    return []


def lens(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
        return path(e.args[0])
    return None


def lin(e, d, w):
    """directions of the paths of a sum"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        lin(e.left, d, w)
        lin(e.right, d if isinstance(e.op, ast.Add) else {"up": "down", "down": "up"}[d], w)
        return
    n = lens(e)
    if n is not None:
        w[n] = "grow" if d == "up" else "shrink"
        return
    p = path(e)
    if p is not None and p[-1] != "[]":
        w[p] = d if p not in w or w[p] == d else "any"
        return
    for q in paths_in(e):
        w.setdefault(q, "any")


class Loop:
    def __init__(self, an, f, node):
        self.an, self.f, self.node = an, f, node
        self.exits = []
        self.atoms = []
        const = isinstance(node.test, ast.Constant)
        self.endless = const
        if not const:
            self.atoms = atoms(node.test)
        self.soft = []           # conditions of break, return and raise
        self.free_exit = False
        self.find_exits(node.body, [], True, False)
        self.use = self.atoms + self.soft
        self.tested = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.If, ast.While)):
                t = n.test
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                if isinstance(t, ast.Name):
                    self.tested.add((t.id,))
        inside = set(map(id, ast.walk(node)))
        self.outer = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inside}
        a = f.node.args
        self.outer |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    def find_exits(self, body, conds, own, intry):
        for s in body:
            if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                if isinstance(s, ast.Break) and not own:
                    continue
                self.exits.append(s)
                if intry:
                    self.free_exit = True
                for t, pos in conds:
                    self.soft += atoms(t, not pos)
            elif isinstance(s, ast.If):
                self.find_exits(s.body, conds + [(s.test, True)], own, intry)
                self.find_exits(s.orelse, conds + [(s.test, False)], own, intry)
            elif isinstance(s, (ast.For, ast.While)):
                more = [(s.test, True)] if isinstance(s, ast.While) else []
                self.find_exits(s.body, conds + more, False, intry)
                self.find_exits(s.orelse, conds, own, intry)
            elif isinstance(s, ast.With):
                self.find_exits(s.body, conds, own, intry)
            elif isinstance(s, ast.Try):
                self.find_exits(s.body + s.orelse + s.finalbody, conds, own, intry)
                for h in s.handlers:
                    self.find_exits(h.body, conds, own, True)
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    self.find_exits(c.body, conds, own, intry)

    # ---------------------------------------------------------------- states: frozenset of (path, effect) with numeric effects summed
    # effect: ("d", n) moved by n | ("u",) changed in an unknown way | ("k", bool) set to a constant; plus ("!",) for a call
    def put(self, st, p, eff):
        d = dict(st)
        old = d.get(p)
        if eff[0] == "c" and old is not None:
            return st
        if eff[0] == "d":
            if old is None or old[0] == "c":
                d[p] = eff
            elif old[0] == "d":
                d[p] = ("d", max(-3, min(3, old[1] + eff[1])))
            elif old[0] == "k":
                d[p] = ("u",)
        else:
            d[p] = eff
        return frozenset(d.items())

    def relevant(self, p):
        return any(touches(p, r) for _, w in self.use for r in w)

    def each(self, sts, p, eff):
        if eff[0] == "!" or len(p) > 1 or eff[0] == "c" or (p[0] in self.outer and eff[0] != "k"):
            sts = frozenset(self.put(s, ("m",), ("u",)) for s in sts)
        if eff[0] == "!":
            return frozenset(self.put(s, ("!",), ("u",)) for s in sts)
        if not self.relevant(p) and p not in self.tested:
            return sts
        return frozenset(self.put(s, p, eff) for s in sts)

    def size(self, sts, p, sign, raising=False):
        """the container at p loses or gets an element"""
        sts = frozenset(self.put(s, ("m",), ("u",)) for s in sts)
        sts = frozenset(self.put(s, p + (sign,), ("u",)) for s in sts)
        if raising:
            sts = frozenset(self.put(s, p + ("-!",), ("u",)) for s in sts)
        return sts

    def expr(self, e, sts):
        if e is None:
            return sts
        for c in self.calls(e):
            sts = self.call(c, sts)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                sts = self.each(sts, (n.target.id,), ("u",))
            elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                sts = self.each(sts, ("!",), ("!",))
        return sts

    def calls(self, e):
        out = []
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call):
                out.append(n)
        return out

    def call(self, c, sts):
        f = c.func
        if isinstance(f, ast.Attribute):
            p = path(f.value)
            m = f.attr
            if p is not None:
                if m in SHRINK:
                    sts = self.size(sts, p, "-", m not in ("discard", "clear"))
                elif m in GROW or m in GROWS:
                    sts = self.size(sts, p, "+")
                elif m not in PURE_METHODS:
                    if m in ("wait", "acquire", "sleep", "join", "result"):
                        sts = frozenset(self.put(s, ("w",), ("u",)) for s in sts)
                    if self.relevant(p):
                        sts = self.each(sts, p, ("c",))
                    sts = self.each(sts, ("!",), ("!",))
                if m in SHRINK or m in GROW or m in GROWS or m in PURE_METHODS:
                    return sts
            elif m not in PURE_METHODS:
                sts = self.each(sts, ("!",), ("!",))
        elif isinstance(f, ast.Name):
            if f.id in ("heappush", "insort", "insort_left", "insort_right"):
                p = path(c.args[0])
                return self.size(sts, p, "+") if p else sts
            if f.id in ("heappop",):
                p = path(c.args[0])
                return self.size(sts, p, "-", True) if p else sts
            if f.id == "next":
                p = path(c.args[0])
                sts = self.each(sts, ("!",), ("!",))
                return self.each(sts, p, ("c",)) if p else sts
            if f.id in PURE_FUNCS:
                return sts
            if f.id == "sleep":
                sts = frozenset(self.put(s, ("w",), ("u",)) for s in sts)
            sts = self.each(sts, ("!",), ("!",))
            for g in self.an.nested.get((self.f.id, f.id), ()):
                for p in g:
                    if self.relevant(p):
                        sts = self.each(sts, p, ("c",))
        if isinstance(f, ast.Attribute) and f.attr in ("heappush", "heappop", "insort") and c.args:
            p = path(c.args[0])
            return self.size(sts, p, "+" if f.attr != "heappop" else "-", f.attr == "heappop") if p else sts
        for a in list(c.args) + [k.value for k in c.keywords]:
            if isinstance(a, ast.Starred):
                a = a.value
            p = path(a)
            if p is not None and self.relevant(p):
                sts = self.each(sts, p, ("c",))
        return sts

    def bind(self, t, v, sts):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                sts = self.bind(x, y, sts)
            return sts
        if isinstance(t, ast.Starred):
            return self.bind(t.value, None, sts)
        p = path(t)
        if p is None:
            return sts
        if isinstance(v, ast.Constant) and p[-1] != "[]" and (v.value is None or isinstance(v.value, (bool, int, float, str))):
            return self.each(sts, p, ("k", bool(v.value), type(v.value).__name__))
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
            c, o = const_num(v.right), v.left
            if c is None and isinstance(v.op, ast.Add):
                c, o = const_num(v.left), v.right
            if c is not None and path(o) == p:
                return self.each(sts, p, ("d", (c > 0) - (c < 0) if not isinstance(c, int) else c) if isinstance(v.op, ast.Add) else ("d", -((c > 0) - (c < 0) if not isinstance(c, int) else c)))
            if c is None and isinstance(v.op, ast.Add) and path(v.left) == p:
                return self.each(sts, p, ("g",))
        if v is not None and p[-1] != "[]" and path(v) == p:
            return sts
        return self.each(sts, p, ("u",))

    def flow(self, body, sts, cont, handlers=None):
        """states after the body (empty when it cannot be left at its end); states at continue go to cont"""
        for s in body:
            if not sts:
                return sts
            if len(sts) > MAXST:
                sts = frozenset(sorted(sts, key=lambda x: (len(x), repr(sorted(x))))[:MAXST])
            sts = self.stmt(s, sts, cont)
        return sts

    def stmt(self, s, sts, cont):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return sts
        if isinstance(s, ast.Assign):
            sts = self.expr(s.value, sts)
            for t in s.targets:
                sts = self.bind(t, s.value, sts)
            return sts
        if isinstance(s, ast.AnnAssign):
            return self.bind(s.target, s.value, self.expr(s.value, sts)) if s.value is not None else sts
        if isinstance(s, ast.AugAssign):
            sts = self.expr(s.value, sts)
            p = path(s.target)
            if p is None:
                return sts
            c = const_num(s.value)
            if c is not None and isinstance(s.op, (ast.Add, ast.Sub)):
                n = c if isinstance(c, int) else (c > 0) - (c < 0)
                return self.each(sts, p, ("d", n if isinstance(s.op, ast.Add) else -n))
            if isinstance(s.op, (ast.Add, ast.BitOr)):
                return self.each(sts, p, ("g",))
            return self.each(sts, p, ("u",))
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    p = path(t.value)
                    if p:
                        sts = self.size(sts, p, "-", True)
                else:
                    p = path(t)
                    if p:
                        sts = self.each(sts, p, ("u",))
            return sts
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return frozenset() if not isinstance(s, ast.Break) or not self.inner else self.brk(sts)
        if isinstance(s, ast.Continue):
            (self.inner[-1][1] if self.inner else cont).update(sts)
            return frozenset()
        if isinstance(s, ast.If):
            sts = self.expr(s.test, sts)
            a, b = self.branch(s.test, sts)
            return self.flow(s.body, a, cont) | self.flow(s.orelse, b, cont)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            never = isinstance(s, ast.While) and isinstance(s.test, ast.Constant)
            sts = self.expr(s.iter if not isinstance(s, ast.While) else s.test, sts)
            once = isinstance(s, ast.For) and self.nonempty(s.iter)
            out = frozenset() if never or once else sts
            self.inner.append((set(), set()))
            x = sts
            if isinstance(s, ast.For):
                x = self.bind(s.target, None, x)
            x = self.flow(s.body, x, cont)
            br, co = self.inner.pop()
            x = x | frozenset(co)
            if never:
                return frozenset(br)
            out = out | x
            if self.finds and br and isinstance(s, ast.For) and not s.orelse:
                return frozenset(br)
            if s.orelse:
                out = self.flow(s.orelse, out, cont)
            return out | frozenset(br)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                sts = self.expr(i.context_expr, sts)
            return self.flow(s.body, sts, cont)
        if isinstance(s, ast.Try):
            mid, x = sts, sts
            for q in s.body:
                if not x:
                    break
                x = self.stmt(q, x, cont)
                mid = mid | x
            out = self.flow(s.orelse, x, cont)
            for h in s.handlers:
                out = out | self.flow(h.body, mid, cont)
            return self.flow(s.finalbody, out, cont)
        if isinstance(s, ast.Match):
            out = sts
            for c in s.cases:
                out = out | self.flow(c.body, sts, cont)
            return out
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                sts = self.expr(c, sts)
        return sts

    def brk(self, sts):
        self.inner[-1][0].update(sts)
        return frozenset()

    def nonempty(self, it):
        if isinstance(it, (ast.List, ast.Tuple)) and it.elts:
            return True
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "sample":
            return True
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and (const_num(it.args[0]) or 0) > 0

    def branch(self, t, sts):
        """states that can take the one and the other branch (constants of flags are followed)"""
        neg = False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        p = path(t)
        if p is None:
            return sts, sts
        a, b = set(), set()
        for s in sts:
            e = dict(s).get(p)
            if e is None or e[0] != "k":
                a.add(s)
                b.add(s)
            elif e[1] != neg:
                a.add(s)
            else:
                b.add(s)
        return frozenset(a), frozenset(b)

    # ---------------------------------------------------------------- verdict
    def moved(self, st, ats):
        d = dict(st)
        if any(p[-1] == "-!" and p[:-1] + ("+",) not in d for p in d):
            return True                                       # taking from what nothing is put in ends by itself
        for kind, w in ats:
            if kind == "done" or (kind == "call" and ("!",) in d):
                return True
            rank = 0
            for r, want in w.items():
                if len(r) > 1 and ("w",) in d:
                    return True                               # another thread is waited for
                if kind == "flag" and ("m",) in d and self.stopped(r, want) and d.get(r, ("k", want))[0] == "k" and self.isflag(r):
                    return True                               # again because something has changed
                for p, e in d.items():
                    if p in (("!",), ("m",), ("w",)):
                        continue
                    if p[-1] in ("+", "-", "-!"):
                        q = p[:-1]
                        if not touches(q, r):
                            continue
                        if q == r and (kind == "size" or kind == "flag" or want in ("shrink", "grow")):
                            if kind == "flag":
                                want_ = "-" if want else "+"
                            else:
                                want_ = "-" if want == "shrink" else "+"
                            if p[-1] == want_:
                                return True
                            continue
                        if kind in ("any", "flag") or pre(q, r):
                            return True
                        continue
                    if not touches(p, r):
                        continue
                    exact = p == r
                    k = e[0]
                    if not exact and not pre(p, r):          # a part of what is looked at
                        if kind in ("any", "flag"):
                            return True
                        continue
                    if k == "u":
                        return True
                    if k == "c":
                        if exact and len(p) == 1 and (kind == "order" and want in ("up", "down") or kind == "flag" and self.isflag(p)):
                            continue                          # a number or a truth value handed to a function
                        return True
                    if not exact:
                        return True
                    if k == "k":
                        if kind != "flag" or e[1] != want:
                            return True
                        continue
                    if kind == "flag":
                        if k == "d" and e[1] != 0 and (self.isflag(p) or (e[1] < 0) == bool(want)):
                            return True
                        continue
                    if kind == "order":
                        if k == "g" or want == "any":
                            return True
                        rank += e[1] if want in ("up", "grow") else -e[1]
                        continue
                    return True
            if kind == "order" and rank > 0:
                return True
        return False

    def stopped(self, r, want):
        """is the flag r ever set so that the loop ends"""
        for n in ast.walk(self.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if path(t) == r and not (isinstance(n.value, ast.Constant) and bool(n.value.value) == want):
                        return True
                    if isinstance(t, (ast.Tuple, ast.List)) and any(path(x) == r for x in t.elts):
                        return True
            elif isinstance(n, ast.NamedExpr) and path(n.target) == r:
                return True
            elif isinstance(n, ast.Call) and len(r) > 1:
                return True
        return False

    def isflag(self, p):
        return p in self.an.consts.get(self.f.id, ())

    def run(self):
        """None when every round moves something, otherwise a description"""
        self.inner = []
        if any(k == "done" for k, _ in self.use):
            return None
        bad = self.rounds()
        t = self.node.test
        if bad and isinstance(t, ast.Compare) and any(const_num(x) is not None for x in [t.left] + t.comparators):
            self.finds = True
            bad = self.rounds()
        return bad or None

    finds = False

    def rounds(self):
        cont = set()
        end = self.flow(self.node.body, frozenset([frozenset()]), cont)
        bad = []
        for st in end | frozenset(cont):
            if self.free_exit and any(p == ("!",) for p, _ in st):
                continue
            if self.moved(st, self.atoms):
                continue
            if self.soft and (self.endless or not STRICT) and self.moved(st, self.soft):
                continue
            bad.append(st)
        return bad


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))


def callee(P, f, call):
    """the function of the package that is called, with the parameters that the arguments are bound to"""
    g = call.func
    r = None
    if isinstance(g, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node and n.name == g.id:
                return n, bound(n, call, 0)
        r = P.resolve(f.mod.name, g.id)
    elif isinstance(g, ast.Attribute):
        if isinstance(g.value, ast.Name) and g.value.id in ("self", "cls") and f.cls is not None:
            m = P.class_member(f.cls, g.attr)
            r = m if m and m[0] == "func" else None
        else:
            r = P.resolve_expr_static(f.mod, g)
    if r and r[0] == "func":
        n = r[1].node
        return n, bound(n, call, 1 if r[1].cls is not None and n.args.args and n.args.args[0].arg in ("self", "cls") else 0)
    return None, ()


def bound(n, call, skip):
    names = [x.arg for x in n.args.posonlyargs + n.args.args][skip:]
    return list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]


def remembers(node, name):
    """does the function put something in its parameter"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW | GROWS and path(n.func.value) == (name,):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and path(n.value) == (name,):
            return True
        if isinstance(n, ast.AugAssign) and path(n.target) == (name,):
            return True
    return False


def asks(node, name):
    """does the function look something up in its parameter"""
    if any((name,) == q[:1] for n in ast.walk(node) if isinstance(n, (ast.Compare, ast.Call)) for q in lookups(n)):
        return True
    return any(isinstance(n, ast.For) and path(n.iter) == (name,) and any(isinstance(x, ast.If) for x in n.body) or isinstance(n, ast.comprehension) and path(n.iter) == (name,)
               for n in ast.walk(node))                      # compares with all that is in it


class Search:
    """work lists of a loop: what is taken from them and put in them, and under which conditions"""

    def __init__(self, an, f, node, loop):
        self.an, self.f, self.node = an, f, node
        self.takes, self.puts, self.changed = set(), [], set()
        self.alias, self.ordered, self.values = {}, set(), {}
        self.notes, self.conds = [], ()                     # changes with the conditions they are under
        self.block(node.body, ())
        lists = set()                                       # what must get empty, or is gone through by index
        for kind, w in loop.atoms or loop.soft:
            for q, want in w.items():
                if want == "shrink" or kind == "flag" and want or kind == "order" and want in ("down", "any"):
                    lists.add(q)
        if loop.endless:
            lists |= self.takes
        lists -= {q for _, w in loop.use for q, want in w.items() if want == "grow"}
        self.sites = [(q, conds, n) for q, conds, n in self.puts if q in lists]
        self.yields = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        self.decreases = any(isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and const_num(n.right) or isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub)
                             for n in ast.walk(node))
        top = [n for x in node.body if isinstance(x, (ast.Expr, ast.Assign, ast.Delete)) for n in ast.walk(x)]
        self.top = {}
        for n in top:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHRINK and path(n.func.value):
                q = path(n.func.value)
                self.top[q] = self.top.get(q, 0) + 1

    def block(self, body, conds):
        for s in body:
            self.stmt(s, conds)
            if isinstance(s, ast.If) and (ends(s.body) or ends(s.orelse)):
                conds = conds + (s.test,)

    def note(self, p):
        self.changed.add(p)
        self.notes.append((p, self.conds))

    def stmt(self, s, conds):
        self.conds = conds
        if isinstance(s, ast.If):
            self.exprs(s.test, conds)
            self.block(s.body, conds + (s.test,))
            self.block(s.orelse, conds + (s.test,))
        elif isinstance(s, (ast.For, ast.While)):
            it = s.iter if isinstance(s, ast.For) else s.test
            self.exprs(it, conds)
            self.change(s.target) if isinstance(s, ast.For) else None
            self.block(s.body, conds + (it,))
            self.block(s.orelse, conds)
        elif isinstance(s, ast.With):
            self.block(s.body, conds)
        elif isinstance(s, ast.Try):
            self.block(s.body, conds)
            for h in s.handlers:
                self.block(h.body, conds)
            self.block(s.orelse + s.finalbody, conds)
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is not None:
                self.exprs(s.value, conds)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                p = path(t)
                if p and s.value is not None:
                    self.values.setdefault(p, []).append(s.value)
                    self.values[p] += [c for c in conds]
                    if any(isinstance(x, ast.Compare) and type(x.ops[0]) in ORDER for x in ast.walk(s.value)):
                        self.ordered.add(p)
                    rd = paths_in(s.value)
                    self.alias.setdefault(p, []).extend(rd + [q for c in conds for q in paths_in(c)])
                    # Q = Q + more, Q = Q[1:], Q += more
                    if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.BitOr)) and const_num(s.value) is None:
                        self.puts.append((p, conds + tuple(filters(s.value)), s))
                    elif isinstance(s, ast.Assign) and p in rd and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.BitOr)) \
                            and const_num(s.value.right) is None and const_num(s.value.left) is None:
                        self.puts.append((p, conds + tuple(filters(s.value)), s))
                self.change(t)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and path(t.value):
                    self.takes.add(path(t.value))
                self.change(t)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.exprs(c, conds)

    def change(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.change(x)
            return
        p = path(t)
        if p:
            if p[-1] == "[]":
                self.note(p[:-1])
            self.note(p)

    def exprs(self, e, conds):
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            if isinstance(f, ast.Attribute):
                p = path(f.value)
                if f.attr in ("heappop", "heappush") and n.args and path(n.args[0]):
                    q = path(n.args[0])
                    if f.attr == "heappop":
                        self.takes.add(q)
                    else:
                        self.puts.append((q, conds + tuple(x for a in n.args[1:] for x in filters(a)), n))
                    continue
                if p and f.attr in SHRINK:
                    self.takes.add(p)
                if p and (f.attr in GROW or f.attr in GROWS):
                    self.puts.append((p, conds + tuple(x for a in n.args for x in filters(a)), n))
                    self.note(p)
            elif isinstance(f, ast.Name) and f.id in ("heappop", "heappush") and n.args and path(n.args[0]):
                q = path(n.args[0])
                if f.id == "heappop":
                    self.takes.add(q)
                else:
                    self.puts.append((q, conds, n))
                continue
            if isinstance(f, ast.Name) and f.id in PURE_FUNCS or isinstance(f, ast.Attribute) and f.attr in PURE_METHODS | SHRINK | GROW | GROWS:
                continue
            g, args = callee(self.an.P, self.f, n)
            if g is not None:
                for name, a in args:
                    p = path(a)
                    if p and remembers(g, name):
                        self.note(p)

    def asked(self, e):
        out = []
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                g, args = callee(self.an.P, self.f, n)
                if g is not None:
                    out += [p for name, a in args for p in [path(a)] if p and asks(g, name)]
        return out

    def kept(self, k, conds):
        """is the memory k written on the way to what is put (not only under some other condition)"""
        have = {ast.unparse(c) for c in conds}
        for p, cs in self.notes:
            if p == k and all(ast.unparse(c) in have or any(pre(x, k) or pre(k, x) for x in list(lookups(c)) + self.asked(c)) for c in cs):
                return True
        return False

    def guarded(self, q, conds, state):
        """is some condition a look-up in what the loop remembers (directly, or through values computed from it)"""
        todo, seen = list(conds), set()
        while todo:
            c = todo.pop()
            for p in list(lookups(c)) + self.asked(c):
                if any((pre(p, k) or pre(k, p)) and self.kept(k, conds) for k in state):
                    return True
            for n in ast.walk(c):
                if isinstance(n, ast.Compare) and type(n.ops[0]) in ORDER:
                    for x in [n.left] + n.comparators:
                        for v in self.values.get(path(x), ()) if path(x) else ():
                            if isinstance(v, ast.Subscript) and any(pre(path(v.value) or ("?",), k) for k in state):
                                return True
            for p in paths_in(c):
                if p not in seen:
                    seen.add(p)
                    todo += self.values.get(p, ())
        return False

    def run(self):
        # what the loop keeps track of: defined before the loop and changed in it, other than the work lists
        inside = set(map(id, ast.walk(self.node)))
        before = {n.id for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inside}
        a = self.f.node.args
        before |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        lists = {q for q, _, _ in self.sites}
        state = {p for p in self.changed if p[0] in before or len(p) > 1}
        state = {p for p in state if p[0] in before and not any(pre(q, p) and q in self.takes for q in lists)}
        out = []
        if self.yields:                                     # the consumer decides how far it goes
            return out
        nput = {}
        for q, _, _ in self.sites:
            nput[q] = nput.get(q, 0) + 1
        for q, conds, n in self.sites:
            if self.top.get(q, 0) > nput[q] or self.guarded(q, conds, state):
                continue
            if self.decreases and any(isinstance(x, ast.Compare) and type(x.ops[0]) in ORDER or path(x) in self.ordered for c in conds for x in ast.walk(c) if isinstance(x, ast.expr)):
                continue
            if any(isinstance(x, ast.Attribute) and (x.attr.lstrip("_") in ("children", "get_children") or x.attr.endswith("_tree")) or isinstance(x, ast.Constant) and x.value == "children"
                   for c in list(conds) + [n] for y in [c] + [v for p in paths_in(c) for v in self.values.get(p, ())] for x in ast.walk(y)):
                continue                                    # goes down a tree
            arg = n.args[-1] if isinstance(n, ast.Call) and n.args else None
            if isinstance(arg, ast.Name) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and path(x.value) == (arg.id,) for x in ast.walk(self.node)):
                continue                                    # put back with a change
            out.append((q, n))
        return out


def lookups(e):
    """collections in which something is looked up"""
    for n in ast.walk(e):
        if isinstance(n, ast.Compare):
            for op, r in zip(n.ops, n.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    yield from paths_in(r)
            if any(type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) for op in n.ops):
                for x in [n.left] + n.comparators:
                    if isinstance(x, (ast.Subscript, ast.Call)):
                        yield from paths_in(x)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            yield from paths_in(n.right)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("difference", "issubset", "issuperset", "isdisjoint", "intersection"):
                for a in n.args:
                    yield from paths_in(a)
                yield from paths_in(f.value)
            elif isinstance(f, ast.Attribute) and f.attr == "get":
                yield from paths_in(f.value)


def filters(e):
    """conditions inside an expression: filters of comprehensions, differences of sets"""
    for n in ast.walk(e):
        if isinstance(n, ast.comprehension):
            for x in n.ifs:
                yield x
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "difference":
            yield n
        elif isinstance(n, ast.IfExp):
            yield n.test


class Analysis:
    def __init__(self, P):
        self.P = P
        self.nested, self.consts = {}, {}
        self.loops, self.searches = [], []

    def run(self):
        for f in list(self.P.funcs.values()):
            consts = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (bool, int, float)):
                    for t in n.targets:
                        p = path(t)
                        if p:
                            consts.add(p)
                if isinstance(n, ast.FunctionDef) and n is not f.node:
                    ps = set()
                    for m in ast.walk(n):
                        if isinstance(m, ast.expr):
                            p = path(m)
                            if p:
                                ps.add(p)
                    self.nested.setdefault((f.id, n.name), []).append(ps)
            self.consts[f.id] = consts
            own = [n for n in self.walk_own(f.node) if isinstance(n, ast.While)]
            for n in own:
                l = Loop(self, f, n)
                self.loops.append((f, n, l, l.run()))
                q = Search(self, f, n, l)
                if q.sites:
                    self.searches.append((f, n, q, q.run()))
        return self

    def walk_own(self, node):
        st = list(ast.iter_child_nodes(node))
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield n
            st = list(ast.iter_child_nodes(n)) + st


def recursion(P):
    """calls of a function by itself with its own unchanged arguments: (function, call, fine)"""
    for f in P.funcs.values():
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        meth = f.cls is not None and names[:1] == ["self"]
        stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        for n in Analysis.walk_own(None, f.node):
            if not isinstance(n, ast.Call):
                continue
            if meth:
                if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr == f.node.name):
                    continue
                params = names[1:]
            else:
                if not (f.cls is None and isinstance(n.func, ast.Name) and n.func.id == f.node.name):
                    continue
                params = names
            same = 0
            for p, x in list(zip(params, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if isinstance(x, ast.Name) and x.id == p and p not in stored:
                    same += 1
            given = len(n.args) + len(n.keywords)
            changes = any(isinstance(m, (ast.Attribute, ast.Subscript)) and isinstance(m.ctx, (ast.Store, ast.Del)) or
                          isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in SHRINK | GROW | GROWS
                          for m in ast.walk(f.node))
            yield f, n, changes or same < given or given < len(params) and not meth and bool(set(params[given:]) - stored) and False


# reviewed: the condition around the step always holds there
REVIEWED = {("pm4py.objects.conversion.heuristics_net.variants.to_petri_net", ("i", "trans")): "a transition still in the list is still in the net"}


def c31(ctx):
    an = Analysis(ctx.P).run()
    ctx.rule("each time round a while loop, on every path through its body, something that an exit of the loop depends on moves the right way: an index towards its bound, a work list loses an element, "
             "a flag is not just set again without any change, a condition gets other operands")
    ctx.rule("what a graph search puts on its work list depends on what it has already seen (or goes down a tree, or has a decreasing measure)")
    ctx.rule("no function calls itself with its own unchanged arguments")
    ctx.assume("a call of a function of unknown effect that gets the object, and an assignment of a computed value, count as a move; a search loop over a collection that breaks when it finds something is assumed to find it where the loop needs that")
    ctx.need(len(an.loops) > 200 and len(an.searches) > 30, "the while loops of the package could not be read")
    for f, n, l, bad in an.loops:
        names = tuple(sorted({p[0] for _, w in l.use for p in w}))
        if l.endless and not l.exits:
            ctx.bad("%s|endless loop" % f.id, "%s:%d" % (f.mod.rel, n.lineno), "the loop of %s has no exit" % f.id)
        elif bad and (f.mod.name, names) not in REVIEWED:
            t = ast.unparse(n.test)
            ctx.bad("%s|while %s" % (f.id, t[:60]), "%s:%d" % (f.mod.rel, n.lineno),
                    "%s: a way through the body of 'while %s' (line %d) comes back to the test with nothing that the end of the loop depends on (%s) moved towards it" % (f.id, t[:60], n.lineno, ", ".join(names)))
        else:
            ctx.ok("%s: while %s" % (f.id, ast.unparse(n.test)[:50]))
    for f, n, q, bad in an.searches:
        for w, b in bad:
            ctx.bad("%s|puts on %s" % (f.id, "".join(w)), "%s:%d" % (f.mod.rel, b.lineno),
                    "%s: '%s' puts on the work list %s whatever has been seen before: the search does not end on a cycle" % (f.id, ast.unparse(b)[:70], "".join(w)))
        ctx.ok("%s: work list" % f.id, n=len(q.sites) - len(bad))
    rec = 0
    for f, n, fine in recursion(ctx.P):
        rec += 1
        if fine:
            ctx.ok()
        else:
            ctx.bad("%s|recursion" % f.id, "%s:%d" % (f.mod.rel, n.lineno), "%s calls itself with its own unchanged arguments" % f.id)
    ctx.need(rec > 30, "the recursive functions of the package could not be read")
    ctx.cover.update({"while loops": len(an.loops), "searches": len(an.searches), "recursive calls": rec})
