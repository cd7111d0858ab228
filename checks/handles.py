"""C17: text files have an explicit encoding, and what an operation opens it closes before it returns."""
import ast

OPENERS = {"open": 1, "io.open": 1, "codecs.open": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1, "os.fdopen": 1, "sqlite3.connect": 0,
           "zipfile.ZipFile": 0, "tarfile.open": 0}
TEXTDEF = {"open", "io.open", "os.fdopen"}                          # text unless the mode says binary
TEXTEXP = {"gzip.open", "bz2.open", "lzma.open"}                     # binary unless the mode says text
TEMPS = {"tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "NamedTemporaryFile", "TemporaryFile"}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + "." + e.attr if d else None
    return None


def text_of(e):
    return ast.unparse(e)


class Fn:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.imports = an.imports(f)
        self.leaks, self.returns, self.closes = [], False, None
        self.opened = 0
        self.where = {}

    def kind(self, call):
        """name of the opener that is called, or None"""
        d = dotted(call.func)
        if d is None:
            return None
        r, _, rest = d.partition(".")
        full = self.imports.get(r, r) + ("." + rest if rest else "")
        if full in OPENERS or full in TEMPS:
            return full
        if full.split(".")[-1] == "open" and full.split(".")[0] in ("pathlib",):
            return "open"
        return None

    def is_open(self, e):
        if not isinstance(e, ast.Call):
            return False
        k = self.kind(e)
        if k in OPENERS:
            return True
        g = self.an.callee(self.f, e)
        return g is not None and g.id in self.an.openers

    # ------------------------------------------------------------------ paths: set of frozensets of open variables
    def use(self, e, sts, held=False):
        """openings inside an expression that nobody holds"""
        if e is None:
            return sts
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and self.is_open(n):
                self.opened += 1
                if not held or n is not e:
                    if not self.handed(e, n):
                        self.leaks.append((n, "is opened and never closed"))
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ("close", "__exit__"):
                    v = text_of(f.value)
                    sts = {s - {v} for s in sts}
                else:
                    g = self.an.callee(self.f, n)
                    if g is not None:
                        for name, a in self.an.bound(g, n):
                            if name in self.an.closers.get(g.id, ()):
                                v = text_of(a)
                                sts = {s - {v} for s in sts}
                    elif dotted(f) and dotted(f).split(".")[-1] in ("closing", "enter_context", "callback", "register"):
                        for a in n.args:
                            v = text_of(a.value) if isinstance(a, ast.Attribute) and a.attr == "close" else text_of(a)
                            sts = {s - {v} for s in sts}
        return sts

    def handed(self, e, call):
        """is the opened file given to something that closes it"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and call in n.args:
                d = dotted(n.func) or ""
                if d.split(".")[-1] in ("closing", "enter_context", "TextIOWrapper", "BufferedReader", "BufferedWriter"):
                    return True
                g = self.an.callee(self.f, n)
                if g is not None and any(a is call and name in self.an.closers.get(g.id, ()) for name, a in self.an.bound(g, n)):
                    return True
        return False

    def end(self, sts, why, node):
        for s in sts:
            for v in s:
                self.leaks.append((self.where.get(v, node), "held by %s, is still open %s" % (v, why)))

    def flow(self, body, sts):
        for s in body:
            if not sts:
                break
            sts = self.stmt(s, sts)
        return sts

    def test(self, t, sts):
        """states for the branches: an open file is neither None nor false"""
        neg = False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        v = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = text_of(t.left)
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                neg = not neg
        elif isinstance(t, (ast.Name, ast.Attribute)):
            v = text_of(t)
        if v is None:
            return sts, sts
        a = {s for s in sts if not (neg and v in s)}
        b = {s for s in sts if neg or v not in s}
        return a, b

    def stmt(self, s, sts):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return sts
        if isinstance(s, ast.Assign):
            held = self.is_open(s.value) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))
            if isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name) and (self.is_open(s.value.body) or self.is_open(s.value.orelse)):
                v = s.targets[0].id
                self.opened += 2
                self.where[v] = s.value
                return {x | {v} for x in sts}
            sts = self.use(s.value, sts, held)
            t = s.targets[0]
            if held:
                v = text_of(t)
                if isinstance(t, ast.Attribute):
                    if not self.an.closed_somewhere(self.f, t):
                        self.leaks.append((s.value, "is kept in %s, which no method closes" % v))
                    return sts
                self.end([x & {v} for x in sts], "when %s is assigned again" % v, s)
                self.where[v] = s.value
                return {x | {v} for x in sts}
            if isinstance(s.value, ast.Name):
                v = s.value.id
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    return {x - {v} for x in sts}               # handed on to an object
                if isinstance(t, ast.Name) and any(v in x for x in sts):
                    self.where[t.id] = self.where.get(v, s)
                    return {(x - {v}) | {t.id} if v in x else x for x in sts}
            if isinstance(s.value, ast.Call):                    # wrapped: w = io.TextIOWrapper(f)
                d = dotted(s.value.func) or ""
                if d.split(".")[-1] in ("TextIOWrapper", "BufferedReader", "BufferedWriter", "GzipFile", "reader", "writer") or d[:1].isupper():
                    for a in s.value.args:
                        if isinstance(a, ast.Name) and isinstance(t, ast.Name) and d.split(".")[-1] not in ("reader", "writer"):
                            if any(a.id in x for x in sts):
                                self.where[t.id] = self.where.get(a.id, s)
                                sts = {(x - {a.id}) | {t.id} if a.id in x else x for x in sts}
            return sts
        if isinstance(s, ast.Return):
            v = text_of(s.value) if isinstance(s.value, ast.Name) else None
            if s.value is not None and self.is_open(s.value):
                self.returns = True
                sts = self.use(s.value, sts, True)
            else:
                sts = self.use(s.value, sts)
            names = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} if isinstance(s.value, (ast.Name, ast.Tuple, ast.Dict, ast.List)) else set()
            if any(x & names for x in sts):
                self.returns = True
            self.exit |= {x - names for x in sts}
            self.rets.append((s, {x - names for x in sts}))
            return set()
        if isinstance(s, ast.Raise):
            return set()
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1] |= sts
            return set()
        if isinstance(s, ast.If):
            sts = self.use(s.test, sts)
            a, b = self.test(s.test, sts)
            return self.flow(s.body, a) | self.flow(s.orelse, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            sts = self.use(s.iter if not isinstance(s, ast.While) else s.test, sts)
            self.loops.append(set())
            never = isinstance(s, ast.While) and isinstance(s.test, ast.Constant)
            x = self.flow(s.body, sts)
            x = self.flow(s.body, x - sts) | x
            br = self.loops.pop()
            out = (set() if never else sts | x) | br
            return self.flow(s.orelse, out) if s.orelse else out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            mine = set()
            for i in s.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and self.is_open(e):
                    sts = self.use(e, sts, True)
                else:
                    sts = self.use(e, sts)
                    mine.add(text_of(e))
            nr = len(self.rets)
            out = self.flow(s.body, sts)
            for k in range(nr, len(self.rets)):
                self.rets[k] = (self.rets[k][0], {x - mine for x in self.rets[k][1]})
            return {x - mine for x in out}
        if isinstance(s, ast.Try):
            nr = len(self.rets)
            mid, x = set(sts), sts
            for q in s.body:
                if not x:
                    break
                x = self.stmt(q, x)
                mid |= x
            out = self.flow(s.orelse, x) if x else x
            for h in s.handlers:
                out = out | self.flow(h.body, set(mid))
            if s.finalbody:
                kept = self.rets[nr:]
                del self.rets[nr:]
                for r, st in kept:
                    y = self.flow(s.finalbody, set(st))
                    self.rets.append((r, y))
                out = self.flow(s.finalbody, out) if out else out
                if not out and not s.handlers:
                    self.flow(s.finalbody, set(mid))
            return out
        if isinstance(s, ast.Match):
            out = set(sts)
            for c in s.cases:
                out |= self.flow(c.body, sts)
            return out
        if isinstance(s, ast.Delete):
            return sts
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                sts = self.use(c, sts)
        return sts

    def run(self):
        self.loops, self.exit, self.rets = [], set(), []
        out = self.flow(self.f.node.body, {frozenset()})
        self.end(out, "at the end of the function", self.f.node)
        for r, st in self.rets:
            self.end(st, "when the function returns in line %d" % r.lineno, r)
        # parameters that are closed on every normal path
        a = self.f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        return self

    def closed_params(self):
        out = set()
        a = self.f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        src = {n.func.value.id for n in ast.walk(self.f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Name)}
        src |= {i.context_expr.id for n in ast.walk(self.f.node) if isinstance(n, ast.With) for i in n.items if isinstance(i.context_expr, ast.Name)}
        for p in params:
            if p not in src:
                continue
            self.loops, self.exit, self.rets = [], set(), []
            sv, self.leaks = self.leaks, []
            x = self.flow(self.f.node.body, {frozenset([p])})
            if not any(p in s for s in x) and not any(p in s for _, st in self.rets for s in st):
                out.add(p)
            self.leaks = sv
        return out


class Analysis:
    def __init__(self, P):
        self.P = P
        self.openers, self.closers = set(), {}
        self._imp = {}

    def imports(self, f):
        m = f.mod.name
        if m not in self._imp:
            d = {}
            for n in ast.walk(f.mod.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        d[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        d[a.asname or a.name] = n.module + "." + a.name
            self._imp[m] = d
        return self._imp[m]

    def callee(self, f, c):
        g = c.func
        r = None
        if isinstance(g, ast.Name):
            r = self.P.resolve(f.mod.name, g.id)
        elif isinstance(g, ast.Attribute):
            if isinstance(g.value, ast.Name) and g.value.id in ("self", "cls") and f.cls is not None:
                r = self.P.class_member(f.cls, g.attr)
            elif dotted(g):
                r = self.P.resolve_expr_static(f.mod, g)
        return r[1] if r and r[0] == "func" else None

    def bound(self, g, c):
        names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if g.cls is not None and names[:1] in (["self"], ["cls"]):
            names = names[1:]
        return list(zip(names, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg]

    def closed_somewhere(self, f, t):
        if f.cls is None:
            return True                                         # an attribute of an object that is handed in
        for g in self.P.funcs.values():
            if g.mod is f.mod and g.cls is not None and (g.cls is f.cls or getattr(g.cls, "id", 0) == getattr(f.cls, "id", 1)):
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == t.attr:
                        return True
        return False

    def run(self):
        fs = list(self.P.funcs.values())
        for _ in range(4):
            o, c = set(), {}
            self.res = {}
            for f in fs:
                w = Fn(self, f).run()
                self.res[f.id] = (f, w)
                if w.returns:
                    o.add(f.id)
                x = w.closed_params()
                if x:
                    c[f.id] = x
            if o == self.openers and c == self.closers:
                break
            self.openers, self.closers = o, c
        return self


def mode_of(call, k):
    pos = 1 if k not in TEMPS else 0
    for kw in call.keywords:
        if kw.arg == "mode":
            return kw.value
    if len(call.args) > pos:
        return call.args[pos]
    return None


def modes(e, env):
    """constant values that the mode can have, None when unknown"""
    if e is None:
        return [None]
    if isinstance(e, ast.Constant):
        return [e.value]
    if isinstance(e, ast.IfExp):
        return modes(e.body, env) + modes(e.orelse, env)
    if isinstance(e, ast.Name):
        vs = env.get(e.id, [])
        return [x for v in vs for x in modes(v, {})] if vs else ["?"]
    return ["?"]


def c17(ctx):
    P = ctx.P
    an = Analysis(P).run()
    ctx.rule("a file that is opened as text (open, gzip.open in text mode, temporary files in text mode, Path.read_text and write_text) has an explicit encoding, so that what is written and read does not depend on the locale")
    ctx.rule("a file or database connection that a function opens is closed on every path on which it returns: by a with statement, by close, by a function that closes it, or it is returned or kept by an object with a method that closes it")
    ctx.assume("paths that are left by an exception are not required to close; temporary files are closed by the runtime")
    nopen = 0
    for i, (f, w) in sorted(an.res.items()):
        seen = set()
        for n, why in w.leaks:
            k = ast.unparse(n)[:50] if isinstance(n, ast.expr) else f.node.name
            if (n.lineno, why) in seen:
                continue
            seen.add((n.lineno, why))
            ctx.bad("%s|%s|open" % (i, k), "%s:%d" % (f.mod.rel, n.lineno), "%s: %s %s" % (i, k, why))
        nopen += w.opened
        ctx.ok(n=max(0, w.opened - len(seen)))
    ntext = 0
    mods = {}
    for f, w in an.res.values():
        mods.setdefault(f.mod.name, (f, w))
    for m, (f, w) in sorted(mods.items()):
        env = {}
        for n in ast.walk(f.mod.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                env.setdefault(n.targets[0].id, []).append(n.value)
        for n in ast.walk(f.mod.tree):
            if not isinstance(n, ast.Call):
                continue
            k = w.kind(n)
            if k is None and isinstance(n.func, ast.Attribute) and n.func.attr in ("read_text", "write_text"):
                enc, text = [x for x in n.keywords if x.arg == "encoding"] or (n.args if n.func.attr == "read_text" else n.args[1:]), True
            elif k in TEXTDEF or k in TEXTEXP or k in TEMPS:
                md = modes(mode_of(n, k), env)
                if k in TEXTDEF:
                    text = any(x is None or x == "?" or "b" not in x for x in md)
                else:
                    text = any(x is not None and ("t" in x if k in TEXTEXP else "b" not in x) for x in md)
                enc = [x for x in n.keywords if x.arg in ("encoding", None)] or n.args[3:4]
            else:
                continue
            if not text:
                ctx.ok()
                continue
            ntext += 1
            e = enc[0].value if enc and isinstance(enc[0], ast.keyword) else enc[0] if enc else None
            if e is None or isinstance(e, ast.Constant) and e.value is None:
                ctx.bad("%s|%s|encoding" % (m, ast.unparse(n.func)), "%s:%d" % (f.mod.rel, n.lineno),
                        "%s: %s opens text without an encoding: what is written and read depends on the locale" % (m, ast.unparse(n)[:70]))
            else:
                ctx.ok("%s: %s" % (m, ast.unparse(n)[:60]))
    ctx.need(nopen > 25, "the openings of files could not be found")
    ctx.cover.update({"openings": nopen, "text openings": ntext, "functions that return an open file": len(an.openers), "functions that close a parameter": len(an.closers)})
