"""C15: every internal reference and call resolves (names, imported names, module attributes, enumeration members,
methods of own classes, call signatures, dispatch through variant enumerations)."""
import ast
import builtins
import symtable

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__",
                                 "get_ipython"}    # added to the builtins by IPython; its absence is handled

# variants that do not offer an optional operation of their dispatcher (calling it is an error of the caller)
NOT_OFFERED = {("apply_dfg", "ALPHA_VERSION_PLUS"), ("matplotlib_view", "DAGREJS"), ("apply_semilogx", "BARPLOT")}


class Sig:
    """call signature of a project function"""

    def __init__(self, node, skip_first=False):
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.ponly = {x.arg for x in a.posonlyargs}
        nd = len(a.defaults)
        self.req = set(self.pos[:len(self.pos) - nd] if nd else self.pos)
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.vararg, self.kwarg = a.vararg is not None, a.kwarg is not None
        if skip_first and self.pos:
            self.req.discard(self.pos[0])
            self.pos = self.pos[1:]

    def mismatch(self, call):
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if n > len(self.pos) and not self.vararg:
            return "%d positional arguments given, %d accepted" % (n, len(self.pos))
        given = set(self.pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given:
                return "the argument %s is given twice" % k.arg
            if k.arg not in self.pos and k.arg not in self.kwonly and not self.kwarg or k.arg in self.ponly and not self.kwarg:
                return "unknown keyword argument %s" % k.arg
            given.add(k.arg)
        if not star and not dstar:
            miss = (self.req | self.kwreq) - given
            if miss:
                return "missing argument(s) %s" % ", ".join(sorted(miss))
        return None


def decorators(node):
    out = set()
    for d in node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        out.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
    return out


TRANSPARENT = {"staticmethod", "classmethod", "deprecated", "lru_cache", "wraps", "abstractmethod"}


class Scope:
    """names bound inside one function (for shadowing of module-level names)"""

    def __init__(self, node, parent):
        self.parent = parent
        self.imports = {}          # name -> set of resolutions (function-level imports)
        self.other = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.other.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                self.other.add(x.arg)


def scan_scope(P, mod, node, parent):
    sc = Scope(node, parent)
    body = node.body if isinstance(node.body, list) else []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                sc.other.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.Import):
                for a in c.names:
                    nm = a.asname or a.name.split(".")[0]
                    tgt = a.name if a.asname else a.name.split(".")[0]
                    sc.imports.setdefault(nm, []).append(("mod", tgt) if tgt in P.modules else ("ext", tgt))
            elif isinstance(c, ast.ImportFrom):
                from sa.project import resolve_from
                base = resolve_from(mod, c)
                for a in c.names:
                    r = P.resolve(base, a.name)
                    sc.imports.setdefault(a.asname or a.name, []).append(r or ("ext", "?"))
            elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                sc.other.add(c.id)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                sc.other.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                pass
            walk(c)
    for s in body:
        holder = ast.Module(body=[s], type_ignores=[])
        walk(holder)
    return sc


class Resolver:
    def __init__(self, P):
        self.P = P

    def expr(self, mod, e, sc, clsq=None):
        """resolution of a Name/Attribute chain, or None when it is a local value"""
        P = self.P
        if isinstance(e, ast.Name):
            s = sc
            while s is not None:
                if e.id in s.other:
                    return None
                if e.id in s.imports:
                    rs = {repr(x): x for x in s.imports[e.id]}
                    return next(iter(rs.values())) if len(rs) == 1 else None
                s = s.parent
            recs = mod.binds.get(e.id)
            if not recs and not mod.binds.get("*"):
                return None
            if recs and len({repr(r[:1]) for r in recs}) > 1 and any(r[0] == "expr" for r in recs):
                return None
            return P.resolve(mod.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.expr(mod, e.value, sc)
            if b is None:
                return None
            if b[0] == "mod":
                r = P.resolve(b[1], e.attr)
                return r if r is not None else ("missing", b[1], e.attr)
            if b[0] == "class":
                if e.attr in ("__name__", "__members__", "__class__", "__doc__", "__init__", "mro", "__subclasses__", "__module__", "__new__"):
                    return None
                m = P.class_member(b[1], e.attr)
                if m is not None:
                    return ("member", b[1], e.attr, m)
                if P.is_enum(b[1]) or not P.ext_bases(b[1]) - {"object", "Generic", "ABC", "abc.ABC"}:
                    return ("missing", b[1].id, e.attr)
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "missing":
                return None
            return None
        return None


def variants_of(P, mod, e, sc_names, fn):
    """the enumeration classes whose members the expression handed to get_variant may be"""
    # default of the parameter of that name
    if isinstance(e, ast.Name) and fn is not None:
        a = fn.args
        ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg == e.id:
                r = P.resolve_expr_static(mod, d.value if isinstance(d, ast.Attribute) else d)
                if r and r[0] == "class" and P.is_enum(r[1]):
                    return r[1]
                if isinstance(d, ast.Name):
                    q = P.resolve(mod.name, d.id)
                    if q and q[0] == "expr":
                        for x in q[2]:
                            if isinstance(x, ast.Attribute):
                                r = P.resolve_expr_static(q[1], x.value)
                                if r and r[0] == "class" and P.is_enum(r[1]):
                                    return r[1]
    return None


def enum_modules(P, cls):
    out = []
    for nm, recs in cls.members.items():
        for r in recs:
            if r[0] == "expr" and r[1] is not None:
                q = P.resolve_expr_static(cls.mod, r[1])
                if q and q[0] == "mod":
                    out.append((nm, q[1]))
    return out


def callee_sig(P, r, via_class=False):
    """(Sig, function) for a resolved callee"""
    if r is None:
        return None
    if r[0] == "func":
        f = r[1]
        if decorators(f.node) - TRANSPARENT:
            return None
        return Sig(f.node), f
    if r[0] == "class":
        c = r[1]
        if P.is_enum(c) or any(P.ext_bases(x) - {"object", "Generic", "ABC", "abc.ABC"} for x in P.mro(c)):
            return None
        if any("dataclass" in d for x in P.mro(c) for d in decorators(x.node)) or any("metaclass" == k.arg for x in P.mro(c) for k in x.node.keywords):
            return None
        m = P.class_member(c, "__init__")
        if m is None:
            if P.class_member(c, "__new__"):
                return None
            return "noinit", c
        if m[0] != "func" or decorators(m[1].node):
            return None
        return Sig(m[1].node, True), m[1]
    if r[0] == "member" and r[3][0] == "func":
        f = r[3][1]
        ds = decorators(f.node)
        if ds - TRANSPARENT:
            return None
        return Sig(f.node, "classmethod" in ds), f
    return None


def fkey(stack, mod):
    return "%s:%s" % (mod.name, ".".join(stack) or "<module>")


def check_names(ctx, P, mod):
    """undefined names, from the compiler's own scope analysis"""
    star = mod.binds.get("*")
    top = symtable.symtable(mod.src, mod.rel, "exec")
    globs = set(mod.binds) | set(BUILTINS) | {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported()}
    todo, declared = [top], set()
    while todo:
        t = todo.pop()
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                declared.add(s.get_name())
        todo += t.get_children()
    globs |= declared

    def known(n):
        if n in globs:
            return True
        if star:
            if any(r[1].split(".")[0] != "pm4py" or r[1] not in P.modules for r in star):
                return True
            return P.resolve(mod.name, n) is not None
        return False
    todo = [(top, [])]
    n = 0
    while todo:
        t, st = todo.pop()
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            glob = s.is_global() or (t is top and not s.is_assigned() and not s.is_imported())
            if not glob:
                continue
            n += 1
            if not known(s.get_name()):
                ctx.bad("%s|undefined name %s" % (fkey(st, mod), s.get_name()), "%s:%d" % (mod.rel, t.get_lineno()),
                        "the name %s is used in %s but bound nowhere" % (s.get_name(), fkey(st, mod)))
        for c in t.get_children():
            todo.append((c, st + [c.get_name()]))
    ctx.ok(n=n)
    ctx.count("global name references", n)


def assigned_attrs(P):
    """attribute names stored on anything anywhere (obj.x = ..., setattr with a constant)"""
    out = set()
    for mod in P.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def unmangle(attr, cls):
    if attr.startswith("__") and not attr.endswith("__"):
        return attr
    return attr


def c15(ctx):
    P = ctx.P
    ctx.rule("every name used in a function or module is bound; every name imported from, or attribute read of, a module of the package exists "
             "there; every enumeration or class member that is read exists; every call of a function or constructor of the package fits its "
             "signature; every module that a variant enumeration lists provides the functions the dispatcher calls, with fitting signatures; "
             "methods called on self exist; a module is never passed where data is expected")
    ctx.assume("names of third-party libraries and attributes of values whose class is not evident from the source are not resolved")
    for rel, err in P.errors:
        ctx.bad("%s|syntax" % rel, rel, err)
    R = Resolver(P)
    stored = assigned_attrs(P)
    for mod in P.modules.values():
        check_names(ctx, P, mod)
        Walk(ctx, P, R, mod, stored).go()
    # attributes of values whose class the interprocedural analysis knows
    from checks.flows import api
    ctx.rule("no attribute is read of an instance of a class of the package (as found by abstract interpretation of every public function) "
             "that neither the class hierarchy nor any store in the package provides")
    _, rs = api()
    for r in rs:
        for e in r.events:
            if e[0] == "noattr":
                _, cls, fid, line, attr = e
                f = P.funcs.get(fid)
                ctx.bad("%s|no attribute %s of %s" % (fid, attr, cls), "%s:%s" % (f.mod.rel, line) if f else fid,
                        "%s reads .%s of an instance of %s, which has no such attribute (reached from %s)" % (fid, attr, cls, r.name))
        ctx.ok()
    ctx.count("entry contexts interpreted for attribute reads", len(rs))


class Walk:
    def __init__(self, ctx, P, R, mod, stored):
        self.ctx, self.P, self.R, self.mod, self.stored = ctx, P, R, mod, stored

    def go(self):
        self.visit_body(self.mod.tree, None, [], None, None)

    def where(self, n):
        return "%s:%d" % (self.mod.rel, n.lineno)

    def visit_body(self, node, sc, stack, cls, fn):
        for c in ast.iter_child_nodes(node):
            self.visit(c, sc, stack, cls, fn)

    def visit(self, n, sc, stack, cls, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, sc, stack, cls, fn)
            s2 = scan_scope(self.P, self.mod, n, sc)
            Unbound(self, n, stack + [n.name]).go()
            for b in n.body:
                self.visit(b, s2, stack + [n.name], cls, n)
            return
        if isinstance(n, ast.Lambda):
            s2 = scan_scope(self.P, self.mod, n, sc)
            self.visit(n.body, s2, stack, cls, fn)
            return
        if isinstance(n, ast.ClassDef):
            c = getattr(n, "_sa_cls", None)
            for b in n.bases:
                self.visit(b, sc, stack, cls, fn)
            for b in n.body:
                self.visit(b, sc, stack + [n.name], c, fn)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s2 = Scope.__new__(Scope)
            s2.parent, s2.imports = sc, {}
            s2.other = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.visit_body(n, s2, stack, cls, fn)
            return
        if isinstance(n, ast.ImportFrom):
            self.import_from(n, stack)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "pm4py":
                    if a.name in self.P.modules:
                        self.ctx.ok()
                    else:
                        self.ctx.bad("%s|import %s" % (fkey(stack, self.mod), a.name), self.where(n), "there is no module %s" % a.name)
        elif isinstance(n, ast.Attribute):
            r = self.R.expr(self.mod, n, sc) if isinstance(n.ctx, ast.Load) else None
            if r is not None and r[0] == "missing":
                self.ctx.bad("%s|missing %s.%s" % (fkey(stack, self.mod), r[1], r[2]), self.where(n),
                             "%s reads %s of %s, which has no such member" % (fkey(stack, self.mod), r[2], r[1]))
            elif r is not None:
                self.ctx.ok()
                self.ctx.count("module, class and enumeration members resolved", 1)
            if cls is not None and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                self.self_attr(n, cls, stack)
        elif isinstance(n, ast.Call):
            self.call(n, sc, stack, cls, fn)
        self.visit_body(n, sc, stack, cls, fn)

    def import_from(self, n, stack):
        from sa.project import resolve_from
        base = resolve_from(self.mod, n)
        if base.split(".")[0] != "pm4py":
            return
        for a in n.names:
            if a.name == "*":
                okay = base in self.P.modules
            else:
                okay = (base in self.P.modules or any(m.startswith(base + ".") for m in self.P.modules)) and self.P.resolve(base, a.name) is not None
            if okay:
                self.ctx.ok()
                self.ctx.count("imported names resolved", 1)
            else:
                self.ctx.bad("%s|import %s.%s" % (fkey(stack, self.mod), base, a.name), self.where(n),
                             "%s imports %s from %s, which does not define it" % (fkey(stack, self.mod), a.name, base))

    def closed(self, c):
        return all(not (self.P.ext_bases(x) - {"object", "Generic", "ABC", "abc.ABC"}) for x in self.P.mro(c))

    def self_attr(self, n, c, stack):
        if not self.closed(c) or n.attr.startswith("__") and n.attr.endswith("__"):
            return
        if self.P.class_member(c, n.attr) is not None or n.attr in self.stored:
            self.ctx.ok()
            self.ctx.count("attributes of self resolved", 1)
            return
        if any(s.members.get(n.attr) for s in self.P.subclasses(c)):
            return
        if self.P.class_member(c, "__getattr__") or any("setattr" in ast.dump(x.node) for x in self.P.mro(c)):
            return
        self.ctx.bad("%s|self.%s" % (fkey(stack, self.mod), n.attr), self.where(n),
                     "%s reads self.%s, which no class in the hierarchy of %s defines" % (fkey(stack, self.mod), n.attr, c.id))

    def call(self, n, sc, stack, cls, fn):
        P = self.P
        r = self.R.expr(self.mod, n.func, sc) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        got = callee_sig(P, r)
        if r is not None and r[0] == "mod":
            self.ctx.bad("%s|call of module %s" % (fkey(stack, self.mod), r[1]), self.where(n), "the module %s is called" % r[1])
        if got is not None:
            sig, f = got
            if sig == "noinit":
                if n.args or n.keywords:
                    self.ctx.bad("%s|call %s" % (fkey(stack, self.mod), f.id), self.where(n), "%s takes no arguments" % f.id)
                else:
                    self.ctx.ok()
            else:
                m = sig.mismatch(n)
                if m:
                    self.ctx.bad("%s|call %s" % (fkey(stack, self.mod), f.id), self.where(n),
                                 "%s calls %s wrongly: %s" % (fkey(stack, self.mod), f.id, m))
                else:
                    self.ctx.ok()
                    self.ctx.count("calls checked against the signature", 1)
        # self.method(...)
        if cls is not None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and self.closed(cls):
            m = P.class_member(cls, n.func.attr)
            if m and m[0] == "func" and not decorators(m[1].node) and not any(s.members.get(n.func.attr) for s in P.subclasses(cls)):
                bad = Sig(m[1].node, True).mismatch(n)
                if bad:
                    self.ctx.bad("%s|call self.%s" % (fkey(stack, self.mod), n.func.attr), self.where(n), "self.%s is called wrongly: %s" % (n.func.attr, bad))
                else:
                    self.ctx.ok()
                    self.ctx.count("calls of own methods checked", 1)
        # dispatch through a variant enumeration
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call):
            g = n.func.value
            gn = g.func.attr if isinstance(g.func, ast.Attribute) else getattr(g.func, "id", "")
            if gn == "get_variant" and g.args:
                self.dispatch(n, g.args[0], sc, stack, fn)
        # a module where data is expected
        gr = self.R.expr(self.mod, n.func, sc) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if nm not in ("get_variant", "reload", "getattr", "hasattr", "dir", "Enum", "append", "unroll", "get_param_value"):
            for i, a in enumerate(n.args + [k.value for k in n.keywords]):
                if isinstance(a, (ast.Name, ast.Attribute)):
                    q = self.R.expr(self.mod, a, sc)
                    if q is not None and q[0] == "mod":
                        kw = n.keywords[i - len(n.args)].arg if i >= len(n.args) else None
                        pn = kw or (got[0].pos[i] if got and got[0] != "noinit" and i < len(got[0].pos) else None)
                        if pn is not None and "variant" in pn:
                            continue
                        self.ctx.bad("%s|module %s as argument" % (fkey(stack, self.mod), q[1]), self.where(n),
                                     "the module %s is passed as a data argument of %s" % (q[1], ast.unparse(n.func)))

    def dispatch(self, n, e, sc, stack, fn):
        P = self.P
        # the function that has the parameter (a nested function may dispatch for its parent)
        c = variants_of(P, self.mod, e, sc, fn)
        if c is None and isinstance(e, ast.Attribute):
            r = P.resolve_expr_static(self.mod, e.value)
            if r and r[0] == "class" and P.is_enum(r[1]):
                mods = [(m, q) for m, q in enum_modules(P, r[1]) if m == e.attr]
            else:
                mods = []
        elif c is None:
            self.ctx.count("dispatch sites whose enumeration is not evident", 1)
            return
        else:
            mods = enum_modules(P, c)
        for m, q in mods:
            if (n.func.attr, m) in NOT_OFFERED:
                self.ctx.count("optional operations that a variant does not offer", 1)
                continue
            r = P.resolve(q, n.func.attr)
            key = "%s|variant %s has no fitting %s" % (fkey(stack, self.mod), m, n.func.attr)
            if r is None:
                self.ctx.bad(key, self.where(n), "the variant %s (%s) does not define %s, which %s calls" % (m, q, n.func.attr, fkey(stack, self.mod)))
                continue
            got = callee_sig(P, r)
            if got and got[0] != "noinit":
                bad = got[0].mismatch(n)
                if bad:
                    self.ctx.bad(key, self.where(n), "the variant %s: %s.%s is called wrongly: %s" % (m, q, n.func.attr, bad))
                    continue
            self.ctx.ok("%s -> %s.%s" % (fkey(stack, self.mod), q, n.func.attr))
            self.ctx.count("variant dispatches checked", 1)


class Unbound:
    """locals that are read where no path has assigned them"""

    def __init__(self, w, fn, stack):
        self.w, self.fn, self.stack = w, fn, stack
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.locals = set()
        skip = set()
        for n in self.own(fn.body):
            self.locals |= self.bound(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
        self.locals -= skip

    def own(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets inside comprehensions bind outside; plain targets do not
                todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
                continue
            todo += list(ast.iter_child_nodes(n))

    @staticmethod
    def bound(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return {n.id}
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return {n.name}
        if isinstance(n, ast.Import):
            return {a.asname or a.name.split(".")[0] for a in n.names}
        if isinstance(n, ast.ImportFrom):
            return {a.asname or a.name for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            return {n.name}
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            return {n.name}
        if isinstance(n, ast.MatchMapping) and n.rest:
            return {n.rest}
        return set()

    def stores(self, nodes):
        out = set()
        for n in self.own(nodes):
            out |= self.bound(n)
        return out

    def reads(self, n, have):
        if n is None:
            return
        todo = [(n, have)]
        while todo:
            x, h = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                h = h | {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.NamedExpr):
                h = h | {x.target.id}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals and x.id not in h:
                self.w.ctx.bad("%s|unassigned %s" % (fkey(self.stack, self.w.mod), x.id), self.w.where(x),
                               "%s reads %s where no path has assigned it" % (fkey(self.stack, self.w.mod), x.id))
            for c in ast.iter_child_nodes(x):
                todo.append((c, h))

    def go(self):
        self.block(self.fn.body, set(self.params))
        self.w.ctx.ok()
        self.w.ctx.count("functions checked for reads of unassigned locals", 1)

    def block(self, body, have):
        """-> names possibly assigned at the end, or None when the end is not reached"""
        for s in body:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    @staticmethod
    def join(*hs):
        hs = [h for h in hs if h is not None]
        return set().union(*hs) if hs else None

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return have | {s.name}
        if isinstance(s, ast.If):
            have = have | self.stores([s.test])
            self.reads(s.test, have)
            return self.join(self.block(s.body, set(have)), self.block(s.orelse, set(have)))
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            if isinstance(s, ast.While):
                self.reads(s.test, have | self.stores([s]))
            else:
                self.reads(s.iter, have)
            have = have | self.stores([s])
            self.block(s.body, set(have))
            self.block(s.orelse, set(have))
            return have
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.reads(it.context_expr, have)
                have = have | self.stores([it])
            return self.block(s.body, have)
        if isinstance(s, ast.Try):
            b = self.block(s.body, set(have))
            mid = have | self.stores(s.body)
            outs = [self.block(s.orelse, b) if b is not None else None]
            for h in s.handlers:
                self.reads(h.type, mid)
                outs.append(self.block(h.body, mid | ({h.name} if h.name else set())))
            end = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, mid | self.stores([s]))
                if f is None or end is None:
                    return None
                return end | self.stores(s.finalbody)
            return end
        if isinstance(s, ast.Match):
            self.reads(s.subject, have)
            return have | self.stores([s])
        # simple statements: reads first, then stores
        pre = have | {x.target.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr)}
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            self.reads(ast.Name(id=s.target.id, ctx=ast.Load(), lineno=s.lineno, col_offset=0), pre)
        self.reads(s, pre)
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return None
        return have | self.stores([s])
