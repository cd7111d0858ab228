"""Loader for the analysed project: parses every module under /repo/pm4py and
resolves module-level names.  Pure stdlib; never imports the analysed code."""
import ast
import os
import sys
from functools import lru_cache

sys.setrecursionlimit(20000)

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "pm4py"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on has vanished: error exit, never a pass."""


class Module:
    __slots__ = ("name", "path", "rel", "is_pkg", "tree", "src", "_binds", "_doc")

    def __init__(self, name, path, rel, is_pkg, tree, src):
        self.name, self.path, self.rel, self.is_pkg, self.tree, self.src = name, path, rel, is_pkg, tree, src
        self._binds = None

    @property
    def binds(self):
        """name -> list of binding records, from every module-level statement
        (including those inside if/try/with/for at module level)."""
        if self._binds is None:
            self._binds = collect_bindings(self, self.tree.body)
        return self._binds

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]


def collect_bindings(mod, body, out=None):
    out = {} if out is None else out

    def add(name, rec):
        out.setdefault(name, []).append(rec)

    def tgt(t, rec):
        if isinstance(t, ast.Name):
            add(t.id, rec)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e, ("expr", None))
        elif isinstance(t, ast.Starred):
            tgt(t.value, ("expr", None))

    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            add(st.name, ("func", st))
        elif isinstance(st, ast.ClassDef):
            add(st.name, ("class", st))
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    add(a.asname, ("import", a.name))
                else:
                    add(a.name.split(".")[0], ("import", a.name.split(".")[0]))
        elif isinstance(st, ast.ImportFrom):
            base = resolve_from(mod, st)
            for a in st.names:
                if a.name == "*":
                    add("*", ("star", base))
                else:
                    add(a.asname or a.name, ("from", base, a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                tgt(t, ("expr", st.value))
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                tgt(st.target, ("expr", st.value))
        elif isinstance(st, ast.AugAssign):
            tgt(st.target, ("expr", None))
        elif isinstance(st, (ast.If, ast.While)):
            collect_bindings(mod, st.body, out)
            collect_bindings(mod, st.orelse, out)
        elif isinstance(st, (ast.For,)):
            tgt(st.target, ("expr", None))
            collect_bindings(mod, st.body, out)
            collect_bindings(mod, st.orelse, out)
        elif isinstance(st, ast.With):
            for it in st.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars, ("expr", it.context_expr))
            collect_bindings(mod, st.body, out)
        elif isinstance(st, ast.Try):
            collect_bindings(mod, st.body, out)
            for h in st.handlers:
                if h.name:
                    add(h.name, ("expr", None))
                collect_bindings(mod, h.body, out)
            collect_bindings(mod, st.orelse, out)
            collect_bindings(mod, st.finalbody, out)
    return out


def resolve_from(mod, node):
    if not node.level:
        return node.module or ""
    pkg = mod.package.split(".")
    if node.level > 1:
        pkg = pkg[:-(node.level - 1)]
    base = ".".join(pkg)
    return base + ("." + node.module if node.module else "")


class Func:
    """A function or method of the project."""
    __slots__ = ("mod", "node", "qual", "cls", "id", "_locals")
    _n = 0

    def __init__(self, mod, node, qual, cls=None):
        self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
        self.id = "%s:%s" % (mod.name, qual)

    def __repr__(self):
        return "<F %s>" % self.id

    @property
    def loc(self):
        return "%s:%d" % (self.mod.rel, self.node.lineno)


class Cls:
    __slots__ = ("mod", "node", "qual", "id", "_members")

    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.id = "%s:%s" % (mod.name, qual)
        self._members = None

    def __repr__(self):
        return "<C %s>" % self.id

    @property
    def members(self):
        if self._members is None:
            self._members = collect_bindings(self.mod, self.node.body)
        return self._members


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.errors = []
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s is gone" % root)
        for dp, dns, fns in os.walk(root):
            dns[:] = sorted(d for d in dns if d != "__pycache__")
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.modules[name] = Module(name, p, rel, is_pkg, tree, src)
        if len(self.modules) < 900:
            raise AnalysisBroken("only %d modules parsed" % len(self.modules))
        for m in self.modules.values():
            self._index(m, m.tree.body, "", None)

    def _index(self, mod, body, prefix, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + st.name
                f = Func(mod, st, q, cls)
                self.funcs.setdefault(f.id, f)
                st._sa_func = f
                self._index(mod, st.body, q + ".<locals>.", None)
            elif isinstance(st, ast.ClassDef):
                q = prefix + st.name
                c = Cls(mod, st, q)
                self.classes.setdefault(c.id, c)
                st._sa_cls = c
                self._index(mod, st.body, q + ".", c)
            elif isinstance(st, (ast.If, ast.While, ast.For, ast.With, ast.Try)):
                for fld in ("body", "orelse", "finalbody"):
                    self._index(mod, getattr(st, fld, []) or [], prefix, cls)
                for h in getattr(st, "handlers", []) or []:
                    self._index(mod, h.body, prefix, cls)

    # ---------------------------------------------------------------- resolve
    def resolve(self, modname, name, _seen=None):
        """Resolve a module attribute to one of
        ('mod', name) ('func', Func) ('class', Cls) ('expr', Module, [expr...])
        ('ext', dotted) or None when the module has no such attribute."""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        mod = self.modules.get(modname)
        if mod is None:
            if modname.split(".")[0] == PKG:
                return None
            return ("ext", modname + "." + name)
        recs = mod.binds.get(name)
        if recs:
            exprs = []
            res = None
            for r in recs:
                if r[0] == "func":
                    res = ("func", r[1]._sa_func)
                elif r[0] == "class":
                    res = ("class", r[1]._sa_cls)
                elif r[0] == "import":
                    if r[1].split(".")[0] == PKG:
                        res = ("mod", r[1]) if r[1] in self.modules else None
                    else:
                        res = ("ext", r[1])
                elif r[0] == "from":
                    sub = r[1] + "." + r[2]
                    if r[1] == modname:
                        # "from pm4py.pkg import name" inside pm4py.pkg
                        if sub in self.modules:
                            res = ("mod", sub)
                        continue
                    got = self.resolve(r[1], r[2], _seen)
                    res = got if got is not None else res
                elif r[0] == "expr":
                    exprs.append(r[1])
            if exprs:
                return ("expr", mod, exprs)
            if res is not None:
                return res
        sub = modname + "." + name
        if sub in self.modules:
            return ("mod", sub)
        for r in mod.binds.get("*", []):
            got = self.resolve(r[1], name, _seen)
            if got is not None:
                return got
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr_static(cls.mod, b, cls)
            out.append(r)
        return out

    def resolve_expr_static(self, mod, e, cls=None):
        """Resolve a Name/Attribute chain at module level."""
        if isinstance(e, ast.Name):
            if cls is not None:
                # enclosing classes
                q = cls.qual
                while "." in q:
                    q = q.rpartition(".")[0]
                    c = self.classes.get("%s:%s" % (mod.name, q))
                    if c and e.id in c.members:
                        rec = c.members[e.id][-1]
                        if rec[0] == "class":
                            return ("class", rec[1]._sa_cls)
            return self.resolve(mod.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_static(mod, e.value, cls)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                m = self.class_member(b[1], e.attr)
                if m and m[0] == "class":
                    return m
                return None
        return None

    def mro(self, cls):
        out, todo, seen = [], [cls], set()
        while todo:
            c = todo.pop(0)
            if c.id in seen:
                continue
            seen.add(c.id)
            out.append(c)
            for b in self.bases(c):
                if b and b[0] == "class":
                    todo.append(b[1])
        return out

    def ext_bases(self, cls):
        out = set()
        for c in self.mro(cls):
            for b, e in zip(self.bases(c), c.node.bases):
                if b is None:
                    out.add(ast.unparse(e))
                elif b[0] == "ext":
                    out.add(b[1])
        return out

    def is_enum(self, cls):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in self.ext_bases(cls))

    def class_member(self, cls, name):
        """-> ('func', Func, owner) | ('class', Cls) | ('expr', owner, [expr]) | None"""
        for c in self.mro(cls):
            recs = c.members.get(name)
            if not recs:
                continue
            r = recs[-1]
            if r[0] == "func":
                return ("func", r[1]._sa_func, c)
            if r[0] == "class":
                return ("class", r[1]._sa_cls)
            if r[0] == "expr":
                return ("expr", c, [x[1] for x in recs if x[0] == "expr"])
            if r[0] in ("from", "import"):
                return ("expr", c, [None])
        return None

    def subclasses(self, cls):
        out = []
        for c in self.classes.values():
            if c is not cls and any(x is cls for x in self.mro(c)):
                out.append(c)
        return out


_proj = None


def load(repo=None):
    global _proj
    if _proj is None:
        _proj = Project(repo)
    return _proj
