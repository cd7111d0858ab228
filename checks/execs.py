"""C07: importing the package needs only its declared dependencies.  C13: data is never executed as code."""
import ast
import os
import re
import sys

# name of the distribution -> names of the packages it installs, where they differ
NAMES = {"scikit-learn": ["sklearn"], "python-dateutil": ["dateutil"], "pyyaml": ["yaml"], "pillow": ["PIL"], "pot": ["ot"]}
# packages that declared dependencies always bring along
ALONG = {"pandas": ["dateutil", "pytz", "six"], "matplotlib": ["dateutil", "PIL", "mpl_toolkits", "packaging"], "deprecation": ["packaging"], "intervaltree": ["sortedcontainers"]}


def declared(repo):
    out = set()
    with open(os.path.join(repo, "requirements.txt")) as fh:
        for line in fh:
            line = line.split("#")[0].strip()
            if not line or ";" in line:            # conditional on the version of Python or the platform
                continue
            n = re.split(r"[<>=!~\[ ]", line)[0].strip()
            out.update(NAMES.get(n.lower(), [n]))
            out.update(ALONG.get(n, ()))
    return out


class Imports:
    def __init__(self, P):
        self.P = P

    def found(self, mod, test, depth=0):
        """packages that are installed for sure when the test holds ('*': the branch never runs at import time of users)"""
        if depth > 4:
            return set()
        if isinstance(test, ast.BoolOp):
            parts = [self.found(mod, v, depth) for v in test.values]
            if isinstance(test.op, ast.And):
                return set().union(*parts)
            return set.intersection(*parts)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.IsNot, ast.NotEq)) and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value in (None, False):
            return self.found(mod, test.left, depth)
        if isinstance(test, ast.Call):
            name = test.func.attr if isinstance(test.func, ast.Attribute) else getattr(test.func, "id", "")
            consts = {a.value for a in test.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
            if name in ("find_spec", "find_loader"):
                return {c.split(".")[0] for c in consts}
            if name == "bool" and test.args:
                return self.found(mod, test.args[0], depth)
            r = self.P.resolve_expr_static(mod, test.func)
            if r and r[0] == "func":
                if any(isinstance(n, ast.Attribute) and n.attr == "find_spec" or isinstance(n, ast.Name) and n.id == "find_spec" for n in ast.walk(r[1].node)):
                    inner = set()
                    for n in ast.walk(r[1].node):
                        if isinstance(n, ast.Call):
                            inner |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
                    return {c.split(".")[0] for c in consts | inner}
            return set()
        if isinstance(test, (ast.Name, ast.Attribute)):
            if (test.attr if isinstance(test, ast.Attribute) else test.id) == "TYPE_CHECKING":
                return {"*"}
            r = self.P.resolve_expr_static(mod, test)
            if r and r[0] == "expr" and r[2] and all(x is not None for x in r[2]):
                got = [self.found(r[1], x, depth + 1) for x in r[2] if not (isinstance(x, ast.Constant) and not x.value)]
                return set.intersection(*got) if got else set()
        return set()

    def of(self, mod, body, guard):
        """(module, imported names, packages that the guards around vouch for, line)"""
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    yield a.name, (), guard, s.lineno
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ""
                if s.level:
                    base = mod.name if mod.is_pkg else mod.name.rpartition(".")[0]
                    for _ in range(s.level - 1):
                        base = base.rpartition(".")[0]
                    m = base + ("." + m if m else "")
                yield m, [a.name for a in s.names], guard, s.lineno
            elif isinstance(s, ast.If):
                yield from self.of(mod, s.body, guard | self.found(mod, s.test))
                neg = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else None
                if neg is None and isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], (ast.Is, ast.Eq)) and isinstance(s.test.comparators[0], ast.Constant) \
                        and s.test.comparators[0].value is None:
                    neg = s.test.left
                yield from self.of(mod, s.orelse, guard | (self.found(mod, neg) if neg is not None else set()))
            elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                caught = False
                for h in s.handlers:
                    n = {x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "") for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)} if h.type is not None else {"Exception"}
                    if n & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"} and not any(isinstance(x, ast.Raise) for x in h.body):
                        caught = True
                yield from self.of(mod, s.body, guard | ({"?"} if caught else set()))
                for h in s.handlers:
                    yield from self.of(mod, h.body, guard)
                yield from self.of(mod, s.orelse, guard | ({"?"} if caught else set()))
                yield from self.of(mod, s.finalbody, guard)
            elif isinstance(s, (ast.With, ast.For, ast.While, ast.ClassDef)):
                yield from self.of(mod, s.body, guard)


def c07(ctx):
    P = ctx.P
    ctx.rule("every import statement that runs while the package is imported (followed from pm4py/__init__.py through all modules it imports) names the standard library, an unconditional "
             "entry of requirements.txt, or a module of the package; other packages only behind a test that they are installed (find_spec, directly or through a constant or helper) or in try/except ImportError")
    ctx.assume("packages that the declared dependencies themselves depend on (e.g. dateutil through pandas) are present")
    decl = declared(P.repo)
    ctx.need(len(decl) > 8, "requirements.txt could not be read")
    std = set(sys.stdlib_module_names)
    I = Imports(P)
    seen, todo, n = {}, [("pm4py", frozenset(), ("pm4py",))], 0
    while todo:
        m, g, way = todo.pop(0)
        if m not in P.modules or any(h <= g for h in seen.get(m, ())):
            continue
        seen.setdefault(m, []).append(g)
        mod = P.modules[m]
        if "." in m:
            todo.append((m.rpartition(".")[0], g, way))
        for name, names, guard, line in I.of(mod, mod.tree.body, set(g)):
            top = name.split(".")[0]
            if "*" in guard:
                continue
            if top == "pm4py":
                todo.append((name, frozenset(guard), way + (name,)))
                for x in names:
                    todo.append((name + "." + x, frozenset(guard), way + (name + "." + x,)))
                continue
            n += 1
            if top in std or top in decl or top in guard or "?" in guard:
                ctx.ok("%s imports %s" % (m, name))
            else:
                ctx.bad("%s|%s" % (m, top), "%s:%d" % (mod.rel, line), "%s, which is imported with the package (%s), imports %s: neither declared nor known to be installed there" % (m, " > ".join(way[-4:]), top))
    ctx.need(len(seen) > 500, "only %d modules are imported with the package" % len(seen))
    ctx.cover.update({"modules imported with the package": len(seen), "imports of other packages": n, "declared": sorted(decl)})


# ---------------------------------------------------------------------------------------------------------------- C13
RUN = {"eval", "exec", "compile", "__import__"}
DOTTED = {"pickle.load", "pickle.loads", "pickle.Unpickler", "cPickle.load", "cPickle.loads", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "marshal.load", "marshal.loads", "shelve.open", "jsonpickle.decode",
          "joblib.load", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "pandas.read_pickle", "pandas.eval", "pandas.read_hdf", "os.system", "os.popen", "os.execl", "os.execv", "os.execvp", "os.spawnl", "os.spawnv", "subprocess.getoutput",
          "subprocess.getstatusoutput", "commands.getoutput", "runpy.run_path", "runpy.run_module", "code.interact", "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "numexpr.evaluate", "torch.load",
          "importlib.import_module", "importlib.__import__", "ctypes.CDLL", "sympy.sympify", "timeit.timeit"}
SUBPROCESS = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
# places whose interpreted text cannot come from data: module -> (operation, most occurrences, why)
PINNED = {
    "pm4py.util.lp.variants.pulp_solver": ("eval", 3, "the text is put together from the numbers of the matrices of a linear program"),
    "pm4py.streaming.algo.discovery.dfg.variants.frequency": ("eval", 1, "the keys are the representations of tuples of strings, written by the same object"),
    "pm4py.streaming.algo.conformance.tbr.variants.classic": ("eval", 1, "the representation of a dictionary of names of places, written by the same object"),
    "pm4py.algo.anonymization.pripel.util.AttributeAnonymizer": ("eval", 1, "one of the two names of the truth values, drawn by the mechanism"),
    "pm4py.visualization.dotted_chart.variants.classic": ("os.system", 1, "the names of temporary files and the image format that the caller chose"),
    "pm4py.visualization.performance_spectrum.variants.neato": ("os.system", 1, "the names of temporary files and the image format that the caller chose"),
}


def dotted(P, mod, f, local):
    parts = []
    x = f
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    if x.id in local:
        return ".".join([local[x.id]] + parts[::-1])
    r = P.resolve_expr_static(mod, f)
    if r and r[0] == "ext":
        return r[1]
    if r is None and not parts and x.id in RUN and x.id not in mod.binds:
        return x.id
    return None


class Guard:
    """is a text checked before it is evaluated?"""

    def __init__(self, P):
        self.P = P
        self.checkers = {}

    def checker(self, f, depth=0):
        """1: returns true only for texts without attribute access; -1: returns true whenever there is one; 0: neither"""
        if f.id in self.checkers:
            return self.checkers[f.id]
        self.checkers[f.id] = 0
        names = [a.arg for a in f.node.args.args]
        rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
        res = 0
        if len(rets) == 1 and rets[0].value is not None and names:
            v = rets[0].value
            if isinstance(v, ast.Name):
                d = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
                v = d[0].value if len(d) == 1 else v
            res = self.polarity(f.mod, v, names[-1], depth)
        elif len(rets) == 2 and names and all(isinstance(r.value, ast.Constant) for r in rets):
            i = [n for n in ast.walk(f.node) if isinstance(n, ast.If)]
            if len(i) == 1:
                p = self.polarity(f.mod, i[0].test, names[-1], depth)
                inner = [r for r in rets if r in i[0].body]
                other = [r for r in rets if r not in i[0].body]
                if len(inner) == 1 and len(other) == 1 and bool(inner[0].value.value) != bool(other[0].value.value):
                    res = p if inner[0].value.value else -p
        self.checkers[f.id] = res
        return res

    def polarity(self, mod, e, name, depth=0):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return -self.polarity(mod, e.operand, name, depth)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            p = self.polarity(mod, e.left, name, depth)
            return -p if isinstance(e.ops[0], (ast.Is, ast.Eq)) else p
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and e.args:
            return self.polarity(mod, e.args[0], name, depth)
        if isinstance(e, ast.BoolOp):
            ps = [self.polarity(mod, v, name, depth) for v in e.values]
            if isinstance(e.op, ast.And):
                return 1 if 1 in ps else (-1 if all(p == -1 for p in ps) else 0)
            return -1 if -1 in ps else (1 if all(p == 1 for p in ps) else 0)
        if isinstance(e, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in e.args):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("search", "findall"):
                pat = e.func.value
                if e.func.attr == "search" and len(e.args) == 2:
                    pat = e.args[0]
                return -1 if self.pattern(mod, pat) else 0
            r = self.P.resolve_expr_static(mod, e.func)
            if r and r[0] == "func" and depth < 3:
                return self.checker(r[1], depth + 1)
        return 0

    def pattern(self, mod, e, depth=0):
        """does the regular expression find every dot of a text?"""
        if depth > 3:
            return False
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                r = re.compile(e.value)
            except re.error:
                return False
            return all(r.search(t) for t in (".", "a.b", "().__class__", "x . y", "1.real", "\n.", "a\n.b")) and all(r.search("\\x%02x" % i) for i in (0x2e, 0x5f))
        if isinstance(e, ast.Call):
            return bool(e.args) and self.pattern(mod, e.args[0], depth + 1)
        r = self.P.resolve_expr_static(mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return bool(r and r[0] == "expr" and r[2] and all(x is not None and self.pattern(r[1], x, depth + 1) for x in r[2]))

    def holds(self, f, call, name):
        """is the local variable checked on every path to the call?"""
        self.ok_ = None
        self.target = call
        self.mod = f.mod
        self.block(f.node.body, {"safe": set(), "flag": {}}, name)
        return bool(self.ok_)

    def block(self, body, st, name):
        for s in body:
            st = self.stmt(s, st, name)
            if st is None:
                return None
        return st

    def cond(self, test, st, name):
        """is the text checked when the test is true / false?"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.cond(test.operand, st, name)
            return b, a
        if isinstance(test, ast.BoolOp):
            cs = [self.cond(v, st, name) for v in test.values]
            if isinstance(test.op, ast.And):
                return any(c[0] for c in cs), all(c[1] for c in cs)
            return all(c[0] for c in cs), any(c[1] for c in cs)
        if isinstance(test, ast.Name):
            p = st["flag"].get(test.id, 0)
            return p == 1, p == -1
        p = self.polarity(self.mod, test, name)
        return p == 1, p == -1

    def stmt(self, s, st, name):
        st = {"safe": set(st["safe"]), "flag": dict(st["flag"])}
        if isinstance(s, ast.If):
            if any(n is self.target for n in ast.walk(s.test)):
                self.ok_ = name in st["safe"] or isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and self.cond(s.test.values[0], st, name)[0]
            t, f = self.cond(s.test, st, name)
            a = {"safe": st["safe"] | ({name} if t else set()), "flag": dict(st["flag"])}
            b = {"safe": st["safe"] | ({name} if f else set()), "flag": dict(st["flag"])}
            return self.meet(self.block(s.body, a, name), self.block(s.orelse, b, name))
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            self.look(s, st, name)
            return None
        if isinstance(s, (ast.For, ast.While, ast.With)):
            for x in ([s.iter] if isinstance(s, ast.For) else [s.test] if isinstance(s, ast.While) else [i.context_expr for i in s.items]):
                self.look(x, st, name)
            if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                st["safe"].discard(name)
            out = self.block(s.body, st, name)
            return self.meet(st, out) if not isinstance(s, ast.With) else out
        if isinstance(s, ast.Try):
            out = self.block(s.body, st, name)
            start = {"safe": set() if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(s)) else st["safe"], "flag": {}}
            res = self.block(s.orelse, out, name) if out is not None else None
            for h in s.handlers:
                res = self.meet(res, self.block(h.body, start, name))
            if s.finalbody:
                self.block(s.finalbody, start, name)
            return res
        self.look(s, st, name)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st["flag"].pop(t.id, None)
                    if t.id == name:
                        st["safe"].discard(name)
                        st["flag"] = {}
                    else:
                        p = self.cond(s.value, st, name)
                        if p[0] or p[1]:
                            st["flag"][t.id] = 1 if p[0] else -1
        elif any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
            st["safe"].discard(name)
        return st

    def meet(self, a, b):
        if a is None or b is None:
            return a or b
        return {"safe": a["safe"] & b["safe"], "flag": {k: v for k, v in a["flag"].items() if b["flag"].get(k) == v}}

    def look(self, s, st, name):
        for n in ast.walk(s):
            if isinstance(n, ast.IfExp) and any(x is self.target for x in ast.walk(n.body)) and self.cond(n.test, st, name)[0]:
                self.ok_ = True
                return
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) and any(x is self.target for v in n.values[1:] for x in ast.walk(v)) and self.cond(n.values[0], st, name)[0]:
                self.ok_ = True
                return
        if any(n is self.target for n in ast.walk(s)):
            self.ok_ = name in st["safe"]


def no_builtins(P, f, g):
    """does the namespace given to eval replace the builtins by a fixed selection?"""
    def selection(e, depth=0):
        if e is None or depth > 3:
            return False
        if isinstance(e, (ast.Dict, ast.DictComp)):
            text = ast.unparse(e)
            return not re.search(r"\b(open|eval|exec|compile|__import__|getattr|setattr|globals|locals|vars|input|breakpoint|builtins|type|object|__builtins__)\b", text)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = P.resolve_expr_static(f.mod, e)
            if r and r[0] == "expr":
                return all(selection(x, depth + 1) for x in r[2])
            if isinstance(e, ast.Name):
                d = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                return bool(d) and all(selection(x, depth + 1) for x in d)
        return False
    if isinstance(g, ast.Dict):
        return any(isinstance(k, ast.Constant) and k.value == "__builtins__" and selection(v) for k, v in zip(g.keys, g.values))
    if isinstance(g, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == g.id and isinstance(t.slice, ast.Constant) and t.slice.value == "__builtins__" and selection(n.value):
                        return True
                    if isinstance(t, ast.Name) and t.id == g.id and isinstance(n.value, ast.Dict) and no_builtins(P, f, n.value):
                        return True
    return False


def callers(P, f):
    for g in P.funcs.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                if name == f.node.name and g is not f:
                    r = P.resolve_expr_static(g.mod, n.func)
                    if r and r[0] == "func" and r[1] is f or r is None and f.cls is not None:
                        yield g, n


def checked(P, G, f, call, arg, ns, depth=0):
    """the text and the namespace are made safe in the function, or in all of its callers"""
    why = []
    names = [a.arg for a in f.node.args.args]
    safe_text = isinstance(arg, ast.Name) and G.holds(f, call, arg.id)
    safe_ns = ns is not None and no_builtins(P, f, ns)
    if safe_text and safe_ns:
        return True
    if depth > 2 or not isinstance(arg, ast.Name) or arg.id not in names or ns is not None and not isinstance(ns, (ast.Name, ast.Dict)):
        return False
    cs = list(callers(P, f))
    if not cs:
        return False
    for g, c in cs:
        m = dict(zip(names, c.args))
        m.update({k.arg: k.value for k in c.keywords if k.arg})
        a = m.get(arg.id)
        n2 = m.get(ns.id) if isinstance(ns, ast.Name) else None
        if a is None:
            return False
        t = safe_text or isinstance(a, ast.Name) and G.holds(g, c, a.id)
        s = safe_ns or n2 is not None and no_builtins(P, g, n2)
        if not (t and s) and not (t or s or depth < 2) or not (t and s) and not checked(P, G, g, c, a, n2, depth + 1):
            return False
    return True


def numeric_or_fixed(e):
    return isinstance(e, ast.Constant)


def c13(ctx):
    P = ctx.P
    ctx.rule("nothing of the package hands text or bytes to an interpreter (eval, exec, compile, import by name, pandas eval/query), an unpickler or a shell, "
             "except: fixed text; the named places whose text is made by the library itself; guards of data nets, which are evaluated only after the check that forbids attribute access, in a namespace with a fixed selection of builtins")
    ctx.assume("third-party parsers (lxml, pandas, json) do not run code of the files they read")
    G = Guard(P)
    count, sites = {}, 0
    evals = 0
    for mname, mod in sorted(P.modules.items()):
        funcs = {}
        for f in P.funcs.values():
            if f.mod is mod:
                for n in ast.walk(f.node):
                    funcs[id(n)] = f
        local = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    local[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level and not n.module.startswith("pm4py"):
                for a in n.names:
                    local[a.asname or a.name] = n.module + "." + a.name
        calls = 0
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.Call):
                # the interpreter handed on as a value
                if isinstance(n, ast.Name) and n.id in ("eval", "exec") and isinstance(n.ctx, ast.Load) and n.id not in mod.binds and n.id not in local:
                    count.setdefault((mname, n.id), []).append((n, None))
                continue
            calls += 1
            d = dotted(P, mod, n.func, local)
            if d and d.startswith("cPickle"):
                d = d[1:].lower()
            attr = n.func.attr if isinstance(n.func, ast.Attribute) else None
            what = None
            if d in RUN or d in DOTTED:
                what = d
                if d == "yaml.load" and any(k.arg == "Loader" and "Safe" in ast.unparse(k.value) for k in n.keywords):
                    what = None
            elif d in SUBPROCESS:
                sh = [k for k in n.keywords if k.arg == "shell"]
                if sh and not (isinstance(sh[0].value, ast.Constant) and not sh[0].value.value):
                    what = d + " with a shell"
            elif attr in ("query", "eval") and d is None and n.args and not isinstance(n.func.value, ast.Constant) and attr == "eval":
                what = "." + attr
            elif attr == "query" and d is None and len(n.args) >= 1 and not isinstance(n.args[0], ast.Constant) and _textual(n.args[0]):
                what = ".query"
            elif d in ("numpy.load",) and any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords):
                what = "numpy.load with pickles"
            if what is None:
                continue
            sites += 1
            if d in RUN:
                evals += 1
            count.setdefault((mname, what), []).append((n, funcs.get(id(n))))
        ctx.ok("%s: %d calls" % (mname, calls))
        ctx.count("calls looked at", calls)
    for (mname, what), ns in sorted(count.items(), key=lambda x: x[0]):
        mod = P.modules[mname]
        left = []
        for n, f in ns:
            if not isinstance(n, ast.Call):
                # counted with the call when it is the function of a call
                if any(isinstance(c, ast.Call) and c.func is n for c, _ in ns):
                    continue
                left.append((n, "it is passed on as a value"))
                continue
            arg = n.args[0] if n.args else None
            if arg is not None and isinstance(arg, ast.Constant):
                ctx.ok("%s: %s of a fixed text" % (mname, what))
                continue
            if what in ("eval", "builtins.eval") and f is not None and arg is not None:
                ns_ = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "globals"), None)
                if checked(P, G, f, n, arg, ns_):
                    ctx.ok("%s: the text is checked and the builtins are limited" % f.id)
                    continue
            left.append((n, "of %s" % (ast.unparse(arg)[:60] if arg is not None else "?")))
        pin = PINNED.get(mname)
        if pin and pin[0] == what and len(left) <= pin[1]:
            for _ in left:
                ctx.ok("%s: %s (%s)" % (mname, what, pin[2]))
            continue
        for n, why in left:
            f = next((g for m, g in ns if m is n), None)
            ctx.bad("%s|%s" % (f.id if f else mname, what), "%s:%d" % (mod.rel, n.lineno), "%s runs %s %s: data may be executed as code" % (f.qual if f else mname, what, why))
    ctx.need(evals >= 3, "the calls of eval of the linear programming interface were not found")
    ctx.cover.update({"calls of interpreters, unpicklers and shells": sites})


def _textual(e):
    return isinstance(e, (ast.JoinedStr, ast.BinOp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format"
