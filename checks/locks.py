"""C14: lock discipline of the streaming layer (which fields are shared, which lock guards them, where locks are held)."""
import ast

LOCKS = {"Lock": False, "RLock": True, "Condition": True, "Semaphore": False, "BoundedSemaphore": False}      # -> reentrant
MUTATORS = {"append", "appendleft", "add", "remove", "discard", "pop", "popleft", "popitem", "clear", "update", "setdefault", "extend", "insert", "sort"}
# operations on the library's own queues, sets, pools and conditions that do not fail
SAFE_METHODS = {"notify", "notify_all", "wait", "append", "popleft", "add", "submit", "shutdown", "start", "print_exc", "acquire", "release", "values", "keys", "items", "Thread"}
CONTAINER = "the container"
SAFE_CALLS = {"len", "iter", "isinstance", "list", "set", "Thread", "super", "type"}
# operations that users call while events arrive (beside the ones found by their use)
OPERATIONS = {"get", "receive", "get_status", "terminate", "terminate_all", "append", "start", "stop", "register", "deregister"}
DUNDER = {ast.Load: "__getitem__", ast.Store: "__setitem__", ast.Del: "__delitem__"}
SCOPE = "pm4py.streaming"


def self_attr(e, me="self"):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me else None


def root_field(e, me, alias):
    """field of self at the root of an access path"""
    while True:
        f = self_attr(e, me)
        if f is not None:
            return f
        if isinstance(e, ast.Name):
            return alias.get(e.id)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault", "values", "items", "keys"):
            e = e.func.value
        else:
            return None


def is_super(f):
    """super().m"""
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and f.attr != "__init__"


class Family:
    """a class with the methods of its hierarchy"""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.methods, self.everything = {}, []
        for c in reversed(P.mro(cls)):
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.methods[n.name] = (n, c)
                    self.everything.append((n, c))
        self.locks, self.guards = {}, {}
        for n, c in self.everything:
            for x in ast.walk(n):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                    k = x.value.func.attr if isinstance(x.value.func, ast.Attribute) else getattr(x.value.func, "id", None)
                    for t in x.targets:
                        f = self_attr(t)
                        if f and k in LOCKS:
                            self.locks[f] = LOCKS[k]
                            a = self_attr(x.value.args[0]) if x.value.args else None
                            if k == "Condition" and a:
                                self.guards[f] = a          # the condition holds that lock
        for f, a in self.guards.items():
            self.locks[f] = self.locks.get(a, True)
        self.fields()

    def lock_of(self, e):
        f = self_attr(e)
        return None if f not in self.locks else self.guards.get(f, f)

    def calls(self, n):
        """methods of the family that a node calls (with the operators of containers on self)"""
        out = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                f = self_attr(x.func)
                if f in self.methods:
                    out.append((f, x))
                elif isinstance(x.func, ast.Name) and x.func.id in ("len", "iter", "list", "set", "sorted", "tuple") and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == "self":
                    out.append(("__len__" if x.func.id == "len" else "__iter__", x))
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "self":
                out.append((DUNDER[type(x.ctx)], x))
            elif isinstance(x, ast.comprehension) and isinstance(x.iter, ast.Name) and x.iter.id == "self":
                out.append(("__iter__", x.iter))
            elif isinstance(x, (ast.For, ast.AsyncFor)) and isinstance(x.iter, ast.Name) and x.iter.id == "self":
                out.append(("__iter__", x.iter))
            elif isinstance(x, ast.Compare):
                for o, c in zip(x.ops, x.comparators):
                    if isinstance(o, (ast.In, ast.NotIn)) and isinstance(c, ast.Name) and c.id == "self":
                        out.append(("__contains__", x))
        return [(m, x) for m, x in out if m in self.methods]

    def fails(self, x, seen=()):
        """why the expression node x itself may fail"""
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
            f = self_attr(x.func)
            if f in self.methods:
                if f not in seen and not self.broken(f, seen + (f,)):
                    return None
            elif n in (SAFE_METHODS if isinstance(x.func, ast.Attribute) else SAFE_CALLS):
                return None
            return "calls %s" % (n or "?")
        if isinstance(x, ast.Subscript):
            return "looks up a key"
        return None

    def broken(self, m, seen):
        body = self.methods[m][0]
        swallowed = {id(y) for t in ast.walk(body) if isinstance(t, ast.Try) and any(h.type is None or getattr(h.type, "id", "") in ("Exception", "BaseException") for h in t.handlers)
                     for b in t.body for y in ast.walk(b)}
        return any(id(y) not in swallowed and (isinstance(y, ast.Raise) or self.fails(y, seen)) for st in body.body for y in ast.walk(st))

    def fields(self):
        """fields that methods running after the construction change"""
        self.init_only = {"__init__"}
        while True:
            callers = {}
            for m, (n, _) in self.methods.items():
                for k, _x in self.calls(n):
                    callers.setdefault(k, set()).add(m)
            new = {m for m in callers if m not in self.init_only and m not in OPERATIONS and callers[m] <= self.init_only}
            if not new:
                break
            self.init_only |= new
        self.shared, plain = {}, {}
        for n, c in self.everything:
            m = n.name
            alias = self.alias(n)
            for x in ast.walk(n):
                f = None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    f = root_field(x, "self", alias)
                    if f and self_attr(x) and isinstance(x.ctx, ast.Store):
                        plain.setdefault(f, []).append((n, x))
                    elif f:
                        plain.setdefault(f, []).append(None)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    f = root_field(x.func.value, "self", alias)
                    if f:
                        plain.setdefault(f, []).append(None)
                if f and m not in self.init_only and f not in self.locks:
                    self.shared.setdefault(f, "%s.%s" % (c.qual, m))
        # what a container class with a lock stores, and the views of it that it keeps
        if self.locks and self.P.ext_bases(self.cls) & {"dict", "list", "set", "collections.deque", "deque", "OrderedDict", "defaultdict"}:
            self.shared[CONTAINER] = "%s.__setitem__" % self.cls.qual
            for n, c in self.everything:
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and is_super(x.value.func):
                        for t in x.targets:
                            if self_attr(t):
                                self.shared[self_attr(t)] = "%s.__setitem__" % self.cls.qual
        # a field that only ever holds members of an enumeration or constants may be read without the lock
        self.atomic = set()
        for f, sites in plain.items():
            if all(s is not None for s in sites):
                vals = [x.value for n, _ in sites for x in ast.walk(n) if isinstance(x, ast.Assign) and any(self_attr(t) == f for t in x.targets)]
                if vals and all(isinstance(v, ast.Constant) or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id[:1].isupper() for v in vals):
                    self.atomic.add(f)

    def alias(self, n):
        out = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                f = root_field(x.value, "self", {})
                if f and not isinstance(x.value, ast.Call) and not isinstance(x.value, ast.Name):
                    out[x.targets[0].id] = f
        return out


class Method:
    """one method: which locks are held where; needs = what it accesses before holding anything itself"""

    def __init__(self, fam, name):
        self.fam, self.name = fam, name
        self.node, self.cls = fam.methods[name]
        self.access = []        # (field, write?, node, held)
        self.invoked = []       # (method, node, held)
        self.taken = []         # (lock, node, held before)
        self.waits = []         # (node, held, in a loop)
        self.leaks = []         # (lock, node, why)
        self.block(self.node.body, frozenset(), frozenset(), 0)

    # held: locks held; ours: the ones acquired by an explicit call not protected by a try
    def block(self, body, held, ours, loop):
        i = 0
        for i, s in enumerate(body):
            held, ours = self.stmt(s, held, ours, loop, body[i + 1:])
            if held is None:
                return None, None
        return held, ours

    def op(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            lk = self.fam.lock_of(s.value.func.value)
            if lk and s.value.func.attr in ("acquire", "release"):
                return s.value.func.attr, lk
        return None

    def releases(self, body):
        return {lk for s in body for x in ast.walk(s) if isinstance(x, ast.stmt) for o in [self.op(x)] if o and o[0] == "release" for lk in [o[1]]}

    def stmt(self, s, held, ours, loop, rest):
        o = self.op(s)
        if o:
            if o[0] == "acquire":
                self.taken.append((o[1], s, held))
                return held | {o[1]}, ours | {o[1]}
            return held - {o[1]}, ours - {o[1]}
        if isinstance(s, (ast.With, ast.AsyncWith)):
            mine = set()
            for it in s.items:
                lk = self.fam.lock_of(it.context_expr)
                if lk:
                    self.taken.append((lk, s, held | frozenset(mine)))
                    mine.add(lk)
                else:
                    self.expr(it.context_expr, held, ours, loop)
            h, u = self.block(s.body, held | mine, ours, loop)
            return (held if h is None else h - mine) if h is not None else None, u
        if isinstance(s, ast.Try):
            fin = self.releases(s.finalbody)
            broad = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException") for h in s.handlers)
            inner = ours - fin
            if broad:
                inner = frozenset()
            h, u = self.block(s.body, held, inner, loop)
            outs = [] if h is None else [h]
            for hd in s.handlers:
                hh, _ = self.block(hd.body, held, ours - fin, loop)
                if hh is not None:
                    outs.append(hh)
            if s.orelse and outs:
                h2, _ = self.block(s.orelse, outs[0], ours - fin, loop)
                outs[0:1] = [] if h2 is None else [h2]
            if s.finalbody:
                start = frozenset.intersection(*outs) if outs else held
                h, u = self.block(s.finalbody, start, ours, loop)
                if not outs or h is None:
                    return None, None
                return h, (u or frozenset()) & h
            if not outs:
                return None, None
            h = frozenset.intersection(*outs)
            return h, ours & h
        if isinstance(s, ast.If):
            self.expr(s.test, held, ours, loop)
            a = self.block(s.body, held, ours, loop)
            b = self.block(s.orelse, held, ours, loop)
            if a[0] is None or b[0] is None:
                return b if a[0] is None else a
            return a[0] & b[0], a[1] | b[1]
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, held, ours, loop, iterated=True)
            self.expr(s.target, held, ours, loop)
            h, u = self.block(s.body, held, ours, loop + 1)
            self.block(s.orelse, held, ours, loop)
            return (held if h is None else held & h), ours if u is None else ours & u
        if isinstance(s, ast.While):
            self.expr(s.test, held, ours, loop)
            h, u = self.block(s.body, held, ours, loop + 1)
            self.block(s.orelse, held, ours, loop)
            return (held if h is None else held & h), ours if u is None else ours & u
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, held, ours, loop)
            for lk in ours:
                self.leaks.append((lk, s, "returns while it holds the lock"))
            return None, None
        if isinstance(s, ast.Raise):
            for lk in ours:
                self.leaks.append((lk, s, "raises while it holds the lock"))
            return None, None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None, None
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return held, ours
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x, held, ours, loop)
        return held, ours

    def expr(self, e, held, ours, loop, iterated=False):
        if e is None:
            return
        fam = self.fam
        for x in ast.walk(e):
            f = self_attr(x) if isinstance(x, ast.Attribute) else None
            if f in fam.shared:
                self.access.append((f, isinstance(x.ctx, (ast.Store, ast.Del)), x, held))
            if isinstance(x, ast.Call) and is_super(x.func) and CONTAINER in fam.shared:
                self.access.append((CONTAINER, "set" in x.func.attr or "del" in x.func.attr, x, held))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("wait", "wait_for", "notify", "notify_all") and fam.lock_of(x.func.value):
                self.waits.append((x, fam.lock_of(x.func.value) in held, loop > 0 or x.func.attr != "wait"))
            if ours:
                why = fam.fails(x)
                if why:
                    for lk in ours:
                        self.leaks.append((lk, x, why + ", which may fail while the lock is held by acquire() without try/finally"))
        for m, x in fam.calls(e):
            self.invoked.append((m, x, held))
        if iterated and isinstance(e, ast.Name) and e.id == "self" and "__iter__" in fam.methods:
            self.invoked.append(("__iter__", e, held))


def c14(ctx):
    P = ctx.P
    ctx.rule("in every class of the streaming layer that has a lock: each field that is changed after the construction is accessed only while the lock is held "
             "(fields that only hold constants may be read without it); helpers inherit the locks that all of their callers hold")
    ctx.rule("a lock taken by acquire() is released on every path, also when something fails in between (with, try/finally, or nothing that can fail in between)")
    ctx.rule("a lock that is not reentrant is never taken again by the thread that holds it (through methods and container operators of the same object)")
    ctx.rule("conditions are waited for and notified only while they are held, and waited for in a loop; whoever changes what is waited for notifies; subclasses run the constructor that creates the lock and do not bypass get and receive")
    ctx.assume("a user calls the operations of a stream and of its algorithms from any thread; fields of one object are not reached through another object")
    classes = [c for c in P.classes.values() if c.mod.name.startswith(SCOPE)]
    base = P.classes.get("pm4py.streaming.algo.interface:StreamingAlgorithm")
    ctx.need(base is not None, "the class StreamingAlgorithm is gone")
    seen_locks = 0
    done = set()
    for c in sorted(classes, key=lambda c: c.id):
        mro = P.mro(c)
        sub = base in mro and c is not base
        fam = Family(P, c)
        where = "%s:%d" % (c.mod.rel, c.node.lineno)
        if sub or c is base:
            if not fam.locks:
                ctx.bad("%s|no lock" % c.id, where, "%s has no lock" % c.qual)
                continue
        if sub:
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == "__init__":
                    called = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" for x in ast.walk(n))
                    if called:
                        ctx.ok("%s.__init__ runs the constructor of its base" % c.qual)
                    else:
                        ctx.bad("%s|base constructor" % c.id, "%s:%d" % (c.mod.rel, n.lineno), "%s.__init__ does not run the constructor that creates the lock" % c.qual)
        if not fam.locks:
            continue
        seen_locks += 1
        meths = {m: Method(fam, m) for m in fam.methods}
        # locks that a method can rely on when it starts
        public = {m for m in fam.methods if m in OPERATIONS or m[:2] == "__" and m != "__init__"}
        targets = set()
        for n, _ in fam.methods.values():
            called = {id(x.func) for x in ast.walk(n) if isinstance(x, ast.Call)}
            targets |= {self_attr(x) for x in ast.walk(n) if isinstance(x, ast.Attribute) and self_attr(x) in fam.methods and id(x) not in called and isinstance(x.ctx, ast.Load)}
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "property":
                targets |= {a.id for a in n.value.args if isinstance(a, ast.Name)}
        every = frozenset(fam.guards.get(f, f) for f in fam.locks)
        entry = {}
        for m in fam.methods:
            callers = [1 for k in meths if k not in fam.init_only for j, _, _ in meths[k].invoked if j == m]
            entry[m] = frozenset() if m in public or m in targets or not callers else every
        changed = True
        while changed:
            changed = False
            for k in meths:
                if k in fam.init_only:
                    continue
                for m, _, held in meths[k].invoked:
                    if m in public or m in targets:
                        continue
                    h = entry[m] & (held | entry[k])
                    if h != entry[m]:
                        entry[m] = h
                        changed = True
        takes = {m: {lk for lk, _, _ in meths[m].taken} for m in meths}
        changed = True
        while changed:
            changed = False
            for m in meths:
                for k, _, _ in meths[m].invoked:
                    if not takes[k] <= takes[m]:
                        takes[m] = takes[m] | takes[k]
                        changed = True
        for m, me in sorted(meths.items()):
            if m in fam.init_only:
                continue
            cn = me.cls
            loc = "%s:%d" % (cn.mod.rel, me.node.lineno)
            name = "%s.%s" % (cn.qual, m)
            for f, write, x, held in me.access:
                if held | entry[m]:
                    ctx.ok("%s.%s: %s under %s" % (c.qual, m, f, ", ".join(sorted(held | entry[m]))))
                elif f in fam.atomic and not write:
                    ctx.ok("%s.%s reads %s, which only holds constants" % (c.qual, m, f))
                else:
                    ctx.bad("%s:%s|%s unguarded" % (cn.mod.name, name, f), "%s:%d" % (cn.mod.rel, x.lineno),
                            "%s %s self.%s without holding the lock, while %s changes it" % (name, "changes" if write else "uses", f, fam.shared[f]))
            for lk, x, held in me.taken:
                if lk in held | entry[m] and not fam.locks.get(lk, True):
                    ctx.bad("%s:%s|%s taken twice" % (cn.mod.name, name, lk), "%s:%d" % (cn.mod.rel, x.lineno), "%s takes %s, which it already holds: the thread blocks itself" % (name, lk))
                else:
                    ctx.ok()
            for k, x, held in me.invoked:
                for lk in takes[k] & (held | entry[m]):
                    if not fam.locks.get(lk, True):
                        ctx.bad("%s:%s|%s taken again by %s" % (cn.mod.name, name, lk, k), "%s:%d" % (cn.mod.rel, getattr(x, "lineno", me.node.lineno)),
                                "%s calls %s while it holds %s, which %s takes again: the thread blocks itself" % (name, k, lk, k))
            if (cn.id, m) not in done:
                done.add((cn.id, m))
                end = me.block(me.node.body, frozenset(), frozenset(), 0)
                for lk in (end[1] or ()):
                    ctx.bad("%s:%s|%s never released" % (cn.mod.name, name, lk), loc, "%s ends while it still holds %s" % (name, lk))
                for lk, x, why in me.leaks:
                    ctx.bad("%s:%s|%s kept" % (cn.mod.name, name, lk), "%s:%d" % (cn.mod.rel, x.lineno), "%s %s (%s)" % (name, why, lk))
                for x, ok, looped in me.waits:
                    if not ok and not entry[m]:
                        ctx.bad("%s:%s|condition" % (cn.mod.name, name), "%s:%d" % (cn.mod.rel, x.lineno), "%s waits for or notifies a condition that it does not hold" % name)
                    elif not looped:
                        ctx.bad("%s:%s|wait" % (cn.mod.name, name), "%s:%d" % (cn.mod.rel, x.lineno), "%s waits for a condition outside a loop that checks it again" % name)
                    else:
                        ctx.ok()
        # whoever changes what a loop waits for wakes the waiting thread up
        awaited = {}
        for m, me in meths.items():
            for w in ast.walk(me.node):
                if isinstance(w, ast.While) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "wait" and fam.lock_of(x.func.value) for x in ast.walk(w)):
                    for t in [w.test] + [x.test for x in ast.walk(w) if isinstance(x, ast.If)]:
                        for x in ast.walk(t):
                            if self_attr(x) in fam.shared:
                                awaited.setdefault(self_attr(x), m)
        wakes = {m for m, me in meths.items() if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("notify", "notify_all") for x in ast.walk(me.node))}
        while True:
            new = {m for m, me in meths.items() if m not in wakes and any(k in wakes for k, _, _ in me.invoked)}
            # helpers whose callers all wake
            new |= {m for m in meths if m not in wakes and m not in public and m not in targets and any(k == m for q in meths.values() for k, _, _ in q.invoked)
                    and all(q in wakes for q in meths if any(k == m for k, _, _ in meths[q].invoked))}
            if not new:
                break
            wakes |= new
        for m, me in sorted(meths.items()):
            if m in fam.init_only:
                continue
            alias = fam.alias(me.node)
            for x in ast.walk(me.node):
                f = None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    f = root_field(x, "self", alias)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    f = root_field(x.func.value, "self", alias)
                if f in awaited and not (m == "start"):
                    if m in wakes:
                        ctx.ok("%s.%s changes %s, which %s waits for, and notifies it" % (c.qual, m, f, awaited[f]))
                    else:
                        ctx.bad("%s:%s.%s|%s silently" % (me.cls.mod.name, me.cls.qual, m, f), "%s:%d" % (me.cls.mod.rel, x.lineno),
                                "%s.%s changes self.%s, which %s waits for, and wakes nobody up" % (me.cls.qual, m, f, awaited[f]))
        ctx.count("classes with locks", 1)
        ctx.count("shared fields", len(fam.shared))
    ctx.need(seen_locks >= 8, "only %d classes with locks in the streaming layer" % seen_locks)
