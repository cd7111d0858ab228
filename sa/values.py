"""Abstract values of the interprocedural analysis (interned, immutable)."""

E = frozenset()
IMMUT = frozenset(["str", "num", "bool", "none", "func", "module", "bytes", "enum"])
PANDAS = frozenset(["df", "pd"])
CONST_CAP = 14
FIELD_CAP = 70
DEPTH_CAP = 3

_tab = {}


class V:
    __slots__ = ("kinds", "consts", "refs", "selfr", "taint", "cont", "ctaint", "fields",
                 "closed", "allroots", "alltaint", "depth", "_c", "n", "__weakref__")

    def field(self, k):
        for a, b in self.fields:
            if a == k:
                return b
        return None

    @property
    def fdict(self):
        return dict(self.fields)

    def __repr__(self):
        o = []
        if self.kinds is not None:
            o.append("k=" + ",".join(sorted(self.kinds)))
        if self.consts is not None:
            o.append("c=" + repr(sorted(map(str, self.consts))))
        if self.refs:
            o.append("r=" + repr([r[:2] for r in self.refs]))
        if self.selfr:
            o.append("self=" + repr(sorted(self.selfr)))
        if self.taint:
            o.append("t=" + ",".join(sorted(self.taint)))
        if self.cont:
            o.append("cont=" + repr(sorted(self.cont)))
        if self.ctaint:
            o.append("ct=" + ",".join(sorted(self.ctaint)))
        if self.fields:
            o.append("f={" + ", ".join("%s:%r" % (k, v) for k, v in self.fields) + "}")
        return "V(" + " ".join(o) + ")"


def mk(kinds=None, consts=None, refs=E, selfr=E, taint=E, cont=E, ctaint=E, fields=(), closed=False):
    if isinstance(fields, dict):
        if len(fields) > FIELD_CAP:
            fields, cont, ctaint, closed = _fold_fields(fields, cont, ctaint)
        fields = tuple(sorted(fields.items(), key=lambda kv: repr(kv[0])))
    if consts is not None and len(consts) > CONST_CAP:
        consts = None
    if kinds is not None and selfr and kinds and kinds <= IMMUT:
        selfr = E
    key = (kinds, consts, refs, selfr, taint, cont, ctaint, tuple((k, v.n) for k, v in fields), closed)
    v = _tab.get(key)
    if v is not None:
        return v
    v = V()
    v.kinds, v.consts, v.refs, v.selfr, v.taint = kinds, consts, refs, selfr, taint
    v.cont, v.ctaint, v.fields, v.closed = cont, ctaint, fields, closed
    ar, at, d = set(cont), set(taint) | set(ctaint), 0
    for k, f in fields:
        ar |= f.selfr
        ar |= f.allroots
        at |= f.alltaint
        d = max(d, f.depth + 1)
    v.allroots, v.alltaint, v.depth = frozenset(ar), frozenset(at), d
    v.n = len(_tab)
    _tab[key] = v
    cap = DEPTH_CAP
    if kinds is not None and d > 2 and any(x.startswith("cls:") for x in kinds):
        cap = 2
    if d > cap:
        w = collapse_below(v, cap)
        _tab[key] = w
        return w
    return v


def _fold_fields(fields, cont, ctaint):
    cont, ctaint = set(cont), set(ctaint)
    for f in fields.values():
        cont |= f.selfr | f.allroots
        ctaint |= f.alltaint
    return {}, frozenset(cont), frozenset(ctaint), False


def collapse(v):
    """Drop field structure (keep identities and taints)."""
    if not v.fields:
        return v
    return mk(v.kinds, v.consts, v.refs, v.selfr, v.taint, v.cont | v.allroots, v.ctaint | (v.alltaint - v.taint), (), False)


def collapse_below(v, d):
    if v.depth <= d:
        return v
    if d <= 0:
        return collapse(v)
    return mk(v.kinds, v.consts, v.refs, v.selfr, v.taint, v.cont, v.ctaint,
              {k: collapse_below(f, d - 1) for k, f in v.fields}, v.closed)


BOT = mk(E, E, E)
TOP = mk()
NONE = mk(frozenset(["none"]), frozenset([("NoneType", None)]))
BOOL = mk(frozenset(["bool"]))
STR = mk(frozenset(["str"]))
NUM = mk(frozenset(["num"]))
_jc = {}


def join(a, b):
    if a is b or b is BOT or b is None:
        return a
    if a is BOT or a is None:
        return b
    k = (a.n, b.n) if a.n < b.n else (b.n, a.n)
    r = _jc.get(k)
    if r is not None:
        return r
    kinds = None if a.kinds is None or b.kinds is None else a.kinds | b.kinds
    consts = None if a.consts is None or b.consts is None else a.consts | b.consts
    if a.fields or b.fields:
        fa, fb = dict(a.fields), dict(b.fields)
        f = {}
        for x in set(fa) | set(fb):
            f[x] = join(fa[x], fb[x]) if x in fa and x in fb else (fa.get(x) or fb.get(x))
    else:
        f = ()
    # "closed" (every key is known): NONE / immutables do not open a dict
    ca = a.closed or (a.kinds is not None and a.kinds <= IMMUT)
    cb = b.closed or (b.kinds is not None and b.kinds <= IMMUT)
    r = mk(kinds, consts, a.refs | b.refs, a.selfr | b.selfr, a.taint | b.taint, a.cont | b.cont,
           a.ctaint | b.ctaint, f, ca and cb and (a.closed or b.closed))
    _jc[k] = r
    return r


def joinall(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


def with_(v, **kw):
    d = dict(kinds=v.kinds, consts=v.consts, refs=v.refs, selfr=v.selfr, taint=v.taint, cont=v.cont,
             ctaint=v.ctaint, fields=v.fields, closed=v.closed)
    d.update(kw)
    return mk(**d)


def tainted(v, t):
    if not t or t <= v.taint:
        return v
    return with_(v, taint=v.taint | t)


def steps(r, b, names):
    """r was read from b under names: the last step and the pairs of steps are kept as labels (C12)"""
    prev = [x for x in b.alltaint if x[:4] == "#cl:"]
    new = {"#cl:" + n for n in names}
    if len(prev) <= 8:
        new |= {"#cp:%s>%s" % (x[4:], n) for x in prev for n in names if x[4:] != n}
    return with_(r, taint=frozenset(x for x in r.taint if x[:4] != "#cl:") | new, ctaint=frozenset(x for x in r.ctaint if x[:4] != "#cl:"))


def set_field(v, k, f):
    if v.field(k) is f:
        return v
    d = dict(v.fields)
    d[k] = f
    return with_(v, fields=d)


def const(x):
    t = type(x).__name__
    kind = {"str": "str", "int": "num", "float": "num", "complex": "num", "bool": "bool", "NoneType": "none",
            "bytes": "bytes"}.get(t)
    if kind is None:
        return TOP
    return mk(frozenset([kind]), frozenset([(t, x)]))


def fresh(kind, alloc, **kw):
    return mk(frozenset([kind]) if isinstance(kind, str) else kind, None, E,
              frozenset([("A:%s" % alloc, "")]), **kw)


# attributes whose name survives the collapsing of long access paths: the derived caches that the
# algorithms hang on nodes of a net (needed to tell them from the content of the net)
KEPT = (".ass_trans", ".__waypoints")


def ext_path(path, comp):
    if path.endswith("*"):
        return path + comp if comp in KEPT else path
    if path.endswith(KEPT) and "*" in path:
        return path[:path.rindex(".")]
    n = path.count(".") + path.count("[]")
    if n >= 2:
        return path + "*" + (comp if comp in KEPT else "")
    return path + comp


def weaken(root):
    """an identity recovered from collapsed content: not precise enough to accuse"""
    return root if root[1].startswith("~") or root[0].startswith("A:") else (root[0], "~" + root[1])


def is_weak(root):
    return root[1].startswith("~")


def is_alloc(root):
    return root[0].startswith("A:")


def part(v, comp, key=None):
    """The value obtained by reading a component of v (comp '.attr' or '[]').
    key: field key if known ((kind, name)), None for unknown element."""
    sr = {weaken(r) for r in v.cont}
    for (p, path) in v.selfr:
        if not p.startswith("A:"):
            sr.add((p, ext_path(path, comp)))
    generic = mk(None, None, E, frozenset(sr), v.taint | v.ctaint, v.cont, v.ctaint)
    return generic


def has_structure(v):
    return bool(v.selfr or v.cont)
