"""Hash-consed value-flow terms and their normalising constructors."""

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "_h", "refs", "hasview", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_n = [0]


def mk(op, *a):
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, T) else x for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        t._h = hash(t.id)
        hv = op == "view"
        refs = None
        for x in a:
            if isinstance(x, T):
                hv = hv or x.hasview
                r = x.refs
                if r:
                    refs = r if refs is None or refs is r or refs <= r else (refs if r <= refs else refs | r)
        if op in ("new", "sym", "ref"):
            refs = frozenset((t,))
        t.refs = refs
        t.hasview = hv
        _tab[key] = t
    return t


def const(v):
    return mk("const", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
UNDEF = mk("undef")


def isc(t, v=...):
    if not isinstance(t, T) or t.op != "const":
        return False
    return v is ... or (t.a[0] == v and type(t.a[0]) is type(v))


def subterms(t, seen=None):
    """all subterms (DAG walk)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


def contains(t, pred):
    if isinstance(pred, T):
        p = pred
        pred = lambda x: x is p
    return any(pred(x) for x in subterms(t))


def rewrite(t, f, memo=None):
    """bottom-up rewrite through `build` (normalising); f(t) -> T or None (pre-order override)"""
    memo = {} if memo is None else memo

    def go(x):
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            a = tuple(go(y) for y in x.a)
            r = x if all(p is q for p, q in zip(a, x.a)) else build(x.op, *a)
        memo[x] = r
        return r

    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    return go(t)


def subst(t, m):
    if not m:
        return t
    return rewrite(t, lambda x: m.get(x))


# ---------------------------------------------------------------- normalisation
CMPN = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}


def neg(t):
    if t.op == "const":
        return const(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "cmp" and t.a[0] in ("is", "is not", "==", "!=", "in", "not in"):
        return cmp_(CMPN[t.a[0]], t.a[1], t.a[2])
    if t.op == "and":
        return build("or", *[neg(x) for x in t.a])
    if t.op == "or":
        return build("and", *[neg(x) for x in t.a])
    return mk("not", t)


REFLIKE = ("obj", "func", "cls", "closure", "partial", "bound", "mod", "lam")


def truth(t):
    """three-valued truthiness"""
    if t.op == "const":
        return bool(t.a[0])
    if t.op in REFLIKE:
        return True
    if t.op in ("list", "tuple", "set"):
        return len(t.a) > 0
    if t.op == "dict":
        return len(t.a) > 0
    if t.op == "not":
        x = truth(t.a[0])
        return None if x is None else not x
    if t.op == "and":
        v = [truth(x) for x in t.a]
        if False in v:
            return False
        return True if all(x is True for x in v) else None
    if t.op == "or":
        v = [truth(x) for x in t.a]
        if True in v:
            return True
        return False if all(x is False for x in v) else None
    if t.op == "phi":
        x, y = truth(t.a[1]), truth(t.a[2])
        return x if x == y else None
    return None


def assume(t, c, val, memo=None):
    """simplify t under the assumption that condition c has truth value val"""
    m = {c: TRUE if val else FALSE}
    n = neg(c)
    m[n] = FALSE if val else TRUE
    # `x is None` style facts
    if c.op == "and" and val:
        for x in c.a:
            m[x] = TRUE
            m[neg(x)] = FALSE
    if c.op == "or" and not val:
        for x in c.a:
            m[x] = FALSE
            m[neg(x)] = TRUE

    def f(x):
        return m.get(x)
    return cond_rewrite(t, f)


def cond_rewrite(t, f):
    """rewrite only in condition positions (phi conditions, boolean connectives)"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "phi":
            c = gc(x.a[0])
            r = phi(c, go(x.a[1]), go(x.a[2]), light=True)
        elif x.op in ("tuple", "list", "dict", "kv"):
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else build(x.op, *a)
        else:
            r = x
        memo[x] = r
        return r

    def gc(c):
        r = f(c)
        if r is not None:
            return r
        if c.op in ("and", "or", "not"):
            a = tuple(gc(y) for y in c.a)
            return build(c.op, *a) if a != c.a else c
        return c

    return go(t)


def phi(c, a, b, light=False):
    if a is b:
        return a
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if c.op == "not":
        return phi(c.a[0], b, a, light)
    if c.op == "cmp" and c.a[0] in ("is not", "!=", "not in"):
        return phi(cmp_(CMPN[c.a[0]], c.a[1], c.a[2]), b, a, light)
    if not light:
        a = assume(a, c, True)
        b = assume(b, c, False)
        if a is b:
            return a
    if a is TRUE and b is FALSE and c.op in ("cmp", "not", "and", "or", "call"):
        return c
    if a is FALSE and b is TRUE and c.op in ("cmp", "not", "and", "or", "call"):
        return neg(c)
    # phi(c, phi(d, x, y), y) -> phi(c and d, x, y)
    if a.op == "phi" and a.a[2] is b:
        return phi(build("and", c, a.a[0]), a.a[1], b, True)
    if b.op == "phi" and b.a[1] is a:
        return phi(build("or", c, b.a[0]), a, b.a[2], True)
    return mk("phi", c, a, b)


def cmp_(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if a.op == "const" and b.op == "const":
        try:
            x, y = a.a[0], b.a[0]
            r = {"<": lambda: x < y, "<=": lambda: x <= y, "==": lambda: x == y, "!=": lambda: x != y,
                 "is": lambda: x is y if (x is None or isinstance(x, bool)) or y is None or isinstance(y, bool) else x == y,
                 "is not": lambda: x is not y, "in": lambda: x in y, "not in": lambda: x not in y}[op]()
            return const(bool(r))
        except Exception:
            pass
    if op in ("is", "is not", "==", "!="):
        for x, y in ((a, b), (b, a)):
            if isc(y, None) and (x.op in REFLIKE or x.op in ("list", "tuple", "dict", "map", "set", "flatmap", "cat", "fstr", "dictupd", "dictdel", "dictmap", "updp", "updall", "bin", "hasattr", "cmp")):
                return const(op in ("is not", "!="))
            if isc(y, None) and x.op == "phi":
                p, q = cmp_(op, x.a[1], y), cmp_(op, x.a[2], y)
                if p.op == "const" or q.op == "const":
                    return phi(x.a[0], p, q)
        if a is b and op in ("is", "=="):
            return TRUE
        if a is b and op in ("is not", "!="):
            return FALSE
        if op in ("==", "!=") and a.id > b.id:
            a, b = b, a
    if op in ("in", "not in") and b.op in ("list", "tuple", "set", "dict"):
        els = [x.a[0] for x in b.a] if b.op == "dict" else list(b.a)
        if any(e is a for e in els):
            return const(op == "in")
        if a.op == "const" and all(e.op == "const" for e in els):
            return const((a.a[0] in [e.a[0] for e in els]) == (op == "in"))
        if op == "in" and els and all(e.op == "const" for e in els) and a.op != "const":
            if len(els) == 1:
                return cmp_("==", a, els[0])
    return mk("cmp", op, a, b)


def _numeric(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)


def binop(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.a[0], b.a[0]
        try:
            if op == "+":
                return const(x + y)
            if op == "-":
                return const(x - y)
            if op == "*":
                return const(x * y)
            if op == "/":
                return const(x / y)
            if op == "//":
                return const(x // y)
            if op == "%" and not isinstance(x, str):
                return const(x % y)
            if op == "**" and abs(y) < 64:
                return const(x ** y)
        except Exception:
            pass
    if op == "+":
        if a.op in ("list", "tuple") and b.op == a.op:
            return mk(a.op, *(a.a + b.a))
        if a.op in ("list", "map", "cat", "flatmap") and b.op in ("list", "map", "cat", "flatmap"):
            return cat(a, b)
        if isc(b, 0) and not isc(a):
            return a
        if isc(a, 0) and not isc(b):
            return b
    if op == "-" and isc(b, 0):
        return a
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isc(x, 1) and y.op not in ("list", "tuple"):
                return y
            if (isc(x, -1) or isc(x, -1.0)) and y.op not in ("list", "tuple"):
                return un("-", y)
        if a.op == "list" and b.op == "const" and isinstance(b.a[0], int):
            return mk("list", *(a.a * b.a[0]))
        if a.op == "un" and a.a[0] == "-" and b.op == "const":
            return binop("*", a.a[1], const(-b.a[0])) if _numeric(b.a[0]) else mk("bin", op, a, b)
    if op == "**":
        # (-1) ** flag
        if isc(a, -1) and b.op in ("cmp", "not", "phi", "attr", "and", "or", "call", "sym"):
            if b.op == "not":
                return mk("phi", b.a[0], const(1), const(-1))
            tv = truth(b)
            if tv is not None:
                return const(-1 if tv else 1)
            return mk("bin", op, a, b)
        if isc(b, 1):
            return a
    if op in ("&", "|"):
        if a.op == "const" and isinstance(a.a[0], bool) and b.op == "const" and isinstance(b.a[0], bool):
            return const((a.a[0] and b.a[0]) if op == "&" else (a.a[0] or b.a[0]))
    return mk("bin", op, a, b)


def un(op, a):
    if op == "-" and a.op == "const" and isinstance(a.a[0], (int, float)):
        return const(-a.a[0])
    if op == "-" and a.op == "un" and a.a[0] == "-":
        return a.a[1]
    if op == "not":
        return neg(a)
    if op == "+":
        return a
    if op == "~" and a.op == "un" and a.a[0] == "~":
        return a.a[1]
    return mk("un", op, a)


def cat(a, b):
    xs = list(a.a) if a.op == "cat" else [a]
    ys = list(b.a) if b.op == "cat" else [b]
    out = []
    for x in xs + ys:
        if x.op == "list" and not x.a:
            continue
        if out and out[-1].op == "list" and x.op == "list":
            out[-1] = mk("list", *(out[-1].a + x.a))
            continue
        out.append(x)
    if not out:
        return mk("list")
    return out[0] if len(out) == 1 else mk("cat", *out)


def pitem(i):
    return mk("pitem", i)


def pattr(n):
    return mk("pattr", n)


def is_full(i):
    return i.op == "slice" and all(isc(x, None) for x in i.a)


def negmask(a, b):
    return (a.op == "un" and a.a[0] == "~" and a.a[1] is b) or (b.op == "un" and b.a[0] == "~" and b.a[1] is a)


def disjoint(p, q):
    """two path steps that certainly address different storage"""
    if p.op == "pattr" and q.op == "pattr":
        return p.a[0] != q.a[0]
    if p.op == "pitem" and q.op == "pitem":
        i, j = p.a[0], q.a[0]
        if i.op == "const" and j.op == "const":
            return i.a[0] != j.a[0] and not (isinstance(i.a[0], int) and isinstance(j.a[0], int) and (i.a[0] < 0) != (j.a[0] < 0))
        if negmask(i, j):
            return True
        if i.op == "tuple" and j.op == "tuple" and len(i.a) == len(j.a):
            return any(disjoint(pitem(x), pitem(y)) for x, y in zip(i.a, j.a))
    return False


def step(b, p):
    """read one path step"""
    return item(b, p.a[0]) if p.op == "pitem" else attr(b, p.a[0])


def read_path(b, path):
    for p in path:
        b = step(b, p)
    return b


def upd(b, path, v):
    """b with the storage at `path` replaced by v"""
    path = tuple(path)
    if not path:
        return v
    p = path[0]
    if b.op == "phi":
        return phi(b.a[0], upd(b.a[1], path, v), upd(b.a[2], path, v), True)
    if p.op == "pitem" and b.op == "list" and isc(p.a[0]) and type(p.a[0].a[0]) is int and -len(b.a) <= p.a[0].a[0] < len(b.a):
        k = p.a[0].a[0] % len(b.a)
        return mk("list", *(b.a[:k] + (upd(b.a[k], path[1:], v),) + b.a[k + 1:]))
    if p.op == "pitem" and b.op == "dict":
        for n, kv in enumerate(b.a):
            if kv.op == "kv" and kv.a[0] is p.a[0]:
                return mk("dict", *(b.a[:n] + (mk("kv", kv.a[0], upd(kv.a[1], path[1:], v)),) + b.a[n + 1:]))
        if len(path) == 1 and p.a[0].op == "const" and all(kv.op == "kv" and kv.a[0].op == "const" for kv in b.a):
            return mk("dict", *(b.a + (mk("kv", p.a[0], v),)))
    pt = mk("path", *path)
    if b.op == "updp" and b.a[1] is pt:
        return mk("updp", b.a[0], pt, v)
    return mk("updp", b, pt, v)


def _read_updp(b, s):
    base, path, v = b.a
    p0, rest = path.a[0], path.a[1:]
    if p0 is s:
        return v if not rest else upd(step(base, s), rest, v)
    if disjoint(p0, s):
        return step(base, s)
    # a row store X[i].f = v seen through X.f
    if s.op == "pattr" and p0.op == "pitem" and rest and rest[0].op == "pattr":
        if rest[0] is s:
            return upd(step(base, s), (p0,) + rest[1:], v)
        return step(base, s)
    return None


def _read_updall(b, s):
    base, dom, c, path, v, d = b.a
    p0, rest = path.a[0], path.a[1:]
    if s.op == "pattr":
        if p0.op == "pattr" and p0.a[0] != s.a[0]:
            return step(base, s)
        if p0 is s and rest:
            return mk("updall", step(base, s), dom, c, mk("path", *rest), v, d)
        if p0.op == "pitem" and rest and rest[0].op == "pattr":
            if rest[0].a[0] != s.a[0]:
                return step(base, s)
            return mk("updall", step(base, s), dom, c, mk("path", p0, *rest[1:]), v, d)
    if s.op == "pitem" and p0.op == "pitem" and p0.a[0] is mk("bv", d) and _scalar_index(s.a[0]):
        vv = subst_bv(v, d, s.a[0])
        cc = subst_bv(c, d, s.a[0])
        pp = [subst_bv(x, d, s.a[0]) for x in rest]
        old = step(base, s)
        return phi(cc, upd(old, pp, vv), old)
    return None


def item(b, i):
    if b.op in ("list", "tuple") and i.op == "const" and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
        if -len(b.a) <= i.a[0] < len(b.a):
            return b.a[i.a[0]]
    if b.op in ("list", "tuple") and i.op == "slice" and all(x.op == "const" for x in i.a):
        return mk(b.op, *b.a[slice(*[x.a[0] for x in i.a])])
    if b.op == "dict":
        for kv in b.a:
            if kv.op == "kv" and kv.a[0] is i:
                return kv.a[1]
    if b.op == "map" and b.a[2] is TRUE and _scalar_index(i):
        return subst_bv(b.a[1], b.a[3], i)
    if b.op == "phi":
        x, y = item(b.a[1], i), item(b.a[2], i)
        return phi(b.a[0], x, y, True)
    if b.op == "updp":
        r = _read_updp(b, pitem(i))
        if r is not None:
            return r
    if b.op == "updall":
        r = _read_updall(b, pitem(i))
        if r is not None:
            return r
    if b.op == "cat" and isc(i, 0) and b.a[0].op == "list":
        return b.a[0].a[0]
    if b.op == "zipT" and isc(i) and isinstance(i.a[0], int):  # tuple(zip(*rows)) -> column
        return mk("col", b.a[0], i)
    if b.op == "dictupd":
        o = b.a[1]
        if o.op == "dict":
            for kv in reversed(o.a):
                if kv.op == "kv" and kv.a[0] is i:
                    return kv.a[1]
            if all(kv.op == "kv" and kv.a[0].op == "const" for kv in o.a) and i.op == "const":
                return item(b.a[0], i)
    return mk("item", b, i)


def _scalar_index(i):
    if i.op == "bv":
        return True
    if i.op == "item" and i.a[1].op == "bv":
        return True
    return i.op == "const" and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) and i.a[0] >= 0


BINDERS = {"map": 3, "flatmap": 3, "dictmap": 4, "updall": 5, "mu": 3, "sumover": 3, "anyover": 2, "first": 3, "last": 4, "lam": 0}


def subst_bv(el, d, i):
    """capture-avoiding replacement of the loop index bv(d)"""
    bv = mk("bv", d)
    if i is bv or not isinstance(el, T):
        return el

    def f(x):
        if x is bv:
            return i
        k = BINDERS.get(x.op)
        if k is not None and k < len(x.a) and x.a[k] == d:
            # rebinding: only the domain (first or second field) is outside the binder
            j = 1 if x.op == "updall" else 0
            a = list(x.a)
            a[j] = subst_bv(a[j], d, i)
            if x.op == "updall":
                a[0] = subst_bv(a[0], d, i)
            return mk(x.op, *a)
        return None
    return rewrite(el, f)


def attr(b, name):
    if b.op == "phi":
        return phi(b.a[0], attr(b.a[1], name), attr(b.a[2], name), True)
    if b.op == "updp":
        r = _read_updp(b, pattr(name))
        if r is not None:
            return r
    if b.op == "updall":
        r = _read_updall(b, pattr(name))
        if r is not None:
            return r
    return mk("attr", b, name)


def build(op, *a):
    """normalising constructor used by rewrite()"""
    if op == "phi":
        return phi(*a)
    if op == "not":
        return neg(a[0])
    if op in ("and", "or"):
        out = []
        for x in a:
            if x.op == op:
                out.extend(x.a)
            else:
                out.append(x)
        res = []
        for x in out:
            tv = truth(x)
            if op == "and":
                if tv is False:
                    return x if x.op == "const" else FALSE
                if tv is True and x.op == "const":
                    continue
            else:
                if tv is True:
                    return x if x.op == "const" else TRUE
                if tv is False and x.op == "const":
                    continue
            if x not in res:
                res.append(x)
        for x in res:
            if neg(x) in res and x.op in ("cmp", "not", "call", "attr", "sym", "phi", "hasattr", "exc"):
                return FALSE if op == "and" else TRUE
        if not res:
            return TRUE if op == "and" else FALSE
        return res[0] if len(res) == 1 else mk(op, *res)
    if op == "cmp":
        return cmp_(*a)
    if op == "bin":
        return binop(*a)
    if op == "un":
        return un(*a)
    if op == "item":
        return item(*a)
    if op == "attr":
        return attr(*a)
    if op == "cat":
        r = a[0]
        for x in a[1:]:
            r = cat(r, x)
        return r
    return mk(op, *a)


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == "const":
        return repr(a[0])
    if o in ("sym", "ref"):
        return str(a[0])
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "slice":
        return ":".join("" if isc(x, None) else s(x) for x in a)
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"{a[0]}{s(a[1])}"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "phi":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "call":
        return f"{a[0].split('.')[-1]}({', '.join(s(x) for x in a[1:])})"
    if o == "mcall":
        return f"{s(a[1])}.{a[0]}({', '.join(s(x) for x in a[2:])})"
    if o == "kw":
        return f"{a[0]}={s(a[1])}"
    if o in ("list", "tuple", "dict", "set"):
        return {"list": "[%s]", "tuple": "(%s)", "dict": "{%s}", "set": "{%s}"}[o] % ", ".join(s(x) for x in a)
    if o == "kv":
        return f"{s(a[0])}: {s(a[1])}"
    if o == "map":
        return f"[{s(a[1])} for b{a[3]} in {s(a[0])}" + ("" if a[2] is TRUE else f" if {s(a[2])}") + "]"
    if o == "bv":
        return f"b{a[0]}"
    if o == "obj":
        return f"<{a[1]}>"
    return f"{o}({', '.join(s(x) for x in a)})"
