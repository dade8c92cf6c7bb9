from itertools import combinations, permutations

from ..spacemodel import *  # noqa

TECHNIQUE = "value-flow summaries of every space operation, evaluated in a variable-token domain; derived views compared with the ones the final variables determine"
RULE = ("Coherence analysis of derived state: every operation that builds, changes or combines a space is summarised by value flow and evaluated over variable tokens of every kind "
        "(mixed, single-kind, empty, clashing names); afterwards each derived view - dimension, names, types, bounds, per-type index sets and masks, categorical set, levels, space "
        "class - must equal the one determined by the final list of variables.")

K = KINDS


def spaces():
    mix = [Var(k, n) for k, n in zip(K, "abcdef")]
    return {
        "mixed": mix, "reals": [Var("Real", "a"), Var("Real", "b"), Var("Real", "c")], "int+bool": [Var("Integer", "a"), Var("Bool", "b")],
        "real+cat": [Var("Real", "a"), Var("Discrete", "b", ("x", "y")), Var("Real", "c")], "one": [Var("Ordinal", "a", (1, 2, 3))],
        "subsets": [Var("Subset", "a", ((1,), (2,))), Var("Subset", "b", ((3,),))],
    }


def objval(d, s, t):
    """-> attribute reader of the object a term denotes in this valuation"""
    while t.op == "phi":
        c = d.tri(t.a[0])
        if c is None:
            raise Unknown("which object")
        t = t.a[1] if c else t.a[2]
    if t.op in ("new", "view", "ref"):
        return objval(d, s, s.I.deep(t))
    if t.op != "obj":
        v = d.ev(t)
        if isinstance(v, Space):
            return lambda n: v.klass if n == "__class__" else v.__dict__[n]
        raise Unknown("not an object: " + show(t, 3))

    def get(n):
        v = s.I.st.heap.get((t, n))
        if v is None:
            if t is s.obj:
                return d.ev(s.get(n))
            if n == "__class__":
                return s.I.objs[t][0].name
            raise Unknown("attribute " + n)
        return d.ev(s.I.deep(v))
    return get


def kname(v):
    return v._name if isinstance(v, Klass) else str(v)


def coherent(get, what, klass=True):
    data = get("data")
    if not isinstance(data, list) or not all(isinstance(v, Var) for v in data):
        raise Unknown("variables")
    names = [v.name for v in data]
    want = Space(data)
    for k, w in views(want).items():
        g = get(k)
        if k == "categorical_id":
            ok = sorted(map(int, g)) == sorted(map(int, w))
        elif k == "levels":
            ok = {int(a): b for a, b in g.items()} == w
        else:
            ok = list(g) == list(w) if hasattr(w, "__len__") and not isinstance(w, str) else g == w
        if not ok:
            return False, f"{what}: variables are {data} but {k} = {g}, expected {w}"
    if len(set(names)) != len(names):
        return False, f"{what}: duplicated variable names {names}"
    if klass and data:
        g = kname(get("__class__"))
        if g != want.klass:
            return False, f"{what}: variables are {data} but the space is a {g}, expected {want.klass}"
    return True, what


def sig(data):
    return [v.origin for v in data]


def check(ctx):
    c = ctx.cls("SearchSpace")
    S = spaces()
    opq = ("Node",)

    def summ(m, sp=None, **k):
        cc = ctx.prog.cls(sp.klass, False) or c if sp is not None else c
        if cc.method(m) is None and cc.find_setter(m) is None:
            raise Gone(m)
        key = ("sp", m, cc.name, str(k))
        if key not in ctx._sum:
            f = cc.find_setter(m) if k.pop("setter", False) else cc.method(m)
            ctx._sum[key] = ctx.run(f, cc, opaque=opq, **k)
        return ctx._sum[key]

    def built(sp):
        """whatever further state construction leaves on a space of these variables"""
        try:
            s = summ("__init__")
            d = dom(None, data=sp.data, random_seed=None, structure=None, **{"hasattr:" + n: False for n in extra(s)})
            out = {}
            for n in extra(s):
                out["hasattr:" + n] = True
                try:
                    out["self." + n] = d.ev(s.get(n))
                except (Unknown, Raised):
                    pass
            return out
        except Gone:
            return {}

    known = set(Space(S["mixed"]).__dict__) | {"random_seed", "_random_seed", "structure", "_levels", "__class__", "data"}

    def extra(s):
        return list(dict.fromkeys(k[1] for k in s.I.st.heap if isinstance(k, tuple) and k[0] is s.obj and k[1] not in known))

    def dom(sp, **val):
        v = {"hasattr:structure": True}
        if sp is not None:
            v.update(built(sp))
            v.update(state_val(sp))
            v.update({"hasattr:" + k: True for k in views(sp)})
            v["self.__class__"] = Klass(sp.klass)
        v.update(val)
        d = SpaceDom(ctx, v)
        d.self_space = sp
        return d

    def where(m):
        f = c.method(m)
        return ctx.where(f) if f else "SearchSpace." + m

    # ---- construction
    cons = dict(S)
    cons["clashing names"] = [Var("Real", "a"), Var("Integer", "b"), Var("Bool", "a")]
    cons["clashing pairs"] = [Var("Real", "a"), Var("Real", "b"), Var("Real", "a"), Var("Real", "b")]
    cons["unordered"] = [Var("Subset", "s", ((1,),)), Var("Bool", "b"), Var("Ordinal", "o", (1, 2)), Var("Discrete", "d", ("u", "v")), Var("Integer", "i"), Var("Real", "r")]
    cons["thirteen of one name"] = [Var("Real", "a") for _ in range(13)]
    cons["clash across twelve"] = [Var(K[i % len(K)], "ab"[i % 2]) for i in range(24)]
    cons["all distinct, twenty"] = [Var(K[(i * i) % len(K)], f"v{i}") for i in range(20)]
    cons["one of each twice, reversed"] = [Var(k, f"{k}{j}") for j in range(2) for k in reversed(K)]
    for k in K:
        cons["single " + k] = [Var(k, "a")]
        cons["pair of " + k] = [Var(k, "a"), Var(k, "b")]
        cons["pair of " + k + ", one name"] = [Var(k, "a"), Var(k, "a")]
    for k, l in combinations(K, 2):
        cons[f"{k}+{l}"] = [Var(k, "a"), Var(l, "b")]
        cons[f"{l}+{k}+{l}"] = [Var(l, "a"), Var(k, "b"), Var(l, "a")]
    for n, vs in cons.items():
        def go():
            s = summ("__init__")
            d = dom(None, data=vs, random_seed=None, structure=None)
            get = objval(d, s, s.obj)
            r = coherent(get, f"SearchSpace({vs})")
            if r[0] and sig(get("data")) != vs:
                return False, f"SearchSpace({vs}) holds {get('data')}"
            return r
        ctx.ob(f"init:{n}", where("__init__"), "after construction every derived view describes the given variables", go)

    # ---- getters
    for n in ("mixed", "reals"):
        for g, w in (("var_name", "_var_name"), ("var_type", "_var_type"), ("bounds", "_bounds"), ("__len__", "dim")):
            def go():
                sp = Space(S[n])
                s = summ(g)
                v = dom(sp).ev(s.ret)
                w_ = sp.__dict__[w]
                return (list(v) == list(w_) if isinstance(w_, list) else v == w_), f"{g} gives {v}, expected {w_}"
            ctx.ob(f"getter:{g}/{n}", where(g), "public views read the derived state", go)

    # ---- in-place changes
    def inplace(tag, m, sp, expect=None, setter=False, **val):
        def go():
            s = summ(m, sp, **({"setter": True} if setter else {}))
            d = dom(sp, **val)
            get = objval(d, s, s.obj)
            r = coherent(get, f"{m} with {val} on {sp.data}")
            if r[0] and expect is not None and sig(get("data")) != [v.origin for v in expect]:
                return False, f"{m} with {val} on {sp.data} leaves variables {get('data')}, expected {expect}"
            return r
        ctx.ob(f"inplace:{m}:{tag}", where(m), "after an in-place change every derived view describes the current variables", go)

    for n in ("mixed", "reals", "real+cat", "int+bool"):
        sp = Space(S[n])
        vs = sp.data
        first, last = vs[0], vs[-1]
        x = Var("Bool", "zz")
        r = Var("Real", "rr")
        other = Space([Var("Discrete", "b", ("p", "q")), r])
        idx = sp.var_name.index("b")
        inplace(n + "/replace+append", "update", sp, [other.data[0] if v.name == "b" else v for v in vs] + [r], space=other)
        repl = Space([Var("Ordinal", "b", (4, 5))])
        wide = Space([Var(next(v.kind for v in vs if v.name == "b"), "b", (7, 9))])
        inplace(n + "/replace", "update", sp, [repl.data[0] if v.name == "b" else v for v in vs], space=repl)
        inplace(n + "/new bounds", "update", sp, [wide.data[0] if v.name == "b" else v for v in vs], space=wide)
        inplace(n + "/new bounds", "__setitem__", sp, [wide.data[0] if v.name == "b" else v for v in vs], index="b", value=wide.data[0])
        inplace(n + "/append", "update", sp, vs + [x], space=Space([x]))
        inplace(n + "/int", "__setitem__", sp, [x] + vs[1:], index=0, value=x)
        inplace(n + "/neg", "__setitem__", sp, vs[:-1] + [r], index=-1, value=r)
        inplace(n + "/name", "__setitem__", sp, [x if v.name == "b" else v for v in vs], index="b", value=x)
        inplace(n + "/slice", "__setitem__", sp, [x, r] + vs[2:], index=slice(0, 2), value=[x, r])
        inplace(n + "/list", "__setitem__", sp, [r] + [x if v.name == "b" else v for v in vs[1:]], index=[0, "b"], value=[r, x])
        inplace(n, "__iadd__", sp, vs + [x], space=Space([x]))
        inplace(n + "/clash", "__iadd__", sp, vs + other.data, space=other)
        inplace(n, "__isub__", sp, [v for v in vs if v.name not in ("b", "rr")], space=other)
        inplace(n + "/2", "__imul__", sp, vs + vs, N=2)
        inplace(n + "/3", "__imul__", sp, vs + vs + vs, N=3)
        inplace(n + "/prefix", "var_name", sp, vs, setter=True, var_name="q")
        inplace(n + "/names", "var_name", sp, vs, setter=True, var_name=[f"n{i}" for i in range(len(vs))])
        inplace(n + "/default", "pop", sp, vs[:-1], index=-1)
        inplace(n + "/0", "pop", sp, vs[1:], index=0)
        inplace(n + "/int", "remove", sp, vs[1:], index=0)
        inplace(n + "/name", "remove", sp, [v for v in vs if v.name != "b"], index="b")
    # the space class and the index sets have to follow a change of kind, from and to every kind
    for k, l in permutations(K, 2):
        sp = Space([Var(k, "a"), Var(k, "b")])
        x = Var(l, "c")
        inplace(f"{k}+{l}", "__iadd__", sp, sp.data + [x], space=Space([x]))
        inplace(f"{k}+{l}", "update", sp, sp.data + [x], space=Space([x]))
        y = Var(l, "a")
        inplace(f"{k}->{l}", "update", sp, [y, sp.data[1]], space=Space([y]))
        inplace(f"{k}->{l}", "__setitem__", sp, [y, sp.data[1]], index=0, value=y)
        two = Space([Var(k, "a"), x])
        inplace(f"{k}+{l}/last", "pop", two, two.data[:1], index=-1)
        inplace(f"{k}+{l}/first", "pop", two, two.data[1:], index=0)
        inplace(f"{k}+{l}/name", "remove", two, two.data[1:], index="a")
        inplace(f"{k}+{l}", "__isub__", two, two.data[1:], space=Space([Var(k, "a")]))
    one = Space([Var("Integer", "a")])
    inplace("to empty", "pop", one, [], index=-1)
    inplace("to empty", "remove", one, [], index="a")
    inplace("to empty", "__isub__", one, [], space=Space([Var("Integer", "a")]))
    inplace("kind changes", "__setitem__", one, None, index=0, value=Var("Real", "a"))

    # ---- combinations
    def combine(tag, m, sp, expect, args=None, star=False, **val):
        def go():
            s = summ(m, sp)
            d = dom(sp, **val)
            get = objval(d, s, s.ret)
            r = coherent(get, f"{m} with {val} on {sp.data}")
            if r[0] and expect is not None and sig(get("data")) != [v.origin for v in expect]:
                return False, f"{m} with {val} on {sp.data} holds {get('data')}, expected {expect}"
            return r
        ctx.ob(f"combine:{m}:{tag}", where(m), "the result of combining or slicing has coherent derived views", go)

    for n in ("mixed", "reals", "real+cat", "int+bool"):
        sp = Space(S[n])
        vs = sp.data
        other = Space([Var("Discrete", "b", ("p", "q")), Var("Real", "rr")])
        disj = Space([Var("Bool", "yy"), Var("Bool", "zz")])
        combine(n, "__add__", sp, vs + disj.data, space=disj)
        combine(n + "/clash", "__add__", sp, vs + other.data, space=other)
        combine(n, "__sub__", sp, [v for v in vs if v.name != "b"], space=other)
        combine(n + "/1", "__mul__", sp, vs, N=1)
        combine(n + "/3", "__mul__", sp, vs * 3, N=3)
        combine(n + "/ints", "__getitem__", sp, [vs[-1], vs[0]], index=[len(vs) - 1, 0])
        combine(n + "/slice", "__getitem__", sp, vs[1:], index=slice(1, None))
        combine(n + "/names", "__getitem__", sp, [v for v in vs if v.name == "b"] + vs[:1], index=["b", "a"])
        combine(n + "/mask", "__getitem__", sp, vs[1:], index=np.array([False] + [True] * (len(vs) - 1)))
        combine(n + "/keep", "filter", sp, vs[:2], keys=["a", "b"], invert=False)
        combine(n + "/drop", "filter", sp, vs[2:], keys=["a", "b"], invert=True)
        combine(n + "/keep unknown", "filter", sp, vs[1:2], keys=["b", "nope"], invert=False)
        combine(n + "/drop unknown", "filter", sp, vs, keys=["nope"], invert=True)
        combine(n + "/drop nothing", "filter", sp, vs, keys=[], invert=True)
        combine(n + "/keep last", "filter", sp, vs[-1:], keys=[vs[-1].name], invert=False)
        combine(n + "/nothing left out", "__sub__", sp, vs, space=disj)
        combine(n + "/2", "__mul__", sp, vs * 2, N=2)
        combine(n + "/12", "__mul__", sp, vs * 12, N=12)
        combine(n + "/2", "__rmul__", sp, vs * 2, N=2)
        combine(n + "/empty slice", "__getitem__", sp, [], index=slice(0, 0))
        combine(n + "/reversed", "__getitem__", sp, vs[::-1], index=slice(None, None, -1))
        combine(n + "/one int", "__getitem__", sp, vs[-1:], index=[len(vs) - 1])
        combine(n + "/array", "__getitem__", sp, vs[:2], index=np.array([0, 1]))
        combine(n + "/full mask", "__getitem__", sp, vs, index=[True] * len(vs))
    for k, l in permutations(K, 2):
        sp = Space([Var(k, "a"), Var(l, "b"), Var(k, "c")])
        combine(f"{k}+{l}+{k}/slice", "__getitem__", sp, sp.data[:2], index=slice(0, 2))
        combine(f"{k}+{l}+{k}/ints", "__getitem__", sp, [sp.data[2], sp.data[0]], index=[2, 0])
        combine(f"{k}+{l}+{k}/mask", "__getitem__", sp, [sp.data[0], sp.data[2]], index=[True, False, True])
        combine(f"{k}+{l}+{k}", "__sub__", sp, [sp.data[0], sp.data[2]], space=Space([Var(l, "b")]))
        combine(f"{k}+{k} + {l}", "__add__", Space([sp.data[0], sp.data[2]]), [sp.data[0], sp.data[2], sp.data[1]], space=Space([sp.data[1]]))
