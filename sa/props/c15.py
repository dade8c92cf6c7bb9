from itertools import product

from ..spacemodel import *  # noqa

TECHNIQUE = "value-flow summaries of __eq__/__ne__/__hash__ of every variable and space class, evaluated over all pairs of trait combinations (relational obligations)"
RULE = ("Relational analysis of equality and hashing: the value-flow summaries of __eq__, __ne__ and __hash__ of every concrete variable class are evaluated over pairs of variables that "
        "agree or differ in each declared trait (type, name, bounds, default, precision, scale, step); equal pairs must hash equally, pairs differing in one declared trait must be unequal, "
        "and the language rule that a class redefining __eq__ without __hash__ loses its hash is applied to the class hierarchy. Space equality must hold exactly for spaces of equal variables.")

BASE = {"name": ("a", "b", ""), "default_value": (None, 0, 1)}
TRAITS = {
    "Real": {"bounds": ((0, 1), (0, 2), (-1, 1)), "precision": (None, 0, 3), "scale": ("linear", "log")},
    "Integer": {"bounds": ((0, 5), (0, 4), (1, 5)), "step": (1, 2)},
    "Discrete": {"bounds": (("x", "y"), ("y", "x"), ("x", "y", "z"), ("x", "w", "z"))},
    "Ordinal": {"bounds": ((1, 2, 3), (3, 2, 1), (1, 2), (1, 5, 3))},
    "Bool": {"bounds": ((False, True),), "default_value": (None, True, False)},
    "Subset": {"bounds": (((1,), (2,), (1, 2)), ((2,), (1,), (2, 1)))},
}


class EqVar(Var):
    def traits(self):
        return tuple(sorted((k, repr(self.__dict__.get(k))) for k in ("kind", "name", "bounds", "default_value", "precision", "scale", "step")))

    def __eq__(self, o):
        return isinstance(o, EqVar) and self.traits() == o.traits()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.traits())


def make(kind, tr):
    v = EqVar(kind, tr["name"], tr["bounds"], **{k: x for k, x in tr.items() if k not in ("name", "bounds")})
    if "scale" in tr:
        v.__dict__["_scale"] = tr["scale"]
    v.__dict__.update(conditions=None, action=None)
    return v


def hashed(x):
    if isinstance(x, tuple):
        return tuple(hashed(y) for y in x)
    if isinstance(x, (list, dict, set)):
        raise Unknown("unhashable")
    return x


def check(ctx):
    tok = {}

    def summ(c, m):
        k = ("c15", c.name, m)
        if k not in ctx._sum:
            f = c.method(m)
            if f is None:
                raise Gone(m)
            ctx._sum[k] = ctx.run(f, c, opaque=("Node",))
        return ctx._sum[k]

    def dom(v, o=None, oname=None):
        val = state_val(v)
        val["self"] = v
        val["self.__class__"] = Klass(v.kind)
        if o is not None:
            val[oname] = o
            val[oname + ".__class__"] = Klass(o.kind)
        d = SpaceDom(ctx, val)
        d.fns["hash"] = lambda x: ("hash", hashed(x))
        d.fns["id"] = lambda x: ("id", tok.setdefault(id(x), len(tok)))
        return d

    def eq(c, v, o, m="__eq__"):
        s = summ(c, m)
        return truth(dom(v, o, [x.arg for x in s.func.node.args.args][1]).ev(s.ret))

    def truth(x):
        return bool(x)

    for kind, extra in TRAITS.items():
        c = ctx.prog.cls(kind, False)
        if c is None:
            continue
        tr = {**BASE, **extra}
        names = list(tr)
        pts = [dict(zip(names, p)) for p in product(*(tr[n] for n in names))]
        w = ctx.where(c.method("__eq__")) if c.method("__eq__") else kind

        def keep():
            """hash survives in the class hierarchy"""
            for k in c.mro():
                own = k.methods
                if "__hash__" in own:
                    return True, f"{k.name}.__hash__"
                if "__eq__" in own:
                    return False, f"{k.name} defines __eq__ without __hash__: {kind} variables are unhashable"
            return True, "object"
        ctx.ob(f"{kind}:hashable", w, "a class that defines __eq__ also defines __hash__ at or below the same class", keep)

        for n in names:
            if len(tr[n]) < 2:
                continue

            def differ(n=n):
                for p in pts:
                    for alt in tr[n]:
                        if alt == p[n] and type(alt) is type(p[n]):
                            continue
                        if alt == p[n]:  # 1 == True and the like
                            continue
                        q = dict(p, **{n: alt})
                        a, b = make(kind, p), make(kind, q)
                        if eq(c, a, b):
                            return False, f"{kind} variables that differ in {n} ({p[n]!r} / {alt!r}; other traits {dict((k, x) for k, x in p.items() if k != n)}) compare equal"
                        if not eq(c, a, b, "__ne__"):
                            return False, f"{kind} variables that differ in {n} ({p[n]!r} / {alt!r}) are not `!=`"
                return True, n
            ctx.ob(f"{kind}:distinguishes:{n}", w, f"equality distinguishes {n}", differ)

        def refl():
            for p in pts:
                a, b = make(kind, p), make(kind, dict(p))
                if not eq(c, a, b):
                    return False, f"two {kind} variables with identical traits {p} compare unequal"
                if eq(c, a, b, "__ne__"):
                    return False, f"two {kind} variables with identical traits {p} are both equal and `!=`"
            return True, "all"
        ctx.ob(f"{kind}:same traits equal", w, "variables with identical declared traits are equal", refl)

        def hashes():
            s = summ(c, "__hash__")
            bylin = {}
            hs = []
            for p in pts:
                a, b = make(kind, p), make(kind, dict(p))
                a.__dict__["_trans"], b.__dict__["_trans"] = Obj("f"), Obj("f")
                ha, hb = dom(a).ev(s.ret), dom(b).ev(s.ret)
                if ha != hb:
                    return False, f"two equal {kind} variables with traits {p} hash differently: {ha} / {hb}"
                hs.append((p, a, ha))
            def number(x):
                return tuple(map(number, x)) if isinstance(x, tuple) else float(x) if type(x) is int else x
            for p, a, ha in hs:
                for what, b in (("equal numbers of another type", make(kind, {k: number(x) for k, x in p.items()})), ("other conditions", make(kind, dict(p)))):
                    if what == "other conditions":
                        b.__dict__.update(conditions="a > 0", action="a")
                    if eq(c, a, b):
                        hb = dom(b).ev(s.ret)
                        if ha != hb:
                            return False, f"{kind} variables with traits {p} that differ only by {what} compare equal but hash differently: {ha} / {hb}"
            for (p, a, ha), (q, b, hb) in product(hs, hs):
                if ha != hb and sum(p[n] != q[n] for n in names) <= 2 and p is not q and eq(c, a, b):
                    return False, f"{kind} variables {p} and {q} compare equal but hash differently"
            return True, "all"
        ctx.ob(f"{kind}:hash agrees", ctx.where(c.method("__hash__")) if c.method("__hash__") else kind, "equal variables have equal hashes", hashes)

        for other in TRAITS:
            if other == kind:
                continue

            def types():
                co = ctx.prog.cls(other)
                for nm in ("a", ""):
                    b = {"name": nm, "bounds": (0, 1), "default_value": None, "precision": None, "scale": "linear", "step": 1}
                    x, y = make(kind, b), make(other, b)
                    if eq(c, x, y) or (eq(co, y, x)):
                        return False, f"a {kind} and a {other} variable with the same name, bounds and default compare equal"
                return True, other
            ctx.ob(f"{kind}:distinguishes type {other}", w, "equality distinguishes the variable type", types)

    # ---- spaces
    c = ctx.cls("SearchSpace")
    P = {"name": "a", "bounds": (0, 1), "default_value": None, "precision": None, "scale": "linear"}
    R = lambda **k: make("Real", dict(P, **k))
    I = lambda **k: make("Integer", dict(P, step=1, **k))
    a, b, d = R(), R(name="b"), I(name="d")
    cases = [
        ("same", [a, b, d], [R(), R(name="b"), I(name="d")], True), ("permuted", [a, b], [R(name="b"), R()], True), ("empty", [], [], True), ("one", [d], [I(name="d")], True),
        ("subset", [a], [R(), R(name="b")], False), ("superset", [a, b, d], [a, b], False), ("other name", [a, b], [a, R(name="c")], False),
        ("other bounds", [a, b], [R(bounds=(0, 2)), b], False), ("other precision", [a, b], [a, R(name="b", precision=2)], False), ("other scale", [a, b], [a, R(name="b", scale="log")], False),
        ("other default", [a, b], [a, R(name="b", default_value=0)], False), ("other type", [a, b], [a, I(name="b")], False), ("other step", [a, d], [a, make("Integer", dict(P, name="d", step=2))], False),
        ("first differs", [a, b, d], [R(bounds=(-1, 1)), b, d], False), ("last differs", [a, b, d], [a, b, I(name="d", bounds=(0, 9))], False), ("disjoint", [a], [b], False),
    ]
    cases += [(n + " (swapped)", y, x, w) for n, x, y, w in cases]
    for n, x, y, want in cases:
        for m, wnt in (("__eq__", want), ("__ne__", not want)):
            def go():
                s = summ(c, m)
                sx, sy = Space(x), Space(y)
                val = state_val(sx)
                val["self"], val["self.__class__"], val[[x.arg for x in s.func.node.args.args][1]] = sx, Klass(sx.klass), sy
                r = truth(SpaceDom(ctx, val).ev(s.ret))
                return r == wnt, f"{m} of spaces {x} and {y} ({n}) gives {r}, expected {wnt}"
            ctx.ob(f"space:{m}:{n}", ctx.where(c.method(m)) if c.method(m) else "SearchSpace", "space equality holds exactly for spaces of equal variables", go)
