import ast
from itertools import combinations

import numpy as np
import sympy as sp

from ..spacemodel import *  # noqa
from ..algebra import Tr, FUN
from ..loader import Func
from .c13 import objval

TECHNIQUE = "value-flow summaries of the space readers, variable constructors and lookup tables; evaluated for every documented type code, symbolic inverse test of the scale transforms, table-coverage queries"
RULE = ("Completeness analysis: the value-flow summary of SearchSpace.from_dict is evaluated for every documented type code and option combination and must yield exactly the declared variables, "
        "refuse unknown and malformed entries and leave the description untouched; the constructors must store every declared trait; each scale's forward and inverse transform are translated to "
        "symbolic expressions and must be mutually inverse; every selectable acquisition optimizer must have a budget entry and an implementation branch.")

CODES = {"Real": ["r", "real"], "Integer": ["i", "int", "integer"], "Ordinal": ["o", "ordinal"], "Discrete": ["c", "cat"], "Subset": ["s", "subset"], "Bool": ["b", "bool"]}


class DVar(Var):
    def sig(self):
        return {k: self.__dict__.get(k) for k in ("kind", "name", "bounds", "default_value", "precision", "scale", "step")}

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={v!r}' for k, v in self.sig().items() if k != 'kind' and v is not None)})"


def mkvar(kind):
    def f(*a, **k):
        if kind == "Bool":
            names = ["name", "default_value"]
        else:
            names = {"Real": ["bounds", "name", "default_value", "precision", "scale"], "Integer": ["bounds", "name", "default_value", "step"]}.get(kind, ["bounds", "name", "default_value"])
        d = dict(zip(names, a))
        d.update(k)
        if kind == "Bool":
            d["bounds"] = (False, True)
        b = d.get("bounds")
        if not b:
            raise Raised("no range")
        if kind in ("Real", "Integer") and (len(b) != 2 or any(isinstance(x, str) for x in b) or not b[0] < b[1]):
            raise Raised("range")
        if len(b) and isinstance(b[0], list):
            b = b[0]
        dv = DVar(kind, d.get("name"), tuple(b), default_value=d.get("default_value", True if kind == "Bool" else None))
        if kind == "Real":
            dv.precision, dv.scale = d.get("precision"), d.get("scale", "linear")
        if kind == "Integer":
            dv.step = d.get("step", 1)
        return dv
    return f


class DescDom(SpaceDom):
    def __init__(self, ctx, val, exc=False):
        super().__init__(ctx, val)
        self.exc = exc
        for k in KINDS:
            self.fns[k] = mkvar(k)
        for k in ("SearchSpace", "cls"):
            self.fns[k] = lambda data=(), *a, **kw: list(data)
        self.fns["json.load"] = lambda *a, **k: val.get("param")
        self.fns["open"] = lambda *a, **k: Obj("file")
        self.fns["hasattr"] = None
        self.fns.pop("hasattr")

    def o_exc(self, t, *a):
        return self.exc

    def o_hasattr(self, t, o, name):
        if name == "__iter__":
            v = self.ev(o)
            return isinstance(v, (list, tuple, dict, np.ndarray, str, set))
        return super().o_hasattr(t, o, name)


def vars_of(d, s):
    return objval(d, s, s.ret)("data")


def check(ctx):
    c = ctx.cls("SearchSpace")
    OPQ = ("Node",) + KINDS

    def summ(m):
        k = ("c14", m)
        if k not in ctx._sum:
            f = c.method(m)
            if f is None:
                raise Gone(m)
            ctx._sum[k] = ctx.run(f, c, opaque=OPQ, types={})
        return ctx._sum[k]

    def where(m):
        f = c.method(m)
        return ctx.where(f) if f else m

    # ---------------------------------------------------------------- descriptions
    def declared(desc):
        out = []
        for n, e in desc.items():
            kind = next(k for k, cs in CODES.items() if e["type"] in cs)
            b = (False, True) if kind == "Bool" else tuple(e["range"])
            if len(b) and isinstance(b[0], list):
                b = tuple(b[0])
            v = {"kind": kind, "name": n, "bounds": b, "default_value": e.get("default"), "precision": None, "scale": None, "step": None}
            if kind == "Real":
                v["precision"], v["scale"] = e.get("precision"), e.get("scale", "linear")
            if kind == "Integer":
                v["step"] = e.get("step", 1)
            m = int(e.get("N", 1))
            out += [dict(v, name=n + str(i) if m > 1 else n) for i in range(m)]
        return out

    R = {"Real": [0, 5], "Integer": [0, 5], "Ordinal": [0, 1, 2], "Discrete": ["x", "y", "z"], "Subset": ["p", "q"], "Bool": None}
    DEF = {"Real": [0, 2.5], "Integer": [0, 3], "Ordinal": [0, 2], "Discrete": ["x", "z"], "Subset": [], "Bool": [False, True]}
    descs = {}
    for kind, codes in CODES.items():
        for code in codes:
            e = {"type": code}
            if R[kind] is not None:
                e["range"] = R[kind]
            descs[f"{code}"] = {"a": e}
            for n in (1, 2, 3, 9, 10, 11, 26, 101):
                descs[f"{code} N={n}"] = {"a": dict(e, N=n)}
            for dv in DEF[kind]:
                descs[f"{code} default={dv!r}"] = {"a": dict(e, default=dv)}
                descs[f"{code} default={dv!r} N=2"] = {"a": dict(e, default=dv, N=2)}
            if kind == "Real":
                for p in (0, 1, 3):
                    for s in (None, "log", "log10", "logit", "bilog", "linear"):
                        descs[f"{code} precision={p} scale={s}"] = {"a": dict(e, range=[1, 5], precision=p, **({"scale": s} if s else {}))}
                descs[f"{code} scale"] = {"a": dict(e, range=[1, 5], scale="log")}
                descs[f"{code} all"] = {"a": dict(e, range=[1, 5], scale="log10", precision=2, default=3, N=2)}
                descs[f"{code} negative"] = {"a": dict(e, range=[-5, -1])}
            if kind == "Integer":
                for st in (1, 2, 3):
                    descs[f"{code} step={st}"] = {"a": dict(e, range=[0, 6], step=st)}
                descs[f"{code} step+default"] = {"a": dict(e, range=[0, 6], step=2, default=4, N=2)}
            if kind in ("Ordinal", "Discrete"):
                descs[f"{code} one level"] = {"a": dict(e, range=[R[kind][0]])}
                descs[f"{code} mixed levels"] = {"a": dict(e, range=["x", 2, 0.5, "2", -1], default=2)}
                descs[f"{code} many levels"] = {"a": dict(e, range=list(range(40, 0, -1)), default=1)}
                descs[f"{code} two numbers"] = {"a": dict(e, range=[0, 10], default=10)}
                descs[f"{code} empty name"] = {"a": dict(e, range=["", "x"], default="")}
            if kind == "Real":
                descs[f"{code} tiny range"] = {"a": dict(e, range=[1e-9, 2e-9], precision=12, scale="log10")}
                descs[f"{code} wide range"] = {"a": dict(e, range=[-1e12, 1e15], default=-1e12)}
                descs[f"{code} default at the ends"] = {"a": dict(e, range=[-3, 0], default=0, N=3), "b": dict(e, range=[-3, 0], default=-3)}
            if kind == "Integer":
                descs[f"{code} negative range"] = {"a": dict(e, range=[-7, -1], default=-1, step=3)}
                descs[f"{code} default at zero"] = {"a": dict(e, range=[-5, 5], default=0, N=4)}
                descs[f"{code} long step"] = {"a": dict(e, range=[0, 1000], step=250)}
    descs["several"] = {n: {"type": t, **({"range": r} if r else {}), **x} for n, t, r, x in [
        ("z", "c", ["u", "v"], {}), ("a", "r", [1, 2], {"precision": 2}), ("m", "b", None, {"default": False}), ("k", "i", [1, 9], {"step": 2, "N": 2}), ("o", "o", [3, 1, 2], {"default": 1}), ("b", "r", [0, 1], {})]}
    descs["option leak"] = {"a": {"type": "r", "range": [1, 2], "precision": 2, "scale": "log", "default": 1}, "b": {"type": "r", "range": [3, 4]}, "c": {"type": "i", "range": [0, 6], "step": 2, "default": 2, "N": 2}, "d": {"type": "i", "range": [0, 3]}}
    descs["wide"] = {f"v{j}": dict({"type": t}, **({"range": r} if r else {}), **({"N": m} if m else {})) for j, (t, r, m) in enumerate([
        ("int", [0, 9], 3), ("real", [-1, 1], None), ("cat", ["u", "v", "w"], 12), ("bool", None, 2), ("ordinal", [5, 1], None), ("subset", ["p", "q"], 2), ("r", [0, 1], 11), ("b", None, None), ("i", [3, 8], None)])}
    for n, desc in descs.items():
        def go():
            s = summ("from_dict")
            d = DescDom(ctx, {"param": desc})
            if refused(d, s):
                return False, f"the documented description {desc} is rejected"
            got = vars_of(d, s)
            if not isinstance(got, list) or not all(isinstance(v, DVar) for v in got):
                raise Unknown("result")
            g, w = [v.sig() for v in got], declared(desc)
            for v in g:
                v["bounds"] = tuple(v["bounds"])
            return g == w, f"from_dict({desc}) yields {got}, declared {w}"
        ctx.ob(f"desc:{n}", where("from_dict"), "a description yields exactly the declared variables", go)

    bad = {"unknown code": {"a": {"type": "q", "range": [0, 1]}}, "unknown long code": {"a": {"type": "float", "range": [0, 1]}}, "empty code": {"a": {"type": "", "range": [0, 1]}},
           "prefix of a code": {"a": {"type": "re", "range": [0, 1]}}, "upper case": {"a": {"type": "R", "range": [0, 1]}}, "no type": {"a": {"range": [0, 1]}},
           "second unknown": {"a": {"type": "r", "range": [0, 1]}, "b": {"type": "zz", "range": [0, 1]}}, "first unknown": {"a": {"type": "zz"}, "b": {"type": "r", "range": [0, 1]}}}
    for n, desc in bad.items():
        def rej():
            s = summ("from_dict")
            d = DescDom(ctx, {"param": desc})
            if refused(d, s):
                return True, n
            got = vars_of(d, s)
            return False, f"the entry with {n} in {desc} is not rejected: {got}"
        ctx.ob(f"reject:{n}", where("from_dict"), "an unknown or malformed entry is rejected", rej)

    def malformed():
        s = summ("from_dict")
        if not any(e.kind == "except" for e in s.events):
            return True, "no handler: errors propagate"
        for e in [{"type": c[0], "range": [0, 1]} for c in CODES.values()] + [{"range": [0, 1]}, {}]:
            d = DescDom(ctx, {"param": {"a": e}}, exc=True)
            if refused(d, s):
                continue
            try:
                got = vars_of(d, s)
            except (Unknown, Raised):
                got = "a space without it"
            return False, f"the failing entry {e} is swallowed by a handler: from_dict gives {got}"
        return True, "handlers re-raise"
    ctx.ob("reject:failing construction", where("from_dict"), "an entry whose variable cannot be built is rejected, not dropped", malformed)

    def untouched():
        s = summ("from_dict")
        for n, desc in descs.items():
            d = DescDom(ctx, {"param": desc})
            after = d.ev(s.final("param"))
            if after != desc or list(after) != list(desc) or any(list(after[k]) != list(desc[k]) for k in desc):
                return False, f"from_dict leaves the description {desc} as {after}"
        return True, f"{len(descs)} descriptions"
    ctx.ob("description untouched", where("from_dict"), "reading a description does not change it", untouched)

    def fromjson():
        s = summ("from_json")
        for n in ("several", "option leak", "r", "b default=False"):
            d = DescDom(ctx, {"param": descs[n], "file": "f"})
            got = vars_of(d, s)
            g = [v.sig() for v in got]
            for v in g:
                v["bounds"] = tuple(v["bounds"])
            if g != declared(descs[n]):
                return False, f"from_json of {descs[n]} yields {got}"
        return True, "all"
    ctx.ob("from_json", where("from_json"), "a JSON description is read like the dictionary", fromjson)

    # ---------------------------------------------------------------- constructors
    def ctor(kind, tag, want, **val):
        k = ctx.prog.cls(kind, False)
        if k is None:
            return

        def go():
            key = ("c14c", kind)
            if key not in ctx._sum:
                ctx._sum[key] = ctx.run(k.method("__init__"), k, opaque=("Node",))
            s = ctx._sum[key]
            full = {"name": "v", "default_value": None, "kwargs": {}}
            full.update(val)
            d = FDom(ctx, full)
            d.fns["itertools.combinations"] = lambda x, r: [tuple(q) for q in combinations(list(x), r)]
            d.fns["itertools.chain.from_iterable"] = lambda x: [q for y in x for q in y]
            for a, w in want.items():
                g = d.ev(s.get(a))
                if a == "bounds":
                    g, w = tuple(g), tuple(w)
                if g != w or type(g) is not type(w) and isinstance(w, bool):
                    return False, f"{kind}({val}) stores {a} = {g!r}, declared {w!r}"
            return True, tag
        ctx.ob(f"ctor:{kind}:{tag}", ctx.where(k.method("__init__")), "a variable stores its declared traits", go)

    for p in (None, 0, 3):
        for s in ("linear", "log", "log10", "bilog"):
            ctor("Real", f"precision={p} scale={s}", {"bounds": (1, 5), "precision": p, "_scale": s, "name": "v", "default_value": 2}, bounds=(1, 5), default_value=2, precision=p, scale=s)
    ctor("Real", "list bounds", {"bounds": (-1.5, 2)}, bounds=[-1.5, 2], precision=None, scale="linear")
    for st in (1, 2):
        ctor("Integer", f"step={st}", {"bounds": (0, 6), "step": st, "_size": 6 // st + 1, "default_value": 4}, bounds=(0, 6), step=st, default_value=4)
    for kind in ("Discrete", "Ordinal"):
        ctor(kind, "levels", {"bounds": ("b", "a", "c"), "_size": 3, "default_value": "a"}, bounds=("b", "a", "c"), default_value="a")
        ctor(kind, "repeated levels", {"bounds": ("b", "a"), "_size": 2}, bounds=["b", "a", "b"])
    ctor("Subset", "subsets", {"bounds": ((1,), (2,), (1, 2)), "_size": 3}, bounds=[1, 2])
    for dv in (True, False, None):
        ctor("Bool", f"default={dv}", {"bounds": (False, True), "default_value": dv, "_size": 2}, default_value=dv)

    # ---------------------------------------------------------------- scales
    vm = next((m for m in ctx.prog.modules.values() if m.rel.endswith("search_space/variable.py")), None)
    X = sp.Symbol("x", real=True)
    fun = {"numpy.sign": sp.sign, "numpy.abs": sp.Abs, "numpy.absolute": sp.Abs, "abs": sp.Abs, "numpy.log10": lambda x: sp.log(x) / sp.log(10), "numpy.log1p": lambda x: sp.log(1 + x), "numpy.expm1": lambda x: sp.exp(x) - 1,
           "scipy.special.logit": lambda x: sp.log(x / (1 - x)), "scipy.special.expit": lambda x: 1 / (1 + sp.exp(-x)), "numpy.exp2": lambda x: 2 ** x, "numpy.log2": lambda x: sp.log(x) / sp.log(2), "pow": lambda x, y: x ** y,
           "numpy.where": lambda c, a, b: sp.Piecewise((a, c), (b, True))}
    FUN.update({k: v for k, v in fun.items() if k not in FUN})

    def synth(src, name):
        f = Func(name, name, ast.parse(src).body[0], vm)
        key = ("c14s", src)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f)
        return ctx._sum[key].ret

    def table_keys(name):
        node = vm.globals.get(name) if hasattr(vm, "globals") else None
        for st in vm.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if isinstance(tg, ast.Name) and tg.id == name:
                    node = st.value
        if not isinstance(node, ast.Dict) or not all(isinstance(k, ast.Constant) for k in node.keys):
            raise Unknown(f"table {name}")
        return [k.value for k in node.keys]

    def keys():
        t, i = table_keys("TRANS"), table_keys("INV_TRANS")
        doc = ["linear", "log", "log10", "logit", "bilog"]
        if sorted(t) != sorted(i):
            return False, f"scales with a transform {sorted(t)} and scales with an inverse {sorted(i)} differ"
        miss = [k for k in doc if k not in t]
        return not miss, f"documented scales without a transform: {miss}"
    if vm is not None:
        ctx.ob("scale:tables", vm.rel, "every scale has both a transform and an inverse", keys)
        try:
            scales = table_keys("TRANS")
        except Unknown:
            scales = ["linear", "log", "log10", "logit", "bilog"]
        for k in scales:
            def inv():
                try:
                    return exact()
                except Unknown:
                    # an expression outside the algebra: the composition is evaluated at a few points; only a clear difference counts
                    fwd = synth(f"def _f(x):\n    return TRANS[{k!r}][0](x)", "_f")
                    bwd = synth(f"def _g(x):\n    return INV_TRANS[{k!r}](x)", "_g")
                    fns = {"numpy." + n: getattr(np, n) for n in ("log", "log10", "exp", "sign", "abs", "power", "round", "floor", "clip", "expm1", "log1p", "sqrt", "maximum", "minimum", "where")}
                    fns["scipy.special.logit"] = lambda x: np.log(x / (1 - x))
                    for p in (-1.5, 0.4, 1.3, 0.0):
                        z = Dom({"x": Dom({"x": p}, fns).ev(bwd)}, fns).ev(fwd)
                        if np.isfinite(z) and abs(z - p) > 1e-3:
                            return False, f"scale {k!r}: the transform takes the inverse image of {p} to {float(z):.6g}"
                    raise

            def exact():
                fwd = synth(f"def _f(x):\n    return TRANS[{k!r}][0](x)", "_f")
                bwd = synth(f"def _g(x):\n    return INV_TRANS[{k!r}](x)", "_g")
                pos = [sp.Rational(1, 3), sp.Rational(7, 10), sp.Rational(1, 100)]
                dom = {"log": pos + [3, 50], "log10": pos + [3, 50], "logit": pos}.get(k, pos + [3, -2, sp.Rational(-1, 3), 0])
                img = [sp.Rational(-3, 2), sp.Rational(2, 5), 2, 0]
                for p in dom:
                    y = Tr({}, {"x": X}, {X: p}).tr(fwd)
                    y = sp.nsimplify(p) if y is None else sp.sympify(y).subs(X, p)
                    z = sp.sympify(Tr({}, {"x": X}, {X: y}).tr(bwd)).subs(X, y)
                    if abs(sp.N(z - p, 40)) > sp.Float("1e-20"):
                        return False, f"scale {k!r}: the inverse transform takes the image of {p} to {sp.N(z, 8)}"
                for p in img:
                    y = sp.sympify(Tr({}, {"x": X}, {X: p}).tr(bwd)).subs(X, p)
                    z = sp.sympify(Tr({}, {"x": X}, {X: y}).tr(fwd)).subs(X, y)
                    if abs(sp.N(z - p, 40)) > sp.Float("1e-20"):
                        return False, f"scale {k!r}: the transform takes the inverse image of {p} to {sp.N(z, 8)}"
                return True, k
            ctx.ob(f"scale:inverse:{k}", vm.rel, "transform and inverse of a scale undo each other", inv)

            def setter():
                rc = ctx.cls("Real")
                st = rc.find_setter("scale")
                if st is None:
                    raise Gone("scale setter")
                key = ("c14set", 0)
                if key not in ctx._sum:
                    ctx._sum[key] = ctx.run(st, rc)
                s = ctx._sum[key]
                d = FDom(ctx, {"scale": k, "self.bounds": (sp.Rational(1, 4), sp.Rational(3, 4))})
                if d.ev(s.get("_scale")) != k:
                    return False, f"setting scale {k!r} stores {d.ev(s.get('_scale'))!r}"
                f, g = d.ev(s.get("_trans")), d.ev(s.get("_inv_trans"))
                fw, gw = d.ev(synth(f"def _f():\n    return TRANS[{k!r}][0]", "_f")), d.ev(synth(f"def _g():\n    return INV_TRANS[{k!r}]", "_g"))
                return (f, g) == (fw, gw), f"a variable with scale {k!r} transforms with {f} and inverts with {g}, the scale's pair is {fw} / {gw}"
            ctx.ob(f"scale:setter:{k}", "Real.scale", "a variable uses the transform pair of its own scale", setter)

    # ---------------------------------------------------------------- acquisition optimizers
    optm = next((m for m in ctx.prog.modules.values() if m.rel.endswith("acquisition/optim/__init__.py")), None)
    names = ["MIES", "BFGS", "OnePlusOne_Cholesky_CMA"]

    def budget(n):
        def go():
            f = Func("_b", "_b", ast.parse(f"def _b(dim):\n    return default_AQ_max_FEs[{n!r}](dim)").body[0], optm)
            try:
                v = SpaceDom(ctx, {"dim": 3}).ev(ctx.run(f).ret)
            except Raised as e:
                return False, f"there is no default budget for {n}: {e}"
            return isinstance(v, (int, float)) and v > 0, f"the default budget of {n} for 3 dimensions is {v}"
        return go

    for n in names:
        if optm is not None:
            ctx.ob(f"optimizer:budget:{n}", optm.rel, "every selectable acquisition optimizer has a positive default budget", budget(n))

    class OptDom(SpaceDom):
        def o_undef(self, t):
            raise Raised("undefined")

        def o_exc(self, t, *a):
            return False

    def impl(n, klass):
        def go():
            s = ctx.summ_f("argmax_restart") if hasattr(ctx, "summ_f") else ctx.run(ctx.func("argmax_restart"), opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
            sp_ = Space([Var("Real", "a"), Var("Real", "b")] if klass == "RealSpace" else [Var("Real", "a"), Var("Integer", "b")])
            d = OptDom(ctx, {"optimizer": n, "search_space": sp_, "n_restart": 1, "eval_budget": 10, "wait_iter": 3, "h": None, "g": None, "logger": None})
            want = {"BFGS": "scipy.optimize.fmin_l_bfgs_b", "MIES": "MIES", "OnePlusOne_Cholesky_CMA": "OnePlusOne_Cholesky_CMA"}[n if klass == "RealSpace" or n != "BFGS" else "MIES"]
            mades = []
            for e in s.events:
                if e.kind in ("new", "call") and str(e.name).split(".")[-1] in ("fmin_l_bfgs_b", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA"):
                    with d.bind(0, 0):
                        tv = d.tri(pcond(e))
                    if tv is None:
                        raise Unknown("selection of the optimizer")
                    if tv:
                        mades.append(str(e.name).split(".")[-1])
            if not mades:
                return False, f"no search is run for the optimizer {n!r} on a {klass}"
            return want.split(".")[-1] in mades, f"optimizer {n!r} on a {klass} runs {mades}"
        return go

    for n in names:
        for klass in ("RealSpace", "SearchSpace"):
            f = ctx.prog.func("argmax_restart")
            ctx.ob(f"optimizer:implementation:{n}:{klass}", ctx.where(f) if f else "argmax_restart", "every selectable acquisition optimizer has an implementation", impl(n, klass))

    # what the settings can select by themselves
    for cname in ("BaseBO",):
        def selects():
            cc = ctx.cls(cname)
            m = cc.method("_set_internal_optimization")
            if m is None:
                raise Gone("_set_internal_optimization")
            s = ctx.run(m, cc)
            for kl in ("RealSpace", "SearchSpace"):
                for grad in (True, False):
                    for nobj in (1, 2):
                        for con in (None, Obj("g")):
                            for kw in (None, {}, {"optimizer": "MIES"}, {"optimizer": "BFGS"}, {"optimizer": "OnePlusOne_Cholesky_CMA"}):
                                sp_ = Space([Var("Real", "a")] if kl == "RealSpace" else [Var("Real", "a"), Var("Bool", "b")])
                                d = OptDom(ctx, {"kwargs": kw, "self.search_space": sp_, "self._search_space": sp_, "hasattr:gradient": grad, "self.n_obj": nobj, "self.h": con, "self.g": None, "self.dim": 2, "self.model": Obj("model"), "self._model": Obj("model")})
                                o = d.ev(s.get("_optimizer"))
                                if o not in names:
                                    return False, f"optimizer {o!r} is selected for settings {kw} but has no implementation"
                                try:
                                    b = d.ev(s.get("AQ_max_FEs"))
                                except Raised as e:
                                    return False, f"the optimizer {o!r} selected for settings {kw} has no default budget ({e})"
                                w = Dom({"dim": 2}).ev(ctx.run(Func("_b", "_b", ast.parse(f"def _b(dim):\n    return default_AQ_max_FEs[{o!r}](dim)").body[0], optm)).ret)
                                if b != w:
                                    return False, f"optimizer {o!r} is given the default budget {b} instead of its own {w}"
                                if kw and o != kw["optimizer"] and not (kw["optimizer"] == "BFGS" and con is not None):
                                    return False, f"the optimizer {kw['optimizer']!r} requested by the user is replaced by {o!r}"
            return True, "all"
        ctx.ob(f"optimizer:selection:{cname}", cname + "._set_internal_optimization", "the optimizer selected has a budget default of its own and an implementation", selects)


class FDom(SpaceDom):
    """functions are compared by identity of what they denote"""

    def o_mod(self, t, n):
        try:
            return super().o_mod(t, n)
        except Unknown:
            return "function " + n
