"""Generated points stay inside the declared domain."""
import ast
import itertools

from ..askmodel import *  # noqa
from ..spacemodel import state_val

TECHNIQUE = "range analysis of value-flow summaries: every random source abstracted by the ends of its range, interval/level membership of each produced component"
RULE = ("Range analysis over extreme draws: each generator of points (variable and space sampling, the proposals of the constrained sampler, the mutations of the evolution strategies, the proposals of the "
        "dimension-reducing optimizer, rounding) is summarised and evaluated on small spaces with every random source at the ends of its range. Each component produced must lie within the bounds, or on a "
        "level, of the variable it belongs to; rounding must give the closest admissible value of the declared precision.")

EPS = 1e-9
U = (0.0, 0.25, 0.5, 1 - 1e-12)
Z = (-1e4, -37.3, -2.6, -0.4, 0.0, 0.7, 3.1, 44.9, 1e4)


def space(kind):
    V = {"r1": Var("Real", "r1", (-5.0, 5.0), precision=None, scale="linear"), "r2": Var("Real", "r2", (0.04, 0.96), precision=1, scale="linear"),
         "r3": Var("Real", "r3", (100.0, 250.0), precision=0, scale="linear"), "k": Var("Integer", "k", (-3, 4), step=1), "k2": Var("Integer", "k2", (10, 12), step=1),
         "c": Var("Discrete", "c", ("u", 7, (1, 2))), "o": Var("Ordinal", "o", (10, 20, 30, 40)), "s": Var("Subset", "s", ((1,), (2,), (1, 2))), "b": Var("Bool", "b")}
    return Space([V[n] for n in kind])


SPACES = {"mixed": ("r1", "k", "c", "r2", "o"), "swapped": ("o", "k2", "b", "r2", "k", "s", "r1"), "real": ("r1", "r2", "r3"), "real1": ("r2",), "integer": ("k", "k2"), "integer1": ("k2",), "cat": ("c", "o", "b"), "cat1": ("s",)}


def inside(v, x):
    if v.kind in ("Real", "Integer"):
        if isinstance(x, (str, tuple, list, bool, np.bool_)) or x is None:
            return False
        x = float(x)
        return v.bounds[0] - EPS <= x <= v.bounds[1] + EPS and not np.isnan(x) and (v.kind == "Real" or float(x) == int(x))
    if isinstance(x, np.generic):
        x = x.item()
    return any(x == l and (type(x) is type(l) or v.kind == "Bool" or isinstance(x, (int, float)) and isinstance(l, (int, float)) and not isinstance(x, bool)) for l in v.bounds)


def bad(sp, row):
    for v, x in zip(sp.data, row):
        if not inside(v, x):
            return f"{v.name} = {x!r} is outside {v.bounds}"
    return None


class GDom(AskDom):
    """generators: every random source at a chosen place of its range"""

    def __init__(self, ctx, I, val, u=0.5, z=0.0, geo=(1, 1), pick=0):
        super().__init__(ctx, I, val, {})
        self.k = 0
        full = lambda shape, v: v if not shape or shape == (None,) else np.full(tuple(int(s) for s in shape), v, dtype=float)
        f = self.fns
        for m in ("numpy.random.", ""):
            f[m + "rand"] = f[m + "random.random_sample"] = lambda *s, **k: full(s, u)
            f[m + "randn"] = lambda *s, **k: full(s, z)
            f[m + "geometric"] = self.geometric
            f[m + "randint"] = self.randint
        f["numpy.random.random"] = lambda size=None, **k: full(size if isinstance(size, tuple) else () if size is None else (size,), u)
        f["numpy.random.uniform"] = lambda lo=0.0, hi=1.0, size=None, **k: np.asarray(lo) + (np.asarray(hi) - np.asarray(lo)) * full(size if isinstance(size, tuple) else () if size is None else (size,), u)
        f["numpy.random.normal"] = lambda lo=0.0, sc=1.0, size=None, **k: np.asarray(lo) + np.asarray(sc) * full(size if isinstance(size, tuple) else () if size is None else (size,), z)
        f["pyDOE.lhs"] = f["lhs"] = f["pyDOE2.lhs"] = lambda n, samples=None, **k: full((samples, n), u)
        f["itertools.combinations"] = lambda x, r: list(itertools.combinations(list(x), int(r)))
        f["itertools.chain.from_iterable"] = lambda x: [v for y in x for v in y]
        f["scipy.special.logit"] = lambda x: np.log(np.asarray(x, dtype=float) / (1 - np.asarray(x, dtype=float)))
        f["scipy.special.expit"] = lambda x: 1 / (1 + np.exp(-np.asarray(x, dtype=float)))
        f["sobol_seq.i4_sobol_generate"] = f["i4_sobol_generate"] = lambda d, n, *a, **k: full((n, d), u)
        self.geo, self.pick = geo, pick
        f["numpy.random.choice"] = self.choice
        f["scipy.stats.norm.cdf"] = lambda x, *a, **k: np.clip(np.asarray(x, dtype=float) * 0 + 0.5, 0, 1)

    def sub(self, val):
        return GDom(self.ctx, self.I, val)

    exc = False

    def o_exc(self, t, *a):
        return self.exc

    def getitem(self, v, i):
        if isinstance(v, Space):
            if isinstance(i, (int, np.integer)) and not isinstance(i, bool):
                return v.data[int(i)]
            i = np.asarray(i)
            return Space([v.data[int(j)] for j in (np.nonzero(i)[0] if i.dtype == bool else i.ravel())])
        return super().getitem(v, i)

    def geometric(self, p, size=None, **k):
        """successive draws alternate between the two chosen values"""
        v = self.geo[self.k % 2]
        self.k += 1
        shape = np.shape(p) if size is None else (size if isinstance(size, tuple) else (size,))
        return np.full(tuple(int(s) for s in shape), int(v)) if shape != () else int(v)

    def randint(self, lo, hi=None, size=None, **k):
        if hi is None:
            lo, hi = 0, lo
        hi = int(hi)
        if not int(lo) < hi:
            raise Raised("empty range of integers")
        v = int(lo) if self.pick == 0 else hi - 1 if self.pick == 1 else int(lo) + (hi - int(lo)) // 2
        if size is None:
            return v
        return np.full(size if isinstance(size, tuple) else (int(size),), v, dtype=int)

    def choice(self, a, size=None, **k):
        seq = np.arange(a) if isinstance(a, (int, np.integer)) else list(a)
        i = 0 if self.pick == 0 else len(seq) - 1
        return seq[i] if size is None else [seq[i]] * int(size)


GEO = ((1, 1), (1, 10 ** 6), (10 ** 6, 1), (3, 1), (1, 4), (977, 12))


def grid(sp, j=0):
    """a row of admissible values"""
    out = []
    for v in sp.data:
        if v.kind == "Real":
            x = v.bounds[0] + (v.bounds[1] - v.bounds[0]) * (0.0, 0.5, 1.0)[j % 3]
            out.append(x)
        elif v.kind == "Integer":
            out.append((v.bounds[0], v.bounds[0] + 1, v.bounds[1])[j % 3])
        else:
            out.append(v.bounds[j % len(v.bounds)])
    return out


def objmat(rows):
    X = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            X[i, j] = v
    return X


def check(ctx):
    for part in (rounding, variables, spaces, scmc, box, cma, mies, driver, pca):
        part(ctx)


# ------------------------------------------------------------------ rounding
def rounding(ctx):
    f = ctx.method("Real", "round")
    for b, p in itertools.product(((0.04, 0.96), (-0.94, -0.06), (0.0, 1.0), (-5.5, 5.5), (99.6, 250.4), (0.123, 0.126), (-1e-3, 1e-3)), (None, 0, 1, 2, 3)):
        def go():
            s = ctx.summ("Real", "round")
            X = np.array([b[0], b[1], (b[0] + b[1]) / 2, b[0] + 1e-4 * (b[1] - b[0]), b[1] - 1e-4 * (b[1] - b[0]), b[0] + 0.37 * (b[1] - b[0])])
            d = Dom({"self.precision": p, "self.bounds": b, "X": X})
            Y = np.asarray(d.ev(s.ret), dtype=float)
            if Y.shape != X.shape:
                return False, f"rounding changes the shape: {Y.tolist()}"
            for x, y in zip(X, Y):
                if not b[0] <= y <= b[1]:
                    return False, f"{x} is rounded to {y} with precision {p}, outside {b}"
                if p is None:
                    if y != x:
                        return False, f"{x} becomes {y} although no precision is declared"
                    continue
                want = round(float(x), p)
                ok = abs(y - min(max(want, b[0]), b[1])) < 1e-12
                if not ok and not (abs(y * 10 ** p - round(y * 10 ** p)) < 1e-9 and abs(y - x) <= 10.0 ** -p):
                    return False, f"{x} is rounded to {y} with precision {p} in {b}"
            return True
        ctx.ob(f"round:variable/{b}/{p}".replace(" ", ""), ctx.where(f), "rounding gives the closest value of the declared precision within the bounds", go)
    for cname in ("RealSpace", "SearchSpace"):
        f = ctx.method(cname, "round")
        for sname, order in SPACES.items():
            sp = space(order)
            if cname == "RealSpace" and sp.klass != "RealSpace" or cname == "SearchSpace" and sp.klass != "SearchSpace":
                continue
            for form in ("matrix", "row", "list"):
                def go():
                    s = ctx.summ(cname, "round", opaque=("Node",), opaque_funcs=("SearchSpace.__getitem__", "RealSpace.round") if cname == "SearchSpace" else ())
                    rows = [grid(sp, 0), grid(sp, 1), grid(sp, 2)]
                    for r in rows:
                        for j, v in enumerate(sp.data):
                            if v.kind == "Real":
                                r[j] = r[j] * 0.999 + 0.0013 if v.bounds[0] <= r[j] * 0.999 + 0.0013 <= v.bounds[1] else r[j]
                    arg = objmat(rows) if form == "matrix" else objmat(rows)[0] if form == "row" else rows
                    if cname == "RealSpace" and form != "list":
                        arg = np.array(arg, dtype=float)
                    d = GDom(ctx, s.I, {**state_val(sp), "self": sp, "X": arg})
                    sub = lambda me, *a, **k: Space([sp.data[int(i)] for i in np.asarray((list(a) + list(k.values()))[0]).ravel()])
                    d.fns["SearchSpace.__getitem__"] = sub

                    def rround(me, *a, **k):
                        X = np.array((list(a) + list(k.values()))[0], dtype=float)
                        X = np.atleast_2d(X)
                        if X.shape[1] != len(me.data):
                            raise Raised("columns")
                        return np.array([[ref(v, x) for v, x in zip(me.data, r)] for r in X])
                    d.fns["RealSpace.round"] = rround
                    d.fns["mcall:round"] = lambda D, t, recv, a: rround(D.ev(recv), *D.args(a)[0], **D.args(a)[1]) if isinstance(D.ev(recv), Space) else NotImplemented
                    d.fns["round"] = lambda x, *a, **k: (d.tokmethod(x, "round", a, k) if isinstance(x, Var) else rround(x, *a)) if isinstance(x, Obj) else round(x, *a)
                    d.fns["numpy.round"] = lambda x, *a, **k: (d.tokmethod(x, "round", a, k) if isinstance(x, Var) else rround(x, *a)) if isinstance(x, Obj) else np.round(x, *a, **k)
                    Y = np.asarray(d.ev(s.ret), dtype=object)
                    Y = Y.reshape(1, -1) if Y.ndim == 1 else Y
                    want = [[ref(v, x) for v, x in zip(sp.data, r)] for r in (rows if form != "row" else rows[:1])]
                    if Y.shape != (len(want), len(sp.data)):
                        return False, f"rounding a {form} gives the shape {Y.shape}"
                    for r, q in zip(Y.tolist(), want):
                        for v, x, y in zip(sp.data, r, q):
                            if isinstance(y, float) and abs(float(x) - y) > 1e-12 or not isinstance(y, float) and x != y:
                                return False, f"{v.name} becomes {x} instead of {y}"
                    return True
                ctx.ob(f"round:{cname}/{sname}/{form}", ctx.where(f), "each real component is rounded to its own variable's precision, the others are kept", go)


def ref(v, x):
    if v.kind != "Real" or v.precision is None:
        return x
    return float(np.clip(np.round(float(x), v.precision), v.bounds[0], v.bounds[1]))


# ------------------------------------------------------------------ sampling
def variables(ctx):
    for kind, args in (("Integer", [((-3, 4), 1), ((-3, 4), 2), ((0, 1), 1), ((5, 14), 3), ((-7, -2), 4), ((0, 10), 10), ((0, 10), 7)]),
                       ("Discrete", [(["u", 7, (1, 2)], None), (["a"], None), (["x", "x", "y"], None)]), ("Ordinal", [([10, 20, 30], None), ([3, 3, 1], None)]), ("Bool", [(None, None)]), ("Subset", [([1, 2, 3], None)])):
        f = ctx.method(kind, "sample")
        for b, step in args:
            for pick in (0, 1, 2):
                def go():
                    key = ("varsample", kind, str(b), step)
                    if key not in ctx._sum:
                        kw = {"name": "v"}
                        if b is not None:
                            kw["bounds"] = mk("sym", "bounds")
                        if step is not None:
                            kw["step"] = step
                        s = Session(ctx, kind, kw)
                        ctx._sum[key] = (s, s.call("sample", N=4))
                    s, r = ctx._sum[key]
                    d = GDom(ctx, s.I, {"bounds": b}, pick=pick)
                    X = list(d.ev(r))
                    levels = (False, True) if kind == "Bool" else tuple(b) if kind != "Subset" else tuple(c for n in (1, 2, 3) for c in itertools.combinations(b, n))
                    v = Var(kind, "v", levels)
                    if len(X) != 4:
                        return False, f"{len(X)} values are drawn instead of 4"
                    for x in X:
                        if not inside(v, x):
                            return False, f"{kind}({b}{', step=%s' % step if step else ''}) yields {x!r}"
                    return True
                ctx.ob(f"variable:{kind}/{b}/{step}/{('low', 'high', 'middle')[pick]}".replace(" ", ""), ctx.where(f), "the lowest, a middle and the highest draw give values of the variable", go)
    f = ctx.method("RealSpace", "_sample")
    scales = {"linear": ((-5.0, 5.0), (0.04, 0.96), (2.0, 3.0)), "log": ((0.3, 5.0), (1e-6, 1e3), (2.0, 3.0)), "log10": ((0.3, 5.0), (1e-6, 1e3), (2.0, 3.0)),
              "logit": ((0.1, 0.7), (0.01, 0.99), (0.4, 0.5)), "bilog": ((-3.3, 4.1), (-100.0, -1.0), (2.0, 30.0))}
    for scale, bs in scales.items():
        for method in ("uniform", "LHS", "sobol"):
            for N in (1, 3):
                for prec in (None, 1):
                    def go():
                        key = ("realspace", scale, prec)
                        if key not in ctx._sum:
                            kw = {"bounds": [list(b) for b in bs], "scale": scale, "precision": prec}
                            s = Session(ctx, "RealSpace", {k: (const_list(v) if isinstance(v, list) else v) for k, v in kw.items()}, opaque=("Node",))
                            ctx._sum[key] = s
                        s = ctx._sum[key]
                        k2 = key + (method, N)
                        if k2 not in ctx._sum:
                            ctx._sum[k2] = s.call("_sample", N=N, method=method)
                        for u in U:
                            d = GDom(ctx, s.I, {}, u=u)
                            X = np.asarray(d.ev(ctx._sum[k2]), dtype=float)
                            if X.shape != (N, 3):
                                return False, f"{N} points of 3 variables are drawn as {X.shape}"
                            for r in X:
                                for x, b in zip(r, bs):
                                    tol = 1e-9 * max(1.0, abs(b[0]), abs(b[1]))
                                    if not b[0] - tol <= x <= b[1] + tol:
                                        return False, f"draw {u} on the {scale} scale gives {x} for bounds {b}"
                            if u == 0.5 and prec is None and len({round(float(x), 9) for x in X[0]}) != 3:
                                return False, f"the three variables with bounds {bs} all get {X[0].tolist()}"
                        return True
                    ctx.ob(f"real:{scale}/{method}/{N}/{prec}", ctx.where(f), "draws on every scale and by every method are mapped into the bounds of their own variable", go)


def const_list(v):
    return mk("list", *[const_list(x) if isinstance(x, (list, tuple)) else const(x) for x in v])


def spaces(ctx):
    f = ctx.method("SearchSpace", "_sample")
    for sname in ("mixed", "swapped"):
        sp = space(SPACES[sname])
        for N in (1, 3):
            def go():
                s = ctx.summ("SearchSpace", "_sample", opaque=("Node",), opaque_funcs=("SearchSpace.__getitem__",))
                d = GDom(ctx, s.I, {**state_val(sp), "self": sp, "N": N, "method": "uniform", "self.dim": sp.dim})
                d.fns["SearchSpace.__getitem__"] = lambda me, *a, **k: Space([sp.data[int(i)] for i in np.asarray((list(a) + list(k.values()))[0]).ravel()])

                def draw(D, t, recv, a):
                    me = D.ev(recv)
                    pos, kw = D.args(a)
                    n = int((list(pos) + list(kw.values()))[0])
                    return objmat([grid(me, i) for i in range(n)])
                d.fns["mcall:_sample"] = draw
                X = np.asarray(d.ev(s.ret), dtype=object)
                if X.shape != (N, sp.dim):
                    return False, f"{N} points of {sp.dim} variables are drawn as {X.shape}"
                for i, r in enumerate(X):
                    b = bad(sp, r)
                    if b:
                        return False, b
                    if list(r) != grid(sp, i):
                        return False, f"the values {grid(sp, i)} drawn for {SPACES[sname]} are returned as {list(r)}"
                return True
            ctx.ob(f"space:{sname}/{N}", ctx.where(f), "the values drawn for each type of variables are put into the columns of these variables", go)
    f = ctx.method("_DiscreteSpace", "_sample")
    for sname in ("integer", "cat", "cat1"):
        sp = space(SPACES[sname])
        for klass in {"integer": ("IntegerSpace",), "cat": ("DiscreteSpace",), "cat1": ("SubsetSpace",)}[sname]:
            def go():
                s = ctx.summ(klass, "_sample", opaque=("Node",))
                sp.klass = klass
                d = GDom(ctx, s.I, {**state_val(sp), "self": sp, "N": 3, "method": "uniform", "self.dim": sp.dim})
                d.fns["mcall:sample"] = lambda D, t, recv, a: [D.ev(recv).bounds[i % len(D.ev(recv).bounds)] for i in range(int(D.args(a)[0][0]))] if isinstance(D.ev(recv), Var) else NotImplemented
                X = np.asarray(d.ev(s.ret), dtype=object)
                if X.shape != (3, sp.dim):
                    return False, f"shape {X.shape}"
                for r in X:
                    b = bad(sp, r)
                    if b:
                        return False, b
                return True
            ctx.ob(f"space:{klass}/{sname}", ctx.where(f), "the values drawn for each variable are put into its own column, unaltered", go)


# ------------------------------------------------------------------ constrained sampling
def scmc_session(ctx):
    key = ("scmc",)
    if key not in ctx._sum:
        init = ctx.method("SCMC", "__init__")
        f = ctx.method("SearchSpace", "sample")
        su = ctx.run(f, ctx.cls("SearchSpace"), opaque=("Solution", "Node", "SCMC"), opaque_funcs=("SearchSpace._sample", "SearchSpace.round"))
        es = [e for e in su.events if e.kind == "new" and e.name == "SCMC"]
        if not es:
            raise Unknown("construction of the constrained sampler")
        b = dict(zip(init.args()[1:], es[0].args))
        b.update(es[0].kw)
        kw = {k: v for k, v in b.items() if k not in ("sample_space", "constraints", "tol")}
        kw.update(sample_space=mk("sym", "space"), constraints=mk("sym", "cons"), tol=1e-2)
        s = Session(ctx, "SCMC", kw, opaque=("Node", "SearchSpace"))
        ctx._sum[key] = s
    return ctx._sum[key]


def scmc(ctx):
    c = ctx.prog.cls("SCMC", False)
    if c is None:
        return
    f = c.method("_rproposal") or c.method("sample")
    for sname, order in SPACES.items():
        sp = space(order)

        def go():
            s = scmc_session(ctx)
            key = ("scmc", "prop")
            if key not in ctx._sum:
                if c.method("_rproposal") is None:
                    raise Gone("SCMC._rproposal")
                names = c.method("_rproposal").args()[1:]
                kw = {n: mk("sym", "arg" + str(i)) for i, n in enumerate(names)}
                ctx._sum[key] = s.call("_rproposal", **kw)
            r = ctx._sum[key]
            rows = [grid(sp, j) for j in range(4)]
            for u, z, geo, pick, t in [(u, z, geo, pick, t) for u, z in zip((0.0, 0.0, 0.999999, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0), Z) for geo in GEO for pick in (0, 1, 2) for t in (0, 5)][::5]:
                d = GDom(ctx, s.I, {"space": sp, "arg0": objmat(rows), "arg1": t, "cons": Fun("cons", None)}, u=u, z=z, geo=geo, pick=pick)
                X = np.asarray(d.ev(r), dtype=object)
                if X.shape != (4, sp.dim):
                    return False, f"the proposal has shape {X.shape}"
                for x in X:
                    b = bad(sp, x)
                    if b:
                        return False, f"with a normal draw of {z} and geometric draws of {geo} the proposal has {b}"
            return True
        ctx.ob(f"constrained:proposal/{sname}", ctx.where(f), "every component proposed by the constrained sampler belongs to its variable", go)

        def mh():
            if c.method("_metropolis_hastings") is None:
                raise Gone("SCMC._metropolis_hastings")
            s = ctx.summ("SCMC", "_metropolis_hastings", opaque_funcs=("SCMC._log_posterior", "SCMC._rproposal"))
            names = s.func.args()[1:]
            for u, exc in ((0.0, False), (0.999, False), (0.5, True)):
                for lp in (lambda k: 0.0, lambda k: -50.0 if k % 2 else 0.0):
                    n = [0]
                    d = GDom(ctx, s.I, {names[0]: objmat([grid(sp, j) for j in range(3)]), names[1]: 0.1, names[2]: 0, "self.mh_steps": 2, "self.dim": sp.dim, "self.sample_space": sp}, u=u)
                    d.exc = exc

                    def post(*a, **k):
                        n[0] += 1
                        return lp(n[0])
                    d.fns["SCMC._log_posterior"] = post
                    d.fns["SCMC._rproposal"] = lambda *a, **k: objmat([grid(sp, j + 1) for j in range(3)])
                    X = np.asarray(d.ev(s.ret), dtype=object)
                    for x in X:
                        b = bad(sp, x)
                        if b:
                            return False, b
            return True
        ctx.ob(f"constrained:walk/{sname}", ctx.where(c.method("_metropolis_hastings") or f), "accepted components are copied within their own column", mh)

        def draw():
            s = ctx.summ("SCMC", "sample", opaque_funcs=("SCMC._metropolis_hastings",))
            d = GDom(ctx, s.I, {s.func.args()[1]: 4, "self.nu_schedule": [1.0, 0.1], "self.dim": sp.dim, "self.sample_space": sp})
            n = []

            def first(D, t, recv, a):
                pos, kw = D.args(a)
                n.append(int((list(pos) + list(kw.values()))[0]))
                return objmat([grid(sp, j) for j in range(n[-1])])
            d.fns["mcall:_sample"] = d.fns["mcall:sample"] = first
            d.fns["SCMC._metropolis_hastings"] = lambda *a, **k: ([x for x in a if isinstance(x, np.ndarray)] + [x for x in k.values() if isinstance(x, np.ndarray)])[0]
            X = np.asarray(d.ev(s.ret), dtype=object)
            if not n:
                raise Unknown("initial sample")
            if X.shape != (4, sp.dim):
                return False, f"4 points are requested, {X.shape} given back"
            for x in X:
                b = bad(sp, x)
                if b:
                    return False, b
            return True
        ctx.ob(f"constrained:sample/{sname}", ctx.where(c.method("sample") or f), "the constrained sampler starts from points of the space and gives back the walked ones", draw)


# ------------------------------------------------------------------ boxes
def box(ctx):
    f = ctx.func("handle_box_constraint")
    n = f.args()
    cases = {"vector": ((-5.0, 0.04, 100.0), (5.0, 0.96, 250.0)), "one": ((2.0,), (3.0,)), "ints": ((-3, 10), (4, 12)), "square": ((-5.0, 0.0), (5.0, 1.0)), "wide": ((0.0, -1e6), (1e-3, 1e6))}
    for name, (lb, ub) in cases.items():
        for form in ("vector", "scalar-bounds") if name == "one" else ("vector",):
            def go():
                key = ("box",)
                if key not in ctx._sum:
                    ctx._sum[key] = ctx.run(f)
                s = ctx._sum[key]
                for z in Z + (0.1, 0.5, 0.9, 1.0, -1.0, 2.0, 1.5, -0.5):
                    x = np.array([l + (u - l) * z for l, u in zip(lb, ub)])
                    d = Dom({n[0]: x.copy(), n[1]: np.array(lb) if form == "vector" else lb[0], n[2]: np.array(ub) if form == "vector" else ub[0]})
                    y = np.asarray(d.ev(s.ret), dtype=float)
                    if y.shape != x.shape:
                        return False, f"a point of shape {x.shape} becomes {y.shape}"
                    for l, u, a, b in zip(lb, ub, x, y):
                        if not l - EPS * max(1, abs(l), abs(u)) <= b <= u + EPS * max(1, abs(l), abs(u)):
                            return False, f"{a} is mapped to {b}, outside [{l}, {u}]"
                        if l <= a <= u and abs(a - b) > 1e-6 * max(1, u - l):
                            return False, f"{a} inside [{l}, {u}] is moved to {b}"
                return True
            ctx.ob(f"box:{name}/{form}", ctx.where(f), "any point is mapped into the box, and one inside is kept", go)

    def rows():
        key = ("box",)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f)
        s = ctx._sum[key]
        lb, ub = np.array([-5.0, 0.0, 100.0]), np.array([5.0, 1.0, 250.0])
        X = np.array([[-50.3, 7.7, 1000.0], [3.0, -0.25, 90.0]])
        d = Dom({n[0]: X.copy(), n[1]: lb, n[2]: ub})
        Y = np.asarray(d.ev(s.ret), dtype=float)
        return Y.shape == X.shape and bool(np.all(Y >= lb - 1e-9) and np.all(Y <= ub + 1e-9)), f"the rows {X.tolist()} are mapped to {Y.tolist()}"
    ctx.ob("box:rows", ctx.where(f), "rows of points are mapped into the box", rows)


# ------------------------------------------------------------------ evolution strategies
OPAQ = {f"{k}.{m}" for k in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA") for m in ("evaluate", "penalize", "tell")} | {"get_logger"}


def cma(ctx):
    for cname in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA"):
        c = ctx.prog.cls(cname, False)
        if c is None or c.method("ask") is None:
            continue
        w = f"{c.method('ask').module.rel}:{c.method('ask').node.lineno} {cname}.ask"
        for sname in ("real", "real1"):
            sp = space(SPACES[sname])
            lb, ub = np.array([v.bounds[0] for v in sp.data]), np.array([v.bounds[1] for v in sp.data])

            def sess():
                key = ("cma", cname)
                if key not in ctx._sum:
                    s = Session(ctx, cname, {"search_space": mk("sym", "space"), "obj_fun": mk("sym", "f")}, opaque=("Node", "SearchSpace"), opaque_funcs=OPAQ)
                    first = s.attr("_x")
                    s.set("_x", mk("sym", "cur"))
                    s.set("_sigma", mk("sym", "sig"))
                    ctx._sum[key] = (s, first, s.call("ask"))
                return ctx._sum[key]

            def dom(s, **k):
                d = GDom(ctx, s.I, {"space": sp, "f": Fun("f", None), "cur": (lb + ub) / 2, "sig": 1.0}, **k)
                rr = lambda me, X: np.array([[ref(v, x) for v, x in zip(me.data, r)] for r in np.atleast_2d(np.array(X, dtype=float))])
                d.fns["mcall:round"] = lambda D, t, recv, a: rr(D.ev(recv), (D.args(a)[0] + list(D.args(a)[1].values()))[0]) if isinstance(D.ev(recv), Space) else NotImplemented
                d.fns["round"] = d.fns["numpy.round"] = lambda x, *a, **q: rr(x, *a) if isinstance(x, Space) else np.round(x, *a, **q)
                return d

            def go():
                s, first, r = sess()
                for z in Z:
                    for u in (0.0, 1.0, 0.5):
                        d = dom(s, z=z)
                        d.val["cur"] = lb + (ub - lb) * u
                        x = np.ravel(np.asarray(d.ev(r), dtype=float)).tolist()
                        if len(x) != sp.dim:
                            return False, f"the proposal has {len(x)} components"
                        b = bad(sp, x)
                        if b:
                            return False, f"with a normal draw of {z} the proposal has {b}"
                        for v, y in zip(sp.data, x):
                            if v.precision is not None and abs(y - ref(v, y)) > 1e-9:
                                return False, f"the proposal has {v.name} = {y}, not rounded to {v.precision} digits"
                return True
            ctx.ob(f"cma:proposal/{cname}/{sname}", w, "a mutation, however large, stays within the bounds and is rounded", go)

            def start():
                s, first, r = sess()
                if first is None:
                    raise Unknown("initial point")
                for u, z in [(u, 0.0) for u in U] + [(0.5, z) for z in Z]:
                    d = dom(s, u=u, z=z)
                    x = np.ravel(np.asarray(d.ev(first), dtype=float)).tolist()
                    b = bad(sp, x)
                    if b or len(x) != sp.dim:
                        return False, f"with a uniform draw of {u} and a normal one of {z} the initial point has {b}"
                return True
            ctx.ob(f"cma:start/{cname}/{sname}", w, "the initial point lies within the bounds", start)


def mies(ctx):
    c = ctx.prog.cls("MIES", False)
    if c is None:
        return
    f = c.method("mutate") or c.method("optimize")

    def sess():
        key = ("mies",)
        if key not in ctx._sum:
            s = Session(ctx, "MIES", {"search_space": mk("sym", "space"), "obj_func": mk("sym", "f")}, opaque=("Node", "SearchSpace", "Solution"), opaque_funcs=("MIES.evaluate",))
            if c.method("mutate") is None:
                raise Gone("MIES.mutate")
            names = c.method("mutate").args()[1:]
            ctx._sum[key] = (s, s.call("mutate", **{names[0]: mk("sym", "ind")}))
        return ctx._sum[key]
    for sname, order in SPACES.items():
        sp = space(order)
        nr, ni, nd = (sum(v.kind in ks for v in sp.data) for ks in (("Real",), ("Integer",), ("Discrete", "Ordinal", "Bool", "Subset")))

        def go():
            s, r = sess()
            for n_, (z, geo, pick, j) in enumerate([(z, geo, pick, j) for z in Z if z != 0.0 for geo in GEO for pick in (0, 1, 2) for j in (0, 1, 2)]):
                if n_ % 7:
                    continue
                for big in (0.05, 1e3):
                    ind = objmat([grid(sp, j) + [big] * nr + [0.5] * ni + [0.3] * min(nd, 1)])[0]
                    d = GDom(ctx, s.I, {"space": sp, "ind": ind, "f": Fun("f", None)}, u=0.0, z=z if abs(z) < 100 else np.sign(z) * 5, geo=geo, pick=pick)
                    d.fns["SearchSpace.__getitem__"] = lambda me, *a, **k: Space([me.data[int(i)] for i in np.asarray((list(a) + list(k.values()))[0]).ravel()])
                    rr = lambda me, X: np.array([[ref(v, x) for v, x in zip(me.data, q)] for q in np.atleast_2d(np.array(X, dtype=float))])
                    d.fns["mcall:round"] = lambda D, t, recv, a: rr(D.ev(recv), (D.args(a)[0] + list(D.args(a)[1].values()))[0]) if isinstance(D.ev(recv), Space) else NotImplemented
                    d.fns["round"] = d.fns["numpy.round"] = lambda x, *a, **q: rr(x, *a) if isinstance(x, Space) else np.round(x, *a, **q)
                    x = list(np.asarray(d.ev(r), dtype=object))[:sp.dim]
                    b = bad(sp, x)
                    if b:
                        return False, f"with a normal draw of {z} (step size {big}), geometric draws {geo}, a mutant of {grid(sp, j)} has {b}"
                    for v, y in zip(sp.data, x):
                        if v.kind == "Real" and v.precision is not None and abs(float(y) - ref(v, y)) > 1e-9:
                            return False, f"a mutant has {v.name} = {y}, not rounded to {v.precision} digits"
            return True
        ctx.ob(f"mies:mutation/{sname}", ctx.where(f), "a mutation, however large, stays within the bounds and on the levels", go)

        def recomb():
            if c.method("recombine") is None:
                raise Gone("MIES.recombine")
            s = ctx.summ("MIES", "recombine")
            names = s.func.args()[1:]
            hp = nr + ni + min(nd, 1)
            for z in (0.0, 1.0):
                pop = objmat([grid(sp, j) + [0.1 + j] * hp for j in range(3)])
                for i, k in ((0, 1), (2, 0), (1, 1)):
                    d = GDom(ctx, s.I, {names[0]: i, names[1]: k, "self.pop": pop, "self._id_hyperpar": np.arange(sp.dim, sp.dim + hp), "self.dim": sp.dim, "self._id_var": np.arange(sp.dim)}, z=z)
                    x = list(np.asarray(d.ev(s.ret), dtype=object))[:sp.dim]
                    b = bad(sp, x)
                    if b:
                        return False, b
            return True
        ctx.ob(f"mies:recombination/{sname}", ctx.where(c.method("recombine") or f), "recombination exchanges components of the same variable", recomb)

        def init():
            s, r = sess()
            t = s.attr("pop")
            es = [e for e in s.I.events if e.kind == "new" and e.name == "Solution" and e.args]
            hit = 0
            for e in es:
                d = GDom(ctx, s.I, {"space": sp, "f": Fun("f", None)})
                d.fns["mcall:sample"] = lambda D, t, recv, a: objmat([grid(sp, j) for j in range(int((D.args(a)[0] + list(D.args(a)[1].values()))[0]))])
                if d.tri(pcond(e)) is not True:
                    continue
                rows = d.ev(e.args[0])
                for row in rows:
                    b = bad(sp, list(row)[:sp.dim])
                    if b:
                        return False, f"the initial population has {b}"
                hit += 1
            if not hit:
                raise Unknown("initial population")
            return True
        ctx.ob(f"mies:start/{sname}", ctx.where(c.method("__init__")), "the initial population consists of sampled points, column by column", init)


# ------------------------------------------------------------------ the restart driver
def driver(ctx):
    f = ctx.func("argmax_restart")

    def bounds():
        s = ctx.run(f, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
        es = [e for e in s.events if e.name and e.name.split(".")[-1] in ("fmin_l_bfgs_b", "minimize")]
        if not es:
            raise Unknown("no gradient-based search")
        sp = space(SPACES["real"])
        for e in es:
            t = e.kw.get("bounds")
            if t is None:
                return False, f"{e.where}: the gradient-based search is not bounded"
            d = Dom({"search_space.bounds": [v.bounds for v in sp.data]})
            got = np.asarray(d.ev(t), dtype=float)
            if not np.array_equal(got, np.array([v.bounds for v in sp.data])):
                return False, f"{e.where}: the gradient-based search is bounded by {got.tolist()}"
        return True
    ctx.ob("driver:bounds", ctx.where(f), "the gradient-based search is given the bounds of the space", bounds)
    from .c04 import RDom, cand
    for optm in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
        def go():
            key = ("argmax",)
            if key not in ctx._sum:
                ctx._sum[key] = ctx.run(f, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
            s = ctx._sum[key]
            cands = [cand(1, 1.0), cand(2, 3.0), cand(3, 2.0)]
            val = {"optimizer": optm, "n_restart": 3, "wait_iter": 9, "eval_budget": 10 ** 6, "h": None, "g": None, "search_space.real_id": np.array([0]), "logger": None, "search_space": Obj("space"),
                   "search_space.bounds": [(0.0, 9.0)], "search_space.dim": 1, "obj_func": Obj("criterion")}
            d = RDom(ctx, s.I, val, cands)
            x, v = d.ev(s.ret)
            x0 = float(np.ravel(np.asarray(x, dtype=object))[0])
            return x0 in [c["r"] for c in cands], f"{x0} is returned by the {optm} search; rounded to the declared precision it would be one of {[c['r'] for c in cands]}"
        ctx.ob(f"driver:rounded/{optm}", ctx.where(f), "the proposal is rounded to the declared precision", go)


# ------------------------------------------------------------------ dimension reduction
def pca(ctx):
    c = ctx.prog.cls("PCABO", False)
    if c is None:
        return
    f = c.method("ask")
    sp = Space([Var("Real", "x0", (-5.0, 5.0)), Var("Real", "x1", (0.0, 1.0)), Var("Real", "x2", (100.0, 250.0))])

    YS = ([[-50.0, -3.0, 0.0], [0.0, 0.5, 200.0]], [[50.0, 1.2, 1e4], [5.0, 1.0, 250.0]], [[-5.0, 7.0, 99.0], [1.0, -0.1, 251.0]], [[1.0, 0.5, 90.0]], [[6.0, -0.5, 251.0]])

    def go(et, mini):
        kw = {"search_space": mk("sym", "search_space"), "minimize": mini, "n_job": 1, "max_FEs": 100, "model": mk("sym", "model"), "eval_type": et}
        s = Session(ctx, "PCABO", kw, opaque=ASK_OPAQUE + ("LinearTransform",), opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
        s.set("_search_space", mk("sym", "reduced"))
        s.I.opaque_funcs = {"BaseBO.ask", "BO.ask", "timeit.__func__"} | set(s.I.opaque_funcs)
        r = s.call("ask", n_point=mk("sym", "n_point"))
        for Y in YS:
            d = GDom(ctx, s.I, {"search_space": sp, "reduced": Space([Var("Real", "p0", (-900.0, 900.0))]), "len(search_space)": 3, "n_point": len(Y), "model": Obj("model", is_fitted=True), "model.is_fitted": True})
            got = [[0.1], [0.2]][:len(Y)]
            d.fns["BaseBO.ask"] = d.fns["BO.ask"] = lambda *a, **k: got if et == "list" else [{"p0": x[0]} for x in got]
            d.fns["mcall:inverse_transform"] = lambda D, t, recv, a: np.array(Y)
            X = d.ev(r)
            if et == "dict":
                if any(list(x) != ["x0", "x1", "x2"] for x in X):
                    return False, f"a point is proposed as {list(X)[0]}"
                X = [[x[n] for n in ("x0", "x1", "x2")] for x in X]
            X = np.asarray(X, dtype=float)
            if X.shape != (len(Y), 3):
                return False, f"{len(Y)} points are proposed as {X.tolist()}"
            for x, y in zip(X, Y):
                b = bad(sp, x)
                if b:
                    return False, f"the mapped-back point {y} is proposed with {b}"
        return True
    for et, mini in itertools.product(("list", "dict"), (True, False)):
        ctx.ob(f"reduced:proposal/{et}/{mini}", ctx.where(f), "proposals mapped back from the reduced space are brought into the original bounds", lambda: go(et, mini))
