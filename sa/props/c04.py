import ast

from ..askmodel import *  # noqa
from .c02 import get, hist, situations, free, ORDER

TECHNIQUE = "constraint-routing dataflow through constructor+ask sessions, feasibility evaluation of restart driver and sampler summaries, exception-wrapping analysis of every constraint call site"
RULE = ("Constraint routing and feasibility: construction followed by ask() is evaluated for every optimizer class, every way a point can be proposed and every combination of user constraints; each "
        "function handed to the search / the sampler as equality or inequality constraint is applied to points and must evaluate the user's function of that role and return its value. The restart driver "
        "and the constrained sampler are evaluated on scripted candidates of known constraint values: what is returned must be feasible after rounding. Every call site of a constraint function must lie "
        "inside a handler that turns a failure into ConstraintEvaluationError, and no caller may swallow it.")

CLASSES = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "NoisyBO": "UCB", "MOBO": "EHVI", "MultiAcquisitionBO": "MGFI"}
CTOL, STOL = 0.1, 0.01


def check(ctx):
    routing(ctx)
    wrapper(ctx)
    restart(ctx)
    sampler(ctx)
    roles(ctx)
    failures(ctx)
    reduced(ctx)


# ------------------------------------------------------------------ from the constructor to the search and the sampler
def routing(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        for h, g in ((True, False), (False, True), (True, True)):
            for fixed in (None, {"k": 7}):
                for name, n, fitted, script, H in situations(cname, fixed or {}):
                    tag = f"{cname}/{'h' * h}{'g' * g}/{name}/{'fixed' if fixed else 'free'}"
                    memo = []

                    def run(memo=memo):
                        if not memo:
                            try:
                                s, r = get(ctx, cname, acq, "list", h, g)
                                d = ask_dom(ctx, s, mixed(ORDER), n=n, fixed=dict(fixed) if fixed else None, history=H, fitted=fitted, script=dict(script), n_job=script.get("n_job", 1),
                                            **{k: v for k, v in script.items() if k in ("iter_count", "eval_count")})
                                d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
                                d.ev(r)
                                memo.append(d)
                            except (Unknown, Raised) as e:
                                memo.append(e)
                        if isinstance(memo[0], Exception):
                            raise memo[0]
                        return memo[0]

                    def role(which, arg, user, given):
                        d = run()
                        todo = [b for b in d.searches] if which == "search" else [b for _, b in d.samples]
                        sp = Space([v for v in mixed(ORDER).data if v.name not in (fixed or {})])
                        for b in todo:
                            fn = b.get(arg)
                            if not given:
                                if fn is not None:
                                    d.evals.clear()
                                    fn(d.point(sp, 3, 0))
                                    return (False, f"{d.evals[0][0]} is handed over as {arg}= although no such constraint was supplied") if d.evals else None
                                continue
                            if fn is None:
                                return False, f"the {which} is made without the user's {user} constraint"
                            for v in (0.75, -0.5):
                                d.script["constraint"] = v
                                d.evals.clear()
                                try:
                                    for x in (np.array(d.point(sp, 3, 0), dtype=object), d.point(sp, 3, 0)):
                                        out = fn(x)
                                        for who, X in d.raws:
                                            if isinstance(X, np.ndarray):
                                                return False, f"the user's {who} constraint, declared for lists, is called on {'an array of points' if X.ndim > 1 else 'a row of an array'}"
                                except Raised as e:
                                    return False, f"the function handed over as {arg}= cannot be evaluated on a point of the {which}: {e}"
                                who = [e[0] for e in d.evals if e[0] in ("eq", "ineq")]
                                if not who:
                                    raise Unknown("evaluation of the constraint")
                                if who[-1] != user:
                                    return False, f"{who[-1]} is evaluated where {user} belongs ({which}, {arg}=)"
                                if not np.allclose(np.asarray(out, dtype=float).ravel(), [v]):
                                    return False, f"the constraint value {v} reaches the {which} as {out}"
                            tol = b.get("tol")
                            if which == "sample" and tol is not None and float(tol) > STOL:
                                return False, f"points are sampled with the tolerance {tol}"
                        return True
                    for which in ("search", "sample"):
                        ctx.ob(f"eq-{which}:{tag}", w, "the equality constraint of the user, and nothing else, is handed over as such", lambda: role(which, "h", "eq", h))
                        ctx.ob(f"ineq-{which}:{tag}", w, "the inequality constraint of the user, and nothing else, is handed over as such", lambda: role(which, "g", "ineq", g))


def wrapper(ctx):
    """the adapter between points and the user's constraint functions"""
    f = ctx.prog.func("func_with_list_arg", False)
    if f is None:
        return
    P = [[1.5, 2, "u"], [2.5, 3, "v"]]
    for typ in ("list", "dict"):
        for form in ("list", "tuple", "array1", "array2", "lists"):
            def go():
                key = ("fwla",)
                if key not in ctx._sum:
                    ctx._sum[key] = ctx.run(f)
                s = ctx._sum[key]
                seen = []

                def user(x):
                    seen.append(x)
                    return [float(x["a"] if isinstance(x, dict) else x[0]) * 10]
                d = AskDom(ctx, s.I, {"func": Fun("user", user), "arg_type": typ, "var_names": ["a", "b", "c"]}, {})
                fn = d.ev(s.ret)
                if not callable(fn):
                    raise Unknown("adapter")
                rows = P if form in ("array2", "lists") else P[:1]
                A = np.empty((len(rows), 3), dtype=object)
                for i, r in enumerate(rows):
                    for j, v in enumerate(r):
                        A[i, j] = v
                arg = {"list": P[0], "tuple": tuple(P[0]), "array1": A[0], "array2": A, "lists": P}[form]
                try:
                    out = fn(arg)
                except Raised as e:
                    return False, f"the user's constraint cannot be evaluated on {arg}: {e}"
                want = [dict(zip("abc", r)) if typ == "dict" else r for r in rows]
                got = [x if isinstance(x, dict) else list(x) for x in seen]
                if got != want:
                    return False, f"the user's constraint is evaluated on {got} instead of {want}"
                v = np.asarray(out, dtype=float)
                return v.shape == (len(rows),) and np.allclose(v, [r[0] * 10 for r in rows]), f"constraint values {[r[0] * 10 for r in rows]} are returned as {v.tolist()}"
            ctx.ob(f"adapter:{typ}/{form}", ctx.where(f), "the user's constraint sees each point, in its declared form, and its values are returned in order", go)


# ------------------------------------------------------------------ the restart driver
# a candidate before and after rounding, its acquisition value, equality and inequality values of the rounded / unrounded point
def _funs(cands, with_h, with_g, seen):
    def find(x):
        x = float(np.ravel(np.asarray(x, dtype=object))[0])
        for c in cands:
            if x == c["r"]:
                return c, "r"
            if x == c["x"]:
                return c, "x"
        raise Unknown(f"constraint evaluated on {x}")

    def h(x):
        c, k = find(x)
        seen.append(("h", c, k))
        return np.asarray(c["h" + k], dtype=float)

    def g(x):
        c, k = find(x)
        seen.append(("g", c, k))
        return np.asarray(c["g" + k], dtype=float)
    return (h if with_h else None), (g if with_g else None)


def _ok(c, with_h, with_g, tol):
    return (not with_h or all(abs(v) <= tol for v in c["hr"])) and (not with_g or all(v <= 0 for v in c["gr"]))


def cand(i, value, h=(0.0,), g=(-1.0,), hx=None, gx=None):
    return {"x": i + 0.04, "r": float(i), "v": value, "hr": list(h), "gr": list(g), "hx": list(hx if hx is not None else h), "gx": list(gx if gx is not None else g)}


SCENES = {
    "best-infeasible-g": [cand(1, 5.0, g=(0.5,)), cand(2, 1.0)],
    "best-infeasible-g-small": [cand(1, 5.0, g=(1e-6,)), cand(2, 1.0)],
    "best-infeasible-g-second": [cand(1, 5.0, g=(-1.0, 0.3)), cand(2, 1.0, g=(-1.0, -1.0))],
    "best-infeasible-g-first": [cand(1, 5.0, g=(0.3, -1.0)), cand(2, 1.0, g=(-1.0, -1.0))],
    "best-infeasible-g-sum": [cand(1, 5.0, g=(0.3, -9.0)), cand(2, 1.0, g=(-1.0, -1.0))],
    "best-infeasible-h": [cand(1, 5.0, h=(0.2,)), cand(2, 1.0)],
    "best-infeasible-h-negative": [cand(1, 5.0, h=(-0.2,)), cand(2, 1.0)],
    "best-infeasible-h-large": [cand(1, 5.0, h=(-30.0,)), cand(2, 1.0)],
    "best-infeasible-h-cancel": [cand(1, 5.0, h=(0.4, -0.4)), cand(2, 1.0, h=(0.0, 0.0))],
    "best-infeasible-h-second": [cand(1, 5.0, h=(0.0, 0.5)), cand(2, 1.0, h=(0.0, 0.0))],
    "best-infeasible-last": [cand(2, 1.0), cand(1, 5.0, g=(0.5,), h=(0.7,))],
    "both": [cand(1, 5.0, g=(0.5,), h=(0.0,)), cand(2, 4.0, h=(0.5,)), cand(3, 1.0), cand(4, 0.5)],
    "edge": [cand(1, 5.0, g=(0.0,), h=(0.0,)), cand(2, 1.0)],
    "rounding-breaks-g": [cand(1, 5.0, g=(0.5,), gx=(-0.1,)), cand(2, 1.0)],
    "rounding-breaks-h": [cand(1, 5.0, h=(0.5,), hx=(0.0,)), cand(2, 1.0)],
    "only-infeasible": [cand(1, 5.0, g=(0.5,), h=(0.5,)), cand(2, 4.0, g=(0.1,), h=(-0.3,))],
    "middle": [cand(1, 1.0, g=(2.0,), h=(2.0,)), cand(2, 3.0), cand(3, 9.0, g=(2.0,), h=(1.0,))],
}


class RDom(AskDom):
    """the restart driver on scripted outcomes of the inner optimizers"""

    def __init__(self, ctx, I, val, cands):
        super().__init__(ctx, I, val, {})
        self.volatile = {"run", "optimize", "scipy.optimize.fmin_l_bfgs_b"}
        self.ctors = []
        it = lambda: self.bvs.get(0, 0)

        def res(D, t, recv, a):
            c = cands[it()]
            return [c["x"]], c["v"], {"funcalls": 1}
        self.fns.update({"mcall:run": res, "mcall:optimize": res, "mcall:sample": lambda D, t, r, a: np.array([[0.0]]), "scipy.optimize.fmin_l_bfgs_b":
                         lambda *a, **k: (np.array([cands[it()]["x"]]), -cands[it()]["v"], {"warnflag": 0, "funcalls": 1})})
        for n in ("OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "MIES"):
            self.fns[n] = (lambda nm: lambda *a, **k: self.made(nm, a, k))(n)
        self.fns["Penalized"] = lambda *a, **k: self.made("Penalized", a, k)

        def rnd(D, t, recv, a):
            X = self.ev(a[0]) if a[0].op != "kv" else self.ev(a[0].a[1])
            X = np.array(X, dtype=float)
            X = X.reshape(1, -1) if X.ndim == 1 else X
            return np.floor(X)
        self.fns["mcall:round"] = rnd
        self.fns["round"] = self.fns["numpy.round"] = self.rnd

    def rnd(self, x, *a, **k):
        if isinstance(x, Obj) and (a or k):  # the space's own method
            X = np.array((list(a) + list(k.values()))[0], dtype=float)
            return np.floor(X.reshape(1, -1) if X.ndim == 1 else X)
        return np.round(x, *a, **k)

    def made(self, n, a, k):
        self.ctors.append((n, a, k))
        return Obj("opt", eval_count=1)

    def isinst(self, v, k):
        if k.op in ("cls", "mod") and str(k.a[0]).split(".")[-1] == "RealSpace":
            return True
        return super().isinst(v, k)


def restart(ctx):
    f = ctx.prog.func("argmax_restart", False)
    if f is None:
        return

    def summary():
        key = ("argmax",)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
        return ctx._sum[key]
    for optm in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
        for with_h, with_g in ((True, True), (True, False), (False, True)):
            for sname, cands in SCENES.items():
                tag = f"{optm}/{'h' * with_h}{'g' * with_g}/{sname}"

                def run():
                    s = summary()
                    seen = []
                    h, g = _funs(cands, with_h, with_g, seen)
                    val = {"optimizer": optm, "n_restart": len(cands), "wait_iter": 9, "eval_budget": 10 ** 6, "h": Fun("eq", h) if h else None, "g": Fun("ineq", g) if g else None,
                           "search_space.real_id": np.array([0]), "logger": None, "search_space": Obj("space"), "search_space.bounds": [(0.0, 9.0)], "search_space.dim": 1, "obj_func": Obj("criterion")}
                    d = RDom(ctx, s.I, val, cands)
                    try:
                        x, v = d.ev(s.ret)
                    except Unknown:
                        # a driver that consults nothing on the scripted outcomes cannot be decided here
                        raise
                    return d, x, v

                def go():
                    d, x, v = run()
                    good = [c for c in cands if _ok(c, with_h, with_g, CTOL)]
                    xs = np.ravel(np.asarray(x, dtype=object)).tolist()
                    if not xs:
                        return True if not good else (True, "")
                    x0 = float(xs[0])
                    for c in cands:
                        if x0 == c["r"] and c in good:
                            return True
                        if x0 == c["r"]:
                            return False, f"the candidate {c['r']} with equality values {c['hr'] if with_h else '-'} and inequality values {c['gr'] if with_g else '-'} is returned"
                        if x0 == c["x"]:
                            same_ = c["hx"] == c["hr"] and c["gx"] == c["gr"]
                            ok = (not with_h or all(abs(v_) <= CTOL for v_ in c["hx"])) and (not with_g or all(v_ <= 0 for v_ in c["gx"]))
                            if not ok:
                                return False, f"the infeasible candidate {c['x']} is returned"
                            return (False, f"the candidate {c['x']} is returned although the point rounded to the declared precision is {c['r']}") if not same_ or True else True
                    raise Unknown(f"returned point {x}")
                ctx.ob("search:" + tag, ctx.where(f), "the search returns only candidates that satisfy the constraints, tested on the point returned", go)

                def some():
                    d, x, v = run()
                    good = [c for c in cands if _ok(c, with_h, with_g, 0.0)]
                    if not good:
                        return True
                    xs = np.ravel(np.asarray(x, dtype=object)).tolist()
                    if not xs:
                        return False, f"nothing is returned although candidate {good[0]['r']} satisfies the constraints"
                    best = max(c["v"] for c in good)
                    return float(np.ravel(v)[0]) == best, f"value {v} is returned; the best feasible candidate has {best}"
                ctx.ob("found:" + tag, ctx.where(f), "the best feasible candidate is returned when there is one", some)

    for optm in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
        for with_h, with_g in ((True, True), (True, False), (False, True)):
            def ctor():
                s = summary()
                cands = SCENES["edge"]
                seen = []
                h, g = _funs(cands, with_h, with_g, seen)
                H, G = Fun("eq", h) if h else None, Fun("ineq", g) if g else None
                val = {"optimizer": optm, "n_restart": 1, "wait_iter": 9, "eval_budget": 10 ** 6, "h": H, "g": G, "search_space.real_id": np.array([0]), "logger": None, "search_space": Obj("space"),
                       "search_space.bounds": [(0.0, 9.0)], "search_space.dim": 1, "obj_func": Obj("criterion")}
                d = RDom(ctx, s.I, val, cands)
                # the inner optimizer is made where its outcome is read; evaluate every construction that is live
                n = 0
                for e in s.events:
                    if e.kind != "new" or e.name not in ("MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"):
                        continue
                    with d.bind(e.loop[0][1], 0) if e.loop else nullcontext():
                        if d.tri(pcond(e)) is not True:
                            continue
                        c = ctx.cls(e.name)
                        init = c.method("__init__")
                        names = init.args()[1:]
                        b = dict(zip(names, e.args))
                        b.update(e.kw)
                        for r_, want, alts in (("equality", H, ("h", "eq_func", "eq_fun", "equality")), ("inequality", G, ("g", "ineq_func", "ineq_fun", "inequality"))):
                            ks = [k for k in alts if k in names]
                            if not ks:
                                raise Unknown(f"{r_} parameter of {e.name}")
                            t = b.get(ks[0])
                            got = d.ev(t) if t is not None else None
                            if got is not want:
                                return False, f"{e.where}: {e.name} gets {got} as its {r_} constraint instead of {want}"
                        n += 1
                return True if n else None
            ctx.ob(f"inner:{optm}/{'h' * with_h}{'g' * with_g}", ctx.where(f), "the inner optimizer is given both constraints, each in its own role", ctor)


# ------------------------------------------------------------------ the constrained sampler
def sampler(ctx):
    f = ctx.method("SearchSpace", "sample")
    dflt = dict(zip(f.args()[::-1], f.node.args.defaults[::-1])).get("tol")
    tol = float(dflt.value) if isinstance(dflt, ast.Constant) else 1e-2

    def summary():
        key = ("csample",)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f, ctx.cls("SearchSpace"), opaque=("Solution", "Node", "SCMC"), opaque_funcs=("SearchSpace._sample", "SearchSpace.round"))
        return ctx._sum[key]
    sets = {
        "all": [cand(i, 0.0) for i in range(12)],
        "none": [cand(i, 0.0, h=(0.5,), g=(0.5,)) for i in range(12)],
        "some": [cand(i, 0.0, h=(0.02 if i % 3 == 0 else 0.0,), g=(0.5 if i % 2 else -0.5,)) for i in range(12)],
        "edge": [cand(i, 0.0, h=(-0.02 if i % 3 == 0 else 0.0,), g=(1e-9 if i % 2 else 0.0,)) for i in range(12)],
        "vector": [cand(i, 0.0, h=(0.0, -0.4 if i % 3 == 0 else 0.0), g=(-3.0, 0.4 if i % 2 else -1.0)) for i in range(12)],
        "vector-first": [cand(i, 0.0, h=(-0.4 if i % 3 == 0 else 0.0, 0.4 if i % 3 == 0 else 0.0), g=(0.4 if i % 2 else -1.0, -5.0)) for i in range(12)],
        "rounding": [cand(i, 0.0, h=(0.5 if i % 3 == 0 else 0.0,), hx=(0.0,), g=(0.5 if i % 2 else -0.5,), gx=(-0.5,)) for i in range(12)],
        "one": [cand(i, 0.0, h=(0.5 if i != 4 else 0.0,), g=(0.5 if i != 4 else 0.0,)) for i in range(12)],
    }
    for sname, cands in sets.items():
        for with_h, with_g in ((True, True), (True, False), (False, True)):
            for N in (1, 3, 12):
                def run():
                    s = summary()
                    seen = []
                    h, g = _funs(cands, with_h, with_g, seen)
                    d = AskDom(ctx, s.I, {"N": N, "method": "uniform", "h": Fun("eq", h) if h else None, "g": Fun("ineq", g) if g else None, "tol": tol, "self.dim": 1, "self.real_id": np.array([0])}, {})

                    def rows(n):
                        return np.array([[c["x"]] for c in cands[:n]], dtype=object)
                    made = []
                    d.fns["SCMC"] = lambda *a, **k: made.append((a, k)) or Obj("SCMC")
                    d.fns["mcall:sample"] = lambda D, t, r, a: rows(int(d.args(a)[0][0] if d.args(a)[0] else list(d.args(a)[1].values())[0]))
                    d.fns["SearchSpace._sample"] = lambda self, *a, **k: rows(int((list(a) + list(k.values()))[0]))
                    d.fns["SearchSpace.round"] = lambda self, *a, **k: np.floor(np.array((list(a) + list(k.values()))[0], dtype=float)).astype(object)
                    d.fns["numpy.random.choice"] = lambda n, size=None, replace=True, **k: np.arange(n)[::-1][:size] if size <= n else None
                    S = np.asarray(d.ev(s.ret), dtype=object)
                    return d, [float(r[0]) for r in S.reshape(-1, 1)], made

                def go():
                    d, S, made = run()
                    for x in S:
                        hit = [c for c in cands if x in (c["r"], c["x"])]
                        if not hit:
                            raise Unknown(f"sampled point {x}")
                        c = hit[0]
                        if x == c["x"]:
                            return False, f"the sampled point {x} is not rounded to the declared precision ({c['r']})"
                        if not _ok(c, with_h, with_g, STOL):
                            return False, f"a point with equality values {c['hr'] if with_h else '-'} and inequality values {c['gr'] if with_g else '-'} is returned by sample(N={N})"
                    return len(S) <= N, f"{len(S)} points are returned by sample(N={N})"
                ctx.ob(f"sample:{sname}/{'h' * with_h}{'g' * with_g}/{N}", ctx.where(f), "constrained sampling returns only points that satisfy the constraints, tested on the points returned", go)

    def walk():
        """the constraint values that steer the sampler"""
        s = summary()
        for hv, gv in (((-0.5,), (-1.0,)), ((0.5,), (2.0,)), ((0.0,), (-1.0,)), ((0.25, -0.75), (-1.0, 0.5))):
            for with_h, with_g in ((True, True), (True, False), (False, True)):
                h = Fun("eq", lambda x: np.array(hv)) if with_h else None
                g = Fun("ineq", lambda x: np.array(gv)) if with_g else None
                d = AskDom(ctx, s.I, {"N": 1, "method": "uniform", "h": h, "g": g, "tol": 1e-2}, {})
                for e in s.events:
                    if e.kind == "new" and e.name == "SCMC" and d.tri(pcond(e)) is not False:
                        init = ctx.cls("SCMC").method("__init__")
                        b = dict(zip(init.args()[1:], e.args))
                        b.update(e.kw)
                        t = b.get("constraints")
                        if t is None:
                            raise Unknown("constraints of the sampler")
                        fn = d.ev(t)
                        fns = fn if isinstance(fn, (list, tuple)) else [fn]
                        got = sorted(float(v) for q in fns for v in np.ravel(np.asarray(q([0.5]), dtype=float)))
                        want = sorted(([abs(v) for v in hv] if with_h else []) + (list(gv) if with_g else []))
                        if any(abs(a - b_) > 1e-12 for a, b_ in zip(got, want)) or len(got) != len(want):
                            return False, f"equality values {hv if with_h else '-'} and inequality values {gv if with_g else '-'} steer the sampler as {got}"
                        break
                else:
                    raise Unknown("construction of the sampler")
        return True
    ctx.ob("sample:steering", ctx.where(f), "the sampler is steered by the magnitude of the equality values and by the inequality values", walk)


# ------------------------------------------------------------------ roles inside the optimizers
def roles(ctx):
    def eqn(name):
        return lambda x: (_ for _ in ()).throw(Unknown("unexpected call"))
    for cname, meth, pre in (("Penalized", "__call__", {}), ("OnePlusOne_CMA", "penalize", {}), ("OnePlusOne_Cholesky_CMA", "penalize", {}), ("MIES", "evaluate", {})):
        c = ctx.prog.cls(cname, False)
        if c is None or c.method(meth) is None:
            continue
        f = c.method(meth)

        def go():
            fp = ctx.func("dynamic_penalty")
            init = c.method("__init__")
            names = init.args()[1:]
            I = Interp(ctx.prog, opaque={"Solution", "SearchSpace"}, opaque_funcs={"dynamic_penalty", "finite_difference", "get_logger", "set_bounds"} | {f"{k.name}.{m}" for k in ctx.prog.all_classes() for m in ("tell", "evaluate", "penalize") if k.name in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA", "MIES")}, budget=400000)
            o = I.new_obj(c, False)
            I.st.pc = ()
            I.call_func(init, [o], {n: I.fresh(mk("sym", n)) for n in names if n not in ("x0",)}, init.node)
            I.opaque_funcs = {"dynamic_penalty", "finite_difference"}
            m = len(I.events)
            I.call_func(f, [o] + [I.fresh(mk("sym", n)) for n in f.args()[1:2]], {}, f.node)
            es = [e for e in I.events[m:] if e.name and e.name.split(".")[-1] in ("dynamic_penalty", "finite_difference")]
            if not es:
                raise Unknown("penalty")
            from .c05 import bound
            for e in es:
                args, kw = list(e.args), dict(e.kw)
                if e.name.split(".")[-1] == "finite_difference":
                    b = kw
                else:
                    b = bound(ctx, fp, e)
                for role, alts in (("equality", ("h", "eq_func")), ("inequality", ("g", "ineq_func"))):
                    t = b.get(role)
                    want = [a for a in alts if a in names]
                    if not want:
                        raise Unknown("constraint parameter")
                    if t is None or t == NONE:
                        return False, f"{e.where}: the penalty ignores the {role} constraint"
                    syms = {x.a[0] for x in subterms(I.deep(t)) if x.op == "sym"}
                    if want[0] not in syms:
                        return False, f"{e.where}: {sorted(syms)} is penalised as the {role} constraint"
            return True
        ctx.ob(f"roles:{cname}", ctx.where(f), "the penalty is computed from both constraints, each in its own role", go)


# ------------------------------------------------------------------ failing constraints
CONS = {"h", "g", "equality", "inequality", "self.h", "self.g", "self.eq_func", "self.ineq_func", "self._h", "self._g", "eq", "ineq"}
BROAD = ("Exception", "BaseException")


def catches(t):
    """'all' / 'some' : which exceptions the handler takes"""
    if t == NONE:
        return "all"
    ts = t.a if t.op == "tuple" else [t]
    return "all" if any(x.op in ("mod", "cls") and str(x.a[0]).split(".")[-1] in BROAD for x in ts) else "some"


def converts(h):
    """the handler ends in ConstraintEvaluationError: True / False / None"""
    t, evs, fell = h
    rs = [e for e in evs if e.kind == "raise"]
    if fell:
        return False
    out = True
    for e in rs:
        if not e.args:
            out = out and None
            continue
        x = e.args[0]
        n = [str(y.a[1] if y.op == "obj" else y.a[0]).split(".")[-1] for y in subterms(x) if y.op in ("obj", "cls", "call", "new")]
        if "ConstraintEvaluationError" in n or any("ConstraintEvaluationError" in str(y) for y in (show(x, 3),)):
            continue
        return False
    return out if rs else None


def outcome(tries):
    """what becomes of a failure inside the nested handlers (innermost last)"""
    state = "raw"
    for info in reversed(tries):
        for h in info["handlers"]:
            k = catches(h[0])
            nm = show(h[0], 3)
            if state == "converted":
                if k == "all" or "ConstraintEvaluationError" in nm:
                    if h[2]:
                        return False, f"the ConstraintEvaluationError is swallowed by the handler at line {info['node'].lineno}"
                    if converts(h) is False:
                        return False, f"the ConstraintEvaluationError is replaced by the handler at line {info['node'].lineno}"
                    break
                continue
            c = converts(h)
            if k == "some":
                if c is False:
                    return False, f"a failure of type {nm} is swallowed or changed by the handler at line {info['node'].lineno}"
                continue
            if c is None:
                raise Unknown("handler")
            if c is False:
                return False, f"the failure is swallowed or changed by the handler at line {info['node'].lineno}"
            state = "converted"
            break
    return (True, "") if state == "converted" else (False, "the exception of the user's function reaches the caller as it is")


def is_constraint(e):
    if e.kind != "acall" or not e.args:
        return False
    t = e.args[0]
    n = show(t, 6)
    return n in CONS


def failures(ctx):
    def sites(run, extra=None):
        s = run()
        out = [e for e in s.events if is_constraint(e)]
        if not out:
            raise Unknown("no constraint call site found")
        for e in out:
            ok, why = outcome(e.tries)
            if not ok:
                return False, f"{e.where}: when {show(e.args[0], 4)} fails, {why}"
        return True, f"{len(out)} call sites"
    f = ctx.method("SearchSpace", "sample")
    ctx.ob("failure:sample", ctx.where(f), "a failing constraint surfaces as ConstraintEvaluationError", lambda: sites(
        lambda: ctx.run(f, ctx.cls("SearchSpace"), opaque=("Solution", "Node"), opaque_funcs=("SearchSpace._sample", "SearchSpace.round"))))
    p = ctx.func("dynamic_penalty")
    ctx.ob("failure:penalty", ctx.where(p), "a failing constraint surfaces as ConstraintEvaluationError", lambda: sites(lambda: ctx.run(p)))
    a = ctx.func("argmax_restart")
    ctx.ob("failure:search", ctx.where(a), "a failing constraint surfaces as ConstraintEvaluationError", lambda: sites(
        lambda: ctx.run(a, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))))
    # nobody on the way up swallows it: calls of the search, the sampler and the penalty
    todo = [("Penalized", "__call__", "dynamic_penalty"), ("OnePlusOne_CMA", "step", "dynamic_penalty"), ("OnePlusOne_Cholesky_CMA", "step", "dynamic_penalty"), ("MIES", "optimize", "dynamic_penalty")]
    for cname, meth, callee in todo:
        c = ctx.prog.cls(cname, False)
        if c is None or c.method(meth) is None:
            continue

        def go():
            s = ctx.summ(cname, meth, opaque_funcs=("dynamic_penalty", "finite_difference"))
            es = [e for e in s.events if e.name and e.name.split(".")[-1] in ("dynamic_penalty", "finite_difference", "penalize") or is_constraint(e) or e.kind == "acall" and "_penalty_func" in show(e.args[0], 4)]
            if not es:
                raise Unknown("no penalty call")
            for e in es:
                for info in e.tries:
                    for h in info["handlers"]:
                        if (catches(h[0]) == "all" or "ConstraintEvaluationError" in show(h[0], 3)) and h[2]:
                            return False, f"{e.where}: a failing constraint is swallowed by the handler at line {info['node'].lineno}"
            return True
        ctx.ob(f"failure:{cname}.{meth}", ctx.where(c.method(meth)), "a failing constraint is not swallowed", go)
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")

        def go():
            s, r = get(ctx, cname, acq, "list", True, True)
            es = [e for e in s.I.events if e.name and e.name.split(".")[-1] in ("argmax_restart", "sample")]
            if not es:
                raise Unknown("no search or sampler call")
            for e in es:
                for info in e.tries:
                    for h in info["handlers"]:
                        if (catches(h[0]) == "all" or "ConstraintEvaluationError" in show(h[0], 3)) and h[2]:
                            return False, f"{e.where}: a failing constraint is swallowed by the handler at line {info['node'].lineno}"
            return True
        ctx.ob(f"failure:{cname}.ask", f"{f.module.rel}:{f.node.lineno} {cname}.ask", "a failing constraint is not swallowed", go)


def reduced(ctx):
    c = ctx.prog.cls("PCABO", False)
    if c is None:
        return
    f = c.method("ask")

    def go():
        kw = {"search_space": mk("sym", "search_space"), "model": mk("sym","model"), "minimize": True, "n_job": 1, "max_FEs": 100, "eq_fun": mk("sym", "eq"), "ineq_fun": mk("sym", "ineq")}
        s = Session(ctx, "PCABO", kw, opaque=ASK_OPAQUE + ("LinearTransform",), opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
        r = s.call("ask", n_point=1)
        es = [e for e in s.I.events if e.name and e.name.split(".")[-1] == "argmax_restart"]
        if not es:
            raise Unknown("no search")
        for e in es:
            for k in ("h", "g"):
                t = e.kw.get(k)
                if t is None:
                    raise Unknown("constraint")
                t = s.I.deep(t)
                if not any(x.op == "mcall" and x.a[0] == "inverse_transform" or x.op == "closure" and False for x in subterms(t)) and "transform" not in show(t, 9):
                    return False, "the constraints are evaluated on points of the reduced space, while the proposals are mapped back (and clipped) afterwards"
        raise Unknown("composition with the inverse transformation")
    ctx.ob("reduced:PCABO", ctx.where(f), "the dimension-reducing optimizer tests the constraints on the points it proposes", go)


from contextlib import nullcontext  # noqa: E402
