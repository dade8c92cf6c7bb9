import itertools

from ..loader import THOROUGH
from ..tellmodel import *  # noqa
from ..acqmodel import acquisition_classes, table
from .. import algebra as al
from ..algebra import PL, V, Y, sp

TECHNIQUE = "direction (polarity) analysis: value-flow summaries compared with their mirror image in an order domain, plus symbolic monotonicity of acquisition values"
from ..session import Session, OPAQUE  # noqa

RULE = ("Direction analysis: the value-flow summary of every construct that ranks, compares, thresholds or penalises objective or acquisition values is evaluated over all order types of short "
        "value lists, once for minimisation and once mirrored for maximisation; both must pick the same element, and minimisation must pick the smaller one. Acquisition values are "
        "differentiated symbolically: they never fall when the prediction or the improvement threshold gets better.")
ASSUMPTIONS = ["arithmetic is exact negation-symmetric", "the monotonicity of acquisition values is sampled at 8 rational points per case"]
PERM = [list(p) for p in itertools.permutations([1.0, 2.0, 3.0])] + [[2.0, 1.0, 1.0], [3.0, 3.0, 1.0], [-2.0, 0.5, -1.0]]
if THOROUGH:
    PERM += [list(p) for p in itertools.product([1.0, 2.0, 3.0], repeat=3) if len(set(p)) == 2] + [list(p) for p in itertools.permutations([1.0, 2.0, 3.0, 4.0])]


def both(mini, h):
    return list(h) if mini else [-x for x in h]


def check(ctx):
    base(ctx)
    acquisition(ctx)
    plugins(ctx)
    transform(ctx)
    mies(ctx)
    cma(ctx)
    penalty(ctx)
    restart(ctx)
    selfadaptive(ctx)
    mo_sign(ctx)


# ------------------------------------------------------------------ optimizers
def base(ctx):
    seen = set()
    for c in [ctx.cls("BaseOptimizer")] + optimizer_classes(ctx):
        if is_mo(ctx, c):
            continue
        f = c.method("_get_best")
        if f is not None and f.qual not in seen:
            seen.add(f.qual)
            for mini in (True, False):
                for h in PERM:
                    def best():
                        s = ctx.summ(c.name, "_get_best")
                        d = Dom({"self.minimize": mini, f.args()[1]: np.array(both(mini, h))})
                        got = float(np.asarray(d.ev(s.ret)).ravel()[0])
                        want = min(h) if mini else -min(h)
                        return got == want, f"_get_best({both(mini, h)}) with minimize={mini} is {got}"
                    ctx.ob(f"best:{f.qual}/{mini}/{h}".replace(" ", ""), ctx.where(f), "the best value is the smallest when minimising, the largest when maximising", best)
        f = c.method("_compare")
        if f is not None and f.qual not in seen:
            seen.add(f.qual)
            for mini in (True, False):
                for a, b in ((1.0, 2.0), (2.0, 1.0), (-1.0, 0.5), (0.5, -1.0)):
                    def comp():
                        s = ctx.summ(c.name, "_compare")
                        n = f.args()
                        x, y = both(mini, [a, b])
                        got = truthy(Dom({"self.minimize": mini, n[1]: x, n[2]: y}).ev(s.ret))
                        return got == (a < b), f"_compare({x}, {y}) with minimize={mini} is {got}"
                    ctx.ob(f"compare:{f.qual}/{mini}/{a}/{b}", ctx.where(f), "the first value is better exactly when it is ahead in the declared direction", comp)
        f = c.method("check_stop")
        if f is not None and f.qual not in seen:
            seen.add(f.qual)
            for mini in (True, False):
                for best_, tgt in ((1.0, 2.0), (3.0, 2.0), (-3.0, -2.0), (-1.0, -2.0), (0.0, 1.0), (1.0, 0.0)):
                    def stop():
                        s = ctx.summ(c.name, "check_stop")
                        b, t = both(mini, [best_, tgt])
                        d = Dom({"self.eval_count": 1, "self.max_FEs": INF, "self.ftarget": t, "self.stop_dict": {}, "self.minimize": mini, "hasattr:data": True,
                                 "self.data": Sol(["d0", "d1"], both(mini, [best_, best_ + 1]), names=["a"])})
                        got = truthy(d.ev(s.ret))
                        return got == (best_ < tgt), f"check_stop with best {b} and target {t}, minimize={mini}, gives {got}"
                    ctx.ob(f"target:{f.qual}/{mini}/{best_}/{tgt}", ctx.where(f), "the target is reached exactly when the best value is ahead of it in the declared direction", stop)


# ------------------------------------------------------------------ acquisition functions
def acquisition(ctx):
    for c in acquisition_classes(ctx):
        f = c.method("__call__")
        w = f"{f.module.rel}:{f.node.lineno} {c.name}.__call__"
        for k, p in enumerate(al.points()):
            q = dict(p)
            q[Y], q[al.DY] = -p[Y], -p[al.DY]

            def key(ch):
                return tuple(sorted((show(a, 9), b) for a, b in ch.items() if "minimize" not in show(a, 2) and a.op not in ("exc",)))

            def mono(mini):
                pt = p if mini else q
                n = 0
                for ch, v in table(ctx, c, mini, False, pt):
                    v = al.scalar(v)
                    dy = al.value_at(v.diff(Y), pt) * (1 if mini else -1)
                    n += 1
                    if dy > 1e-25:
                        return False, f"{c.name} with minimize={mini} rises when the predicted objective gets worse (derivative {sp.N(dy, 6)} at y={pt[Y]}, v={pt[V]})"
                    dp = al.value_at(v.diff(PL), pt)
                    if dp < -1e-25:
                        return False, f"{c.name} with minimize={mini} falls when the (direction-adjusted) threshold moves away (derivative {sp.N(dp, 6)})"
                return n > 0
            for mini in (True, False):
                ctx.ob(f"monotone:{c.name}/{mini}/{k}", w, "a better prediction never lowers the acquisition value", lambda: mono(mini))

            def mirror(dx):
                a = {key(ch): v for ch, v in table(ctx, c, True, dx, p)}
                b = {key(ch): v for ch, v in table(ctx, c, False, dx, q)}
                m = 0
                for kk in a:
                    if kk not in b:
                        continue
                    x, y = a[kk], b[kk]
                    xs, ys = (x, y) if dx else ((x,), (y,))
                    for i, (u, z) in enumerate(zip(xs, ys)):
                        m += 1
                        g, h = al.value_at(al.scalar(u), p), al.value_at(al.scalar(z), q)
                        if abs(g - h) > 1e-25:
                            return False, f"{c.name}: {'gradient' if i else 'value'} {sp.N(g, 8)} when minimising y={p[Y]} but {sp.N(h, 8)} when maximising -y"
                return True if m else None
            ctx.ob(f"mirror:{c.name}/{k}", w, "the acquisition value of the negated maximisation problem is that of the minimisation problem", lambda: mirror(False))
            ctx.ob(f"mirror-gradient:{c.name}/{k}", w, "so is its gradient", lambda: mirror(True))


def plugins(ctx):
    for c in acquisition_classes(ctx):
        r = c.find("plugin")
        if not r or r[0] is None:
            continue

        def setp(mini, val, ys=None, hasy=False):
            def pre(I, o):
                I.st.heap[(o, "minimize")] = mk("sym", "self.minimize")
            I = Interp(ctx.prog)
            o = I.new_obj(c, False)
            I.st.pc = ()
            I.setattr(o, "plugin", mk("sym", "PLUG"))
            v = I.st.heap.get((o, "_plugin"))
            if v is None:
                v = I.getattr(o, "plugin")
            ctx.analysed.add(f"{c.name}.plugin")
            d = Dom({"self.minimize": mini, "PLUG": val, "hasattr:y": hasy, "self._model.y": np.array(ys) if ys is not None else None, "self.model.y": np.array(ys) if ys is not None else None})
            return d.ev(I.deep(v))
        for p in (-1.5, 0.0, 2.0):
            def given():
                a, b = setp(True, p), setp(False, -p)
                return float(a) == p and float(b) == p, f"threshold {p} is stored as {a} when minimising; {-p} as {b} when maximising"
            ctx.ob(f"plugin:{c.name}/{p}", f"{c.module.rel}:{c.node.lineno} {c.name}.plugin", "a given threshold is mirrored for maximisation and kept for minimisation", given)
        for h in PERM:
            def default():
                a, b = setp(True, None, h, True), setp(False, None, both(False, h), True)
                return float(a) == min(h) and float(b) == min(h), f"default threshold over observed values {h} is {a} when minimising; over {both(False, h)} is {b} when maximising"
            ctx.ob(f"plugin-default:{c.name}/{h}".replace(" ", ""), f"{c.module.rel}:{c.node.lineno} {c.name}.plugin", "the default threshold is the best observed value in the declared direction", default)
    # which value optimizers hand over
    acq = {c.name: c for c in acquisition_classes(ctx)}
    done = set()
    for c in optimizer_classes(ctx):
        if is_mo(ctx, c) or c.name == "ConditionalBO":
            continue
        f = c.method("_create_acquisition")
        if f is None:
            continue
        for an, ac in acq.items():
            if ac.find("plugin")[0] is None:
                continue
            for mini in (True, False):
                if (f.qual, an, mini) in done:
                    continue
                done.add((f.qual, an, mini))

                def over():
                    s, ev = created(ctx, c, an)
                    d = Dom({"self.minimize": mini, "self.fmin": -2.0, "self.fmax": 5.0, "PAR": {}, "self._acquisition_par": {}, "self._acquisition_fun": an, "hasattr:plugin": True})
                    d.fns["mcall:predict"] = lambda D, t, recv, a: np.array([0.5, -2.0, 5.0, 1.0])
                    d.val["self.model"] = Obj("model")
                    d.val["self.data"] = "DATA"
                    kw = kwargs_of(d, ev)
                    want = -2.0 if mini else 5.0
                    if "plugin" not in kw:
                        return None, 'no threshold handed over'
                    return float(kw["plugin"]) == want and truthy(kw.get("minimize")) == mini, \
                        f"{c.name} hands plugin={kw['plugin']} (minimize={kw.get('minimize')}) to {an} although the values range over [-2, 5] and minimize={mini}"
                ctx.ob(f"threshold:{c.name}/{an}/{mini}", ctx.where(f), "the improvement threshold is the best standardised value in the declared direction and the direction is handed on", over)


def created(ctx, c, an, par="PAR"):
    """constructor event of acquisition function `an` inside _create_acquisition"""
    f = c.method("_create_acquisition")
    I_args = []
    names = f.args()[1:]
    args = {"fun": const(an), "par": mk("sym", par), "return_dx": mk("sym", "return_dx"), "fixed": mk("sym", "fixed")}
    s = ctx.summ(c.name, "_create_acquisition", args=[], kw={k: v for k, v in args.items() if k in names or f.node.args.kwarg}, opaque=("Solution", "SearchSpace", an),
                 opaque_funcs=("partial_argument",))
    evs = [e for e in s.events if e.kind == "new" and e.name == an]
    if not evs:
        raise Unknown(f"{an} is not constructed")
    return s, evs


def kwargs_of(d, evs):
    evs = [e for e in evs if live(d, e)]
    if len(evs) != 1:
        raise Unknown("constructor event")
    e = evs[0]
    kw = {}
    for k, v in e.kw.items():
        if v is None:
            continue
        if k == "**":
            kw.update(d.ev(v))
        else:
            kw[k] = d.ev(v)
    return kw


# ------------------------------------------------------------------ dimension reduction
def transform(ctx):
    c = ctx.prog.cls("LinearTransform", False)
    if c is None or c.method("fit") is None:
        return
    f = c.method("fit")
    for h in PERM[:6]:
        def go(mini):
            s = ctx.summ("LinearTransform", "fit")
            X = np.array([[1.0], [2.0], [6.0]])
            import scipy.stats
            d = Dom({"self.minimize": mini, "X": X, "y": np.array(both(mini, h))}, {"scipy.stats.rankdata": scipy.stats.rankdata, "numpy.log": np.log})
            d.fns["mcall:mean"] = lambda D, t, recv, a: np.mean(D.ev(recv), axis=0)
            ev = [e for e in s.events if e.kind == "call" and e.name in ("super.fit", "sklearn.decomposition.PCA.fit") and live(d, e)]
            if len(ev) != 1:
                raise Unknown("PCA fit call")
            Z = np.asarray(d.ev(s.I.deep(ev[0].args[-1])), dtype=float)
            return (Z / (X - X.mean(0))).ravel()

        def ob():
            a, b = go(True), go(False)
            if not np.allclose(a, b):
                return False, f"weights {a.tolist()} for values {h} (minimise) but {b.tolist()} for {both(False, h)} (maximise)"
            o = np.argsort(h)
            return bool(a[o[0]] > a[o[1]] > a[o[2]]), f"weights {a.tolist()} for values {h}: a better point does not weigh more"
        ctx.ob(f"weights:{h}".replace(" ", ""), ctx.where(f), "better points get larger weights in the dimension reduction, mirrored for maximisation", ob)


    b = ctx.prog.cls("PCABO", False)
    if b is None:
        return

    def handed(mini):
        key = ("c05pca",)
        if key not in ctx._sum:
            ctx._sum[key] = Session(ctx, "PCABO", {"search_space": mk("sym", "search_space"), "minimize": mk("sym", "minimize"), "n_components": 2}, opaque=OPAQUE + ("LinearTransform",))
        s = ctx._sum[key]
        es = [e for e in s.I.events if e.kind == "new" and e.name == "LinearTransform"]
        if not es:
            raise Unknown("construction of the dimension reduction")
        d = Dom({"minimize": mini})
        for e in es:
            b = dict(zip(c.method("__init__").args()[1:], e.args))
            b.update(e.kw)
            got = d.ev(b["minimize"]) if "minimize" in b else default(c.method("__init__"), "minimize")
            if got != mini:
                return False, f"PCABO(minimize={mini}) builds its dimension reduction with minimize={got} at {e.where}"
        s2 = Session(ctx, "LinearTransform", {"minimize": mini}, opaque=OPAQUE)
        got = Dom({}).ev(s2.attr("minimize"))
        return got == mini, f"LinearTransform(minimize={mini}) keeps {got}"
    for mini in (True, False):
        ctx.ob(f"weights-direction:{mini}", f"{b.module.rel}:{b.node.lineno} PCABO.__init__", "the dimension reduction weighs the points in the optimizer's own direction", lambda: handed(mini))


def default(f, name):
    import ast
    a = f.node.args
    for x, v in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name and isinstance(v, ast.Constant):
            return v.value
    raise Unknown("default of " + name)


# ------------------------------------------------------------------ internal optimizers
def mies(ctx):
    c = ctx.prog.cls("MIES", False)
    if c is None:
        return
    for mini in (True, False):
        for a, b in ((1.0, 2.0), (2.0, 1.0)):
            def comp():
                f = ctx.method("MIES", "_better")
                n = f.args()
                x, y = both(mini, [a, b])
                got = truthy(Dom({"self.minimize": mini, n[1]: x, n[2]: y}).ev(ctx.summ("MIES", "_better").ret))
                return got == (a < b), f"MIES._better({x}, {y}) with minimize={mini} is {got}"
            if c.method("_better"):
                ctx.ob(f"mies-better:{mini}/{a}/{b}", ctx.where(c.method("_better")), "comparison follows the declared direction", comp)
        for el in (False, True):
            for h in PERM:
                def sel():
                    s = ctx.summ("MIES", "select")
                    par = [2.5, 0.5]
                    d = Dom({"self.minimize": mini, "self.mu_": 2, "self.elitism": el, "self.pop": Sol(["q0", "q1"], [0, 0]), "self.offspring": Sol([f"p{i}" for i in range(len(h))], [0] * len(h)),
                             "self.fitness": np.array(both(mini, par)), "self.f_offspring": np.array(both(mini, h))})
                    pop, fit = d.ev(s.get("pop")), np.asarray(d.ev(s.get("fitness")))
                    allv = dict(zip([f"p{i}" for i in range(len(h))], h))
                    if el:
                        allv.update({"q0": par[0], "q1": par[1]})
                    want = sorted(allv.values())[:2]
                    vals = [allv[r] for r in pop.rows]
                    fv = (fit if mini else -fit).tolist()
                    return sorted(vals) == want and vals == fv and fv[0] == want[0], f"select() of {both(mini, h)} (minimize={mini}, elitism={el}) keeps {pop.rows} with fitness {fit.tolist()}"
                if c.method("select"):
                    ctx.ob(f"mies-select:{mini}/{el}/{h}".replace(" ", ""), ctx.where(c.method("select")), "selection keeps the best individuals in the declared direction, best first, each with its own fitness", sel)
        for h in PERM:
            def init():
                s = ctx.summ("MIES", "__init__", opaque_funcs=("MIES.evaluate",))
                d = Dom({"minimize": mini, "x0": None}, {"MIES.evaluate": lambda *a, **k: np.array(both(mini, h))})
                got = float(np.asarray(d.ev(s.get("fopt"))).ravel()[0])
                want = min(h) if mini else -min(h)
                return got == want, f"initial best of {both(mini, h)} with minimize={mini} is {got}"
            ctx.ob(f"mies-init:{mini}/{h}".replace(" ", ""), ctx.where(c.method("__init__")), "the initial best value follows the declared direction", init)

            def opt():
                q = {n: f"MIES.{n}" for n in ("recombine", "mutate", "evaluate", "stop")}
                s = ctx.summ("MIES", "optimize", opaque_funcs=tuple(q.values()))
                seq = [both(mini, [v, v + 10, v + 20]) for v in h]
                d = Dom({"self.minimize": mini, "self.mu_": 1, "self.elitism": False, "self.lambda_": 3, "self.fopt": both(mini, [2.5])[0], "self.xopt": "x0", "self.iter_count": 0,
                         "self.verbose": False, "self.eval_count": 0, "self.f_offspring": np.zeros(3), "self.fitness": np.zeros(1), "self.pop": Sol(["q"], [0]), "self.stop_dict": {},
                         "self.offspring": Sol([f"p{i}" for i in range(len(h))], [0] * len(h))}, volatile=set(q.values()))
                it = lambda: d.bvs.get(0, len(h))
                d.fns.update({q["stop"]: lambda *a, **k: it() >= len(h), q["evaluate"]: lambda *a, **k: np.array(seq[it()]),
                              q["mutate"]: lambda *a, **k: "m", q["recombine"]: lambda *a, **k: "r", "numpy.random.randint": lambda *a: 0})
                got = float(np.asarray(d.ev(s.get("fopt"))).ravel()[0])
                want = min(h + [2.5])
                return got == (want if mini else -want), f"best value after generations {seq} starting from {both(mini, [2.5])[0]} with minimize={mini} is {got}"
            if c.method("optimize"):
                ctx.ob(f"mies-opt:{mini}/{h}".replace(" ", ""), ctx.where(c.method("optimize")), "the best value over the generations follows the declared direction", opt)


def cma(ctx):
    for n in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA"):
        c = ctx.prog.cls(n, False)
        if c is None or c.method("tell") is None:
            continue
        w = f"{c.method('tell').module.rel}:{c.method('tell').node.lineno} {n}.tell"

        def state(mini, y, pen, cur, curp, attr, run="tell", extra=None):
            def pre(I, o):
                # `_better` as installed by the constructor
                I2 = ctx.summ(n, "__init__")
                v = I2.I.st.heap.get((I2.obj, "_better"))
                return v
            s = ctx.summ(n, run)
            b = better(mini)
            d = Dom({"self.minimize": mini, "self._stop": False, "x": "X1", "y": y, "penalty": pen, "self.xopt": "X0", "self.fopt": cur, "self.fopt_penalized": curp, "self._better": b,
                     "self._x": "C0", "self.ftarget": None, **(extra or {})})
            return d.ev(s.get(attr))

        def better(mini):
            s = ctx.summ(n, "__init__", opaque_funcs=tuple(f"{k.name}.{m}" for k in (c, ctx.cls("OnePlusOne_CMA")) for m in ("evaluate", "penalize", "tell")))
            v = s.attr("_better")
            if v is None:
                raise Unknown("_better")
            I = s.I
            from ..interp import St
            r = I.call(v, [mk("sym", "A"), mk("sym", "B")], {}, s.func.node)
            r = I.deep(r)
            return lambda a, b: truthy(Dom({"minimize": mini, "self.minimize": mini, "A": a, "B": b}).ev(r))
        for mini in (True, False):
            for y, cur in ((1.0, 2.0), (3.0, 2.0), (-1.0, 0.0), (0.5, 0.0)):
                a, b = both(mini, [y, cur])

                def go(attr, new):
                    got = state(mini, a, 0, b, b, attr)
                    want = a if y < cur else b
                    return same(float(np.asarray(got).ravel()[0]), want), f"{n}.tell(value {a}) over best {b} with minimize={mini} leaves {attr}={got}"
                ctx.ob(f"cma-fopt:{n}/{mini}/{y}/{cur}", w, "a told value replaces the best one exactly when it is ahead in the declared direction", lambda: go("fopt", a))
                ctx.ob(f"cma-fpen:{n}/{mini}/{y}/{cur}", w, "so does the penalised best", lambda: go("fopt_penalized", a))

                def xo():
                    got = state(mini, a, 0, b, b, "xopt")
                    return got == ("X1" if y < cur else "X0"), f"{n}.tell(value {a}) over best {b} with minimize={mini} leaves xopt={got}"
                ctx.ob(f"cma-xopt:{n}/{mini}/{y}/{cur}", w, "the best point moves together with the best value", xo)

                def tgt():
                    f = ctx.summ(n, "check_stop")
                    d = Dom({"self.minimize": mini, "self.ftarget": b, "self.fopt": a, "self._better": better(mini), "self.stop_dict": {}, "self.eval_count": 0, "self.max_FEs": INF,
                             "self.sigma": 1.0, "self._sigma": 1.0, "self._delta_f": 1.0, "self.ftol": 0.1, "self._delta_x": 1.0, "self.xtol": 0.1, "self.n_restart": 0, "self._stop": False})
                    got = truthy(d.ev(f.get("_stop")))
                    return got == (y < cur), f"{n}.check_stop with best {a}, target {b}, minimize={mini}: stop={got}"
                if c.method("check_stop"):
                    ctx.ob(f"cma-target:{n}/{mini}/{y}/{cur}", w, "the target test follows the declared direction", tgt)

            def pen():
                s = ctx.summ(n, "penalize")
                xs = s.func.args()[1]
                d = Dom({xs: [0.5, 0.5], "self.h": None, "self.g": lambda x: np.array([2.0]), "self.minimize": mini, "self.iter_count": 3})
                v = float(np.ravel(d.ev(s.ret))[0])
                return (v > 0) == mini and v != 0, f"{n}.penalize of an infeasible point with minimize={mini} is {v}"
            ctx.ob(f"cma-penalty:{n}/{mini}", w, "the penalty moves an infeasible value towards worse", pen)


# ------------------------------------------------------------------ penalties
def penalty(ctx):
    f = ctx.prog.func("dynamic_penalty", False)
    if f is not None:
        for mini in (True, False):
            for kind, h, g, zero in (("ineq", None, lambda x: np.array([2.0, -1.0]), False), ("ineq-ok", None, lambda x: np.array([-2.0, -1.0]), True), ("eq", lambda x: np.array([0.7]), None, False),
                                     ("eq-neg", lambda x: np.array([-0.7]), None, False), ("eq-ok", lambda x: np.array([0.0]), None, True), ("both", lambda x: np.array([0.7]), lambda x: np.array([0.2]), False),
                                     ("ineq-edge", None, lambda x: np.array([0.0]), True), ("none", None, None, True)):
                def go():
                    s = ctx.run(f)
                    n = f.args()
                    d = Dom({"X": [[0.5, 0.5], [0.1, 0.1]], "t": 3, "equality": h, "inequality": g, "C": 0.5, "alpha": 1, "beta": 1.5, "epsilon": 0.1, "minimize": mini})
                    v = np.ravel(d.ev(s.ret)).astype(float)
                    ok = len(v) == 2 and all((x == 0) if zero else ((x > 0) if mini else (x < 0)) for x in v)
                    return ok, f"dynamic_penalty with {kind} constraint values and minimize={mini} is {v.tolist()}"
                ctx.ob(f"penalty:{kind}/{mini}", ctx.where(f), "a penalty worsens the value of infeasible points in the declared direction and leaves feasible ones alone", go)
    c = ctx.prog.cls("MIES", False)
    if c and c.method("evaluate"):
        for mini in (True, False):
            # the direction handed to the penalty inside MIES is decided on the penalty call itself
            def arg():
                s = ctx.summ("MIES", "evaluate", opaque_funcs=("dynamic_penalty",), pre=_pen_pre(ctx))
                es = [e for e in s.events if e.kind == "call" and e.name.split(".")[-1] == "dynamic_penalty"]
                if not es:
                    raise Unknown("no penalty call")
                for e in es:
                    m = bound(ctx, f, e).get("minimize", TRUE)
                    got = truthy(Dom({"self.minimize": mini}).ev(m))
                    if got != mini:
                        return False, f"{e.where}: the penalty is computed for minimize={got} although the search has minimize={mini}"
                return True
            ctx.ob(f"mies-penalty:{mini}", ctx.where(c.method("evaluate")), "the penalty inside the evolution strategy uses the search's own direction", arg)


def _pen_pre(ctx):
    def pre(I, o):
        f = ctx.prog.func("dynamic_penalty", False)
        if f is not None:
            I.st.heap[(o, "_penalty_func")] = I.fterm(f)
    return pre


def bound(ctx, f, e):
    """argument terms of a call event by parameter name"""
    names = f.args()
    out = {}
    for i, a in enumerate(e.args):
        if i < len(names):
            out[names[i]] = a
    for k, v in e.kw.items():
        if v is not None:
            out[k] = v
    return out


# ------------------------------------------------------------------ restarts
def restart(ctx):
    f = ctx.prog.func("argmax_restart", False)
    if f is None:
        return
    import functools

    @functools.lru_cache(None)
    def summary():
        return ctx.run(f, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
    for optm in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
        for h in PERM:
            def go():
                s = summary()
                d = Dom({"optimizer": optm, "n_restart": len(h), "wait_iter": 9, "eval_budget": 10 ** 6, "h": None, "g": None, "search_space.real_id": [], "logger": None, "search_space": Obj("space"),
                         "search_space.bounds": [(0.0, 1.0)]}, volatile={"run", "optimize", "scipy.optimize.fmin_l_bfgs_b"})
                it = lambda: d.bvs.get(0, 0)
                res = lambda D, t, recv, a: (f"x{it()}", h[it()], {"funcalls": 1})
                d.fns.update({"mcall:run": res, "mcall:optimize": res, "mcall:sample": lambda D, t, r, a: [["s"]], "scipy.optimize.fmin_l_bfgs_b":
                              lambda *a, **k: (np.array([float(it())]), -h[it()], {"warnflag": 0, "funcalls": 1})})
                d.isinst = _isinst(d)
                d.fns["OnePlusOne_Cholesky_CMA"] = lambda *a, **k: Obj("opt", eval_count=1)
                d.fns["Penalized"] = lambda *a, **k: "P"
                x, fv = d.ev(s.ret)
                best = max(h)
                i = [j for j, v in enumerate(h) if v == best]
                ok = float(fv) == best and (x in [f"x{j}" for j in i] or x in [[float(j)] for j in i])
                return ok, f"argmax_restart with {optm} over restarts of value {h} returns point {x} with value {fv}"
            ctx.ob(f"restart:{optm}/{h}".replace(" ", ""), ctx.where(f), "the best restart is the one with the highest acquisition value, returned with its own point", go)

    def args():
        s = summary()
        n = 0
        for e in s.events:
            if e.kind == "new" and e.name in ("MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA"):
                n += 1
                m = e.kw.get("minimize")
                if m is None or m.op != "const":
                    return (False, f"{e.where}: {e.name} is created with its default direction (minimisation)") if m is None else None
                if m.a[0]:
                    return False, f"{e.where}: {e.name} minimises the acquisition function"
        return True if n else None
    ctx.ob("restart:direction", ctx.where(f), "the acquisition function is maximised by every inner optimizer", args)
    p = ctx.prog.cls("Penalized", False)
    if p:
        def pen():
            s = ctx.summ("Penalized", "__call__")
            out = []
            for gv in (2.0, -1.0):
                d = Dom({"self.func": lambda x: (2.0, np.array([[3.0], [-4.0]])), "self.h": None, "self.g": lambda x: np.array([gv]), "x": np.array([0.5, 0.25]), "self.t": 10})
                out.append(float(np.ravel(d.ev(s.ret)[0])[0]))
            return out[1] == -2.0 and out[0] > out[1], f"value handed to the minimiser: infeasible {out[0]}, feasible {out[1]} (acquisition 2)"
        ctx.ob("restart:penalized", ctx.where(p.method("__call__")), "the negated problem penalises infeasible points upwards", pen)


def _isinst(d):
    orig = Dom.isinst

    def f(v, k):
        if k.op in ("cls", "mod") and str(k.a[0]).endswith("RealSpace"):
            return True
        return orig(d, v, k)
    return f


def selfadaptive(ctx):
    c = ctx.prog.cls("SelfAdaptiveBO", False)
    if c is None or c.method("_batch_arg_max_acquisition") is None:
        return
    f = c.method("_batch_arg_max_acquisition")
    for h, mini in itertools.product(PERM[:6], (True, False)):
        def go():
            s = ctx.summ("SelfAdaptiveBO", "_batch_arg_max_acquisition", opaque_funcs=("BO._create_acquisition", "BaseBO._create_acquisition", "SelfAdaptiveBO._create_acquisition"))
            t = s.get("_acquisition_par")
            ts = [1.0, 2.0, 4.0, 8.0]
            vals = h + [0.0]
            d = Dom({"n_point": 4, "return_dx": False, "fixed": None, "self.n_job": 1, "self._acquisition_par": {"t": 1.0}, "self.logger": None, "self.minimize": mini},
                    volatile={"numpy.random.randn", "self._argmax_restart"})
            d.fns["numpy.random.randn"] = lambda *a: float(np.log(ts[d.at[-1]]))
            d.fns["acall:self._argmax_restart"] = lambda *a, **k: (f"x{max(d.bvs.values())}", vals[max(d.bvs.values())])
            d.fns["BO._create_acquisition"] = d.fns["BaseBO._create_acquisition"] = lambda *a, **k: "crit"
            got = d.ev(t)["t"]
            o = np.argsort(vals)[::-1][:2]
            want = float(np.mean([ts[i] for i in o]))
            return abs(float(got) - want) < 1e-9, f"values {vals} for t={ts}: next t is {got}, the mean over the best half is {want}"
        ctx.ob(f"adapt:{h}/{mini}".replace(" ", ""), ctx.where(f), "the parameter is adapted towards the settings with the highest acquisition values", go)


def mo_sign(ctx):
    for c in optimizer_classes(ctx):
        if not is_mo(ctx, c) or c.find("y")[0] is None:
            continue
        for mini in ([True, True], [False, False], [True, False], [False, True]):
            def go():
                I = Interp(ctx.prog, opaque={"Solution", "SearchSpace"})
                o = I.new_obj(c, False)
                I.st.pc = ()
                v = I.deep(I.getattr(o, "y"))
                ctx.analysed.add(f"{c.name}.y")
                d = dom(True, dataf=[[1.0, 5.0], [3.0, 4.0], [2.0, 9.0]], minimize=mini)
                y = np.asarray(d.ev(v), dtype=float)
                F = np.array([[1.0, 5.0], [3.0, 4.0], [2.0, 9.0]])
                for k in (0, 1):
                    o_ = np.argsort(F[:, k])
                    if mini[k]:
                        o_ = o_[::-1]
                    z = y[o_, k]
                    if not (z[0] < z[1] < z[2]):
                        return False, f"{c.name}.y for objectives {F[:, k].tolist()} with minimize={mini[k]} is {y[:, k].tolist()}: larger is not better"
                return True
            ctx.ob(f"mo-direction:{c.name}/{mini}".replace(" ", ""), f"{c.module.rel}:{c.node.lineno} {c.name}.y", "internally every objective is maximised, each in its own declared direction", go)
