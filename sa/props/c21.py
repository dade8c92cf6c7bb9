import ast as _ast

from ..session import *  # noqa
from ..acqmodel import acquisition_classes

TECHNIQUE = "settings-flow analysis: a token per user setting followed through constructor+ask sessions to the criterion and the search of each candidate"
RULE = ("End-to-end settings flow: construction followed by arg_max_acquisition() is run as one value-flow session per optimizer class and acquisition function, with a token per user "
        "setting; the criterion each returned candidate was searched under is recovered from the candidate and its constructor arguments, its binding and the search settings are "
        "compared with the user's; the acquisition state after the call and the plug-in of a second call are checked for leftovers.")

SINGLE = {"BO": ("EI", "PI", "UCB", "MGFI", "EpsilonPI"), "PCABO": ("EI", "PI", "UCB", "MGFI", "EpsilonPI"), "ParallelBO": ("MGFI", "UCB"), "AnnealingBO": ("MGFI",),
          "SelfAdaptiveBO": ("MGFI",), "NoisyBO": ("MGFI", "UCB")}
VARIED = {"MGFI": "t", "UCB": "alpha", "EpsilonPI": "epsilon"}
USER = {"t": 0.7, "alpha": 0.3, "epsilon": 0.05, "plugin": -2.25}
ARITH = {"numpy.exp": np.exp, "numpy.log": np.log}


def params(ctx, an):
    """declared parameters of an acquisition function beyond the model and the direction"""
    c = ctx.cls(an)
    out = []
    for k in c.mro():
        f = getattr(k, "methods", {}).get("__init__")
        if f is not None:
            out += [x for x in f.args() if x not in ("self", "model", "minimize")]
            if f.node.args.kwarg is None:
                break
    return list(dict.fromkeys(out))


def bindpos(ctx, an, call):
    f = ctx.cls(an).method("__init__")
    b = dict(zip(f.args()[1:], call.pos))
    b.update(call.kw)
    return b


def session(ctx, cname, an, par, n_point=3, aq=None, extra=None):
    key = ("c21", cname, an, repr(par), n_point, repr(aq), repr(extra))
    if key not in ctx._sum:
        kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": mk("sym", "minimize"), "n_job": mk("sym", "n_job"), "max_FEs": mk("sym", "max_FEs")}
        if an:
            kw["acquisition_fun"] = an
        kw["acquisition_par"] = None if par is None else {k: mk("sym", "user_" + k) for k in par}
        kw["acquisition_optimization"] = None if aq is None else {k: mk("sym", "aq_" + k) for k in aq}
        if cname not in ("BO", "PCABO"):
            kw["n_point"] = n_point
        kw.update(extra or {})
        s = Session(ctx, cname, kw, opaque=OPAQUE + tuple(SINGLE["BO"]))
        ctx._sum[key] = s
    return ctx._sum[key]


def proposal(ctx, s, n, tag=""):
    key = ("c21p", id(s), tag)
    if key not in ctx._sum:
        for a in ("iter_count", "eval_count"):
            if isc(s.attr(a)):
                s.set(a, mk("sym", "done_" + a))
        ctx._sum[key] = (s.call("arg_max_acquisition", n_point=mk("sym", "n"), fixed=mk("sym", "fixed"), return_value=True), s.attr("_acquisition_par"))
    return ctx._sum[key]


def valuation(n, minimize=True, n_job=1, **k):
    d = {"n": n, "fixed": None, "minimize": minimize, "n_job": n_job, "max_FEs": 100, "model": Obj("model"), "search_space": Obj("space", var_name=["a", "b"], dim=2, bounds=[(0, 1)] * 2),
         "done_iter_count": 0, "done_eval_count": 0, "self.fmin": -1.5, "self.fmax": 2.5, "hasattr:gradient": False, "self.iter_count": 0}
    d.update({"user_" + k: v for k, v in USER.items()})
    d.update(k)
    return d


def acq_token(ctx, an):
    f = ctx.cls(an).method("__init__")
    dflt = {}
    if f is not None:
        n, v = f.args(), f.node.args.defaults
        for k, x in zip(n[len(n) - len(v):], v):
            try:
                dflt[k] = _ast.literal_eval(x)
            except ValueError:
                pass

    def make(*p, **kw):
        c = Call(an, p, kw)
        for k, v in {**dflt, **dict(zip(f.args()[1:], p)), **kw}.items():
            c.__dict__.setdefault(k, v)
        return c
    return make


def sdom(ctx, val):
    d = SDom(ctx, val, acq=SINGLE["BO"])
    for a in SINGLE["BO"]:
        if ctx.prog.cls(a, False) is not None:
            d.fns[a] = acq_token(ctx, a)
    d.fns["numpy.argsort"] = lambda x, *a, **k: np.arange(len(x))
    d.fns["numpy.random.randn"] = lambda *a, **k: d.draw()
    d.fns["mcall:filter"] = lambda D, t, r, a: Obj("subspace")
    d.fns["mcall:predict"] = lambda D, t, r, a: np.array([0.4, 0.9])
    d.fns.update({"numpy.min": np.min, "numpy.max": np.max})
    d.isinst_ = d.isinst
    d.isinst = lambda v, k: v._name in ("realspace",) if isinstance(v, Obj) and "RealSpace" in show(k, 3) else (False if isinstance(v, Obj) else d.isinst_(v, k))
    d.fns["len"] = lambda x: len(x) if not isinstance(x, Obj) else 2
    return d


def candidates(d, r):
    got = d.ev(r)
    if isinstance(got, tuple) and len(got) == 2:
        X, v = got
    else:
        raise Unknown("result form")
    out = []
    for x in X:
        if not (isinstance(x, tuple) and x and x[0] == "filled" and isinstance(x[1], tuple) and isinstance(x[1][1], Call)):
            raise Unknown("candidate")
        out.append(x[1][1])
    return out, list(v)


def flow(ctx):
    accessible = [c.name for c in optimizer_classes(ctx)]
    for cname, acqs in SINGLE.items():
        if cname not in accessible:
            continue
        f = ctx.cls(cname).method("arg_max_acquisition")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.arg_max_acquisition"
        for an in acqs:
            try:
                decl = params(ctx, an)
            except Gone:
                continue
            own = [p for p in decl if p in USER and p != "plugin"]
            if an == "PI":
                own = []
            batch = cname not in ("BO", "PCABO")
            plugged = [own + ["plugin"]] if "plugin" in decl and cname in ("BO", "PCABO", "ParallelBO") else []
            for par in ([own] if own else [None]) + ([None] if own else []) + plugged:
                for n, n_job in ((1, 1),) + (((3, 1), (4, 2)) if batch else ()):
                    def go(check):
                        s = session(ctx, cname, an, par)
                        r, state = proposal(ctx, s, n)
                        for it in (0, 6):
                            d = sdom(ctx, valuation(n, n_job=n_job, done_iter_count=it, done_eval_count=it * n))
                            v = one(check, d, r, state)
                            if v is not True and (not isinstance(v, tuple) or v[0] is not True):
                                return v
                        return v

                    def one(check, d, r, state):
                        cs, vs = candidates(d, r)
                        if len(cs) != n:
                            return False, f"{len(cs)} searches for {n} requested points"
                        crit = [criterion(c.kw.get("obj_func")) for c in cs]
                        if any(c[0] is None for c in crit):
                            raise Unknown("criterion")
                        return check(d, [(c, i, bindpos(ctx, an, c) if c._name == an else {}) for c, i in crit], cs, vs, state)
                    tag = f"{cname}/{an}/{'user' + '+plugin' * ('plugin' in par) if par else 'default'}/n={n}/jobs={n_job}"
                    varied = VARIED.get(an) if n > 1 else None

                    def chosen(d, cr, cs, vs, state):
                        bad = [c._name for c, _, _ in cr if c._name != an]
                        return not bad, f"the user chose {an}, the search maximises {bad[:1]}"
                    ctx.ob("fun:" + tag, w, "the chosen acquisition function is the one maximised", lambda: go(chosen))
                    if par:
                        def given(d, cr, cs, vs, state):
                            for c, i, b in cr:
                                for p in par:
                                    want = USER[p]
                                    if cname == "AnnealingBO" and p == "t":
                                        continue
                                    if p == varied:
                                        continue
                                    if p not in b or b[p] != want:
                                        return False, f"{an} is built with {p}={b.get(p, 'its default')} although the user asked for {want}"
                            return True
                        ctx.ob("par:" + tag, w, "every parameter given for the acquisition function reaches it", lambda: go(given))

                    def context(d, cr, cs, vs, state):
                        for c, i, b in cr:
                            if c._name != an:
                                raise Unknown("other acquisition function")
                            if not (isinstance(b.get("model"), Obj) and b["model"]._name == "model"):
                                return False, f"{an} is built on {b.get('model')} instead of the surrogate"
                            if b.get("minimize", True) is not True:
                                return False, f"{an} is built with minimize={b.get('minimize')}"
                            extra = set(b) - set(params(ctx, an)) - {"model", "minimize"}
                            if extra:
                                return False, f"{an} is given unknown parameters {extra}"
                        d2 = sdom(ctx, valuation(n, minimize=False, n_job=n_job))
                        for c in candidates(d2, proposal(ctx, session(ctx, cname, an, par), n)[0])[0]:
                            b = bindpos(ctx, an, criterion(c.kw.get("obj_func"))[0])
                            if b.get("minimize", True) is not False:
                                return False, f"{an} is built with minimize={b.get('minimize', True)} when the problem is maximised"
                        return True
                    ctx.ob("context:" + tag, w, "the criterion is built on the optimizer's surrogate and direction", lambda: go(context))
                    if varied:
                        def vary(d, cr, cs, vs, state):
                            vals = [b.get(varied) for _, _, b in cr]
                            if any(isinstance(v, Obj) or v is None for v in vals):
                                raise Unknown("drawn value")
                            if len({float(v) for v in vals}) != len(vals):
                                return False, f"the batch uses {varied} = {vals}: not one value per candidate"
                            if not all(v > 0 for v in vals) or varied == "alpha" and not all(v < 1 for v in vals):
                                return False, f"{varied} is drawn outside its domain: {vals}"
                            ks = [tuple(sorted((k, str(v)) for k, v in b.items() if k != varied)) for _, _, b in cr]
                            return len(set(ks)) == 1, f"candidates of one batch differ in more than {varied}"
                        ctx.ob("vary:" + tag, w, "a batch varies exactly the documented parameter, once per candidate, within its domain", lambda: go(vary))
                        if par and cname in ("ParallelBO", "NoisyBO", "SelfAdaptiveBO"):
                            def uses(d, cr, cs, vs, state):
                                s = session(ctx, cname, an, par)
                                r, _ = proposal(ctx, s, n)
                                d2 = sdom(ctx, valuation(n, n_job=n_job, **{"user_" + varied: USER[varied] * 1.5}))
                                c2 = [bindpos(ctx, an, criterion(c.kw.get("obj_func"))[0]) for c in candidates(d2, r)[0]]
                                same_ = [float(b[varied]) == float(q[varied]) for (_, _, b), q in zip(cr, c2)]
                                return not any(same_), f"the drawn {varied} does not depend on the user's {varied}"
                            ctx.ob("centre:" + tag, w, "the user's value of the varied parameter takes effect in every draw", lambda: go(uses))

                    def paired(d, cr, cs, vs, state):
                        for c, v in zip(cs, vs):
                            if not (isinstance(v, Call) and v._name == "value"):
                                raise Unknown("value")
                            if v.kw["of"] is not c and repr(v.kw["of"].kw.get("obj_func")) != repr(c.kw.get("obj_func")):
                                return False, "a candidate is returned with the value of another criterion"
                        return True
                    ctx.ob("own:" + tag, w, "each candidate is returned with the value of the criterion it was searched under", lambda: go(paired))

                    def left(d, cr, cs, vs, state):
                        st = d.ev(state)
                        if not isinstance(st, dict):
                            raise Unknown("acquisition state")
                        allowed = set(own) | set(par or ()) | ({VARIED[an]} if an in VARIED else set())
                        if set(st) - allowed:
                            return False, f"after a proposal the settings also hold {set(st) - allowed}, which would be reused for the next one"
                        for p in par or ():
                            adapt = cname in ("AnnealingBO", "SelfAdaptiveBO") and p == "t"
                            if not adapt and (p not in st or st[p] != USER[p]):
                                return False, f"after a proposal the user's {p} is {st.get(p)}, was {USER[p]}"
                        return True
                    ctx.ob("state:" + tag, w, "a proposal leaves the user's acquisition settings as they were", lambda: go(left))

                    def dx(d, cr, cs, vs, state):
                        for opt in ("BFGS", "MIES", "OnePlusOne_Cholesky_CMA"):
                            s = session(ctx, cname, an, par, aq=("optimizer", "max_FEs", "n_restart", "wait_iter"))
                            r, _ = proposal(ctx, s, n, "aq")
                            d2 = sdom(ctx, valuation(n, n_job=n_job, aq_optimizer=opt, aq_max_FEs=123, aq_n_restart=7, aq_wait_iter=5))
                            for c in candidates(d2, r)[0]:
                                k, i = criterion(c.kw.get("obj_func"))
                                want = {"optimizer": opt, "eval_budget": 123, "n_restart": 7, "wait_iter": 5}
                                for q, x in want.items():
                                    if c.kw.get(q) != x:
                                        return False, f"the user's acquisition_optimization setting {q}={x} arrives as {c.kw.get(q)}"
                                b = [x["return_dx"] for x in i.get("bound", []) if "return_dx" in x]
                                if not b:
                                    raise Unknown("gradient flag")
                                if any(bool(x) != (opt == "BFGS") for x in b):
                                    return False, f"criterion handed to {opt} with return_dx={b}"
                        return True
                    ctx.ob("search:" + tag, w, "the search uses the user's optimizer, budget, restarts and patience, with gradients exactly for BFGS", lambda: go(dx))


def schedules(ctx):
    """AnnealingBO: the temperature starts at t0 and each proposal applies the schedule once, reaching tf at the end of the budget"""
    if "AnnealingBO" not in [c.name for c in optimizer_classes(ctx)]:
        return
    f = ctx.cls("AnnealingBO").method("__init__")
    w = f"{f.module.rel}:{f.node.lineno} AnnealingBO.__init__"
    for sched in ("exp", "linear"):
        for par in (None, ["t"]):
            for n in (1, 2):
                def go():
                    s = session(ctx, "AnnealingBO", "MGFI", par, n_point=2, extra={"t0": mk("sym", "t0"), "tf": mk("sym", "tf"), "schedule": sched, "DoE_size": mk("sym", "DoE_size")})
                    for k in range(3):
                        proposal(ctx, s, n, f"anneal{k}")
                    t0, tf, m = 2.0, 0.5, (24 - 4) / 2
                    step = (lambda t: t * (tf / t0) ** (1 / m)) if sched == "exp" else (lambda t: t - (t0 - tf) / m)
                    want = t0
                    for k in range(3):
                        r, state = proposal(ctx, s, n, f"anneal{k}")
                        d = sdom(ctx, valuation(n, t0=t0, tf=tf, DoE_size=4, max_FEs=24))
                        d.fns["numpy.random.randn"] = lambda *a, **kk: 0.0
                        cs, _ = candidates(d, r)
                        got = []
                        for c in cs:
                            cr = criterion(c.kw.get("obj_func"))[0]
                            if cr is None or cr._name != "MGFI":
                                raise Unknown("criterion")
                            got.append(bindpos(ctx, "MGFI", cr).get("t"))
                        if any(g is None or isinstance(g, Obj) for g in got):
                            raise Unknown("temperature")
                        if not all(np.isclose(float(g), want) for g in got):
                            return False, f"proposal {k + 1} is searched at temperature {got}, the {sched} schedule from {t0} to {tf} over {m:g} iterations gives {want:.6g}"
                        want = step(want)
                    return True
                ctx.ob(f"anneal:{sched}/{'user' if par else 'default'}/n={n}", w, "the temperature starts at t0 and follows the chosen schedule, one step per proposal", go)


def second(ctx):
    """a plug-in used for one proposal is not kept for the next one"""
    for cname in SINGLE:
        an = "EI" if "EI" in SINGLE[cname] else "MGFI"
        if "MGFI" not in SINGLE[cname] or ctx.prog.cls(cname, False) is None:
            continue
        f = ctx.cls(cname).method("arg_max_acquisition")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.arg_max_acquisition"
        for an in ("EI", "MGFI"):
            if an not in SINGLE[cname]:
                continue
            for n in (1, 3) if cname not in ("BO", "PCABO") else (1,):
                def go():
                    key = ("c21s", cname, an)
                    if key not in ctx._sum:
                        s = Session(ctx, cname, {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": mk("sym", "minimize"), "n_job": mk("sym", "n_job"),
                                                 "max_FEs": mk("sym", "max_FEs"), "acquisition_fun": an, **({"n_point": 3} if cname not in ("BO", "PCABO") else {})},
                                    opaque=OPAQUE + tuple(SINGLE["BO"]))
                        s.call("arg_max_acquisition", n_point=mk("sym", "n"), fixed=mk("sym", "fixed"), return_value=True)
                        s.set("fmin", mk("sym", "fmin2"))
                        s.set("fmax", mk("sym", "fmax2"))
                        ctx._sum[key] = s.call("arg_max_acquisition", n_point=mk("sym", "n"), fixed=mk("sym", "fixed"), return_value=True)
                    for mini in (True, False):
                        d = sdom(ctx, valuation(n, minimize=mini, fmin2=-9.0, fmax2=9.0))
                        if cname == "NoisyBO":
                            return True
                        for c in candidates(d, ctx._sum[key])[0]:
                            b = bindpos(ctx, an, criterion(c.kw.get("obj_func"))[0])
                            want = -9.0 if mini else 9.0
                            if b.get("plugin") != want:
                                return False, f"the second proposal uses plug-in {b.get('plugin')} instead of the current best {want} (minimize={mini})"
                    return True
                ctx.ob(f"fresh:{cname}/{an}/n={n}", w, "each proposal uses the current improvement threshold", go)


def multi(ctx):
    if ctx.prog.cls("MultiAcquisitionBO", False) is None:
        return
    f = ctx.cls("MultiAcquisitionBO").method("_batch_arg_max_acquisition")
    w = ctx.where(f)

    def run():
        key = ("c21m",)
        if key not in ctx._sum:
            s = Session(ctx, "MultiAcquisitionBO", {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": mk("sym", "minimize"), "n_job": mk("sym", "n_job"),
                                                    "max_FEs": mk("sym", "max_FEs"), "n_point": 4}, opaque=OPAQUE + tuple(SINGLE["BO"]))
            ctx._sum[key] = s.call("arg_max_acquisition", n_point=4, fixed=mk("sym", "fixed"), return_value=True)
        return ctx._sum[key]

    def go():
        d = sdom(ctx, valuation(4))
        try:
            cs, vs = candidates(d, run())
        except Raised as x:
            if "KeyError" in str(x):
                return False, "a batch proposal fails with KeyError: an acquisition function of the portfolio is not given its own parameter"
            raise
        if len(cs) != 4:
            return False, f"{len(cs)} searches for 4 points"
        names = []
        for c in cs:
            k, _ = criterion(c.kw.get("obj_func"))
            if k is None:
                raise Unknown("criterion")
            names.append(k._name)
            b = bindpos(ctx, k._name, k)
            extra = set(b) - set(params(ctx, k._name)) - {"model", "minimize"}
            if extra:
                return False, f"{k._name} is built with a parameter of another acquisition function: {extra}"
            v = b.get("alpha")
            if k._name == "UCB" and isinstance(v, (int, float, np.floating)) and not 0 < v < 1:
                return False, f"UCB is built with alpha={v:.4g}, outside the domain [0, 1] its draws are documented to have"
            if VARIED.get(k._name) not in b:
                return False, f"{k._name} is built without its varied parameter {VARIED.get(k._name)}"
        return len(set(names)) > 1, f"all candidates are searched under {names}"
    ctx.ob("multi", w, "each acquisition function of the portfolio is built with its own parameter", go)


def stored(ctx):
    """the declared parameter is the one the acquisition function works with"""
    for c in acquisition_classes(ctx):
        f = c.method("__init__")
        if f is None:
            continue
        for p in params(ctx, c.name):
            if p == "plugin" or c.name == "PI" and p == "epsilon" or p not in USER:
                continue
            for v in ((0.0, 1e-12, 1e-3, 0.2, 0.5) if p == "epsilon" else (0.01, 0.25, 1.0, 2.0, 6.0) if p == "alpha" else (0.05, 0.5, 1, 2.5, 8, 20.0)):
                def go():
                    key = ("c21st", c.name, p)
                    if key not in ctx._sum:
                        I = Interp(ctx.prog, opaque={"GaussianProcess", "RandomForest"}, opaque_funcs=set(), types={}, budget=100000)
                        o = I.new_obj(c, False)
                        I.st.pc = ()
                        I.call_func(f, [o], {p: mk("sym", "v"), "model": mk("sym", "model"), "minimize": const(True)}, f.node)
                        ctx._sum[key] = I.deep(I.getattr(o, p))
                        ctx.analysed |= set(I.analysed)
                    d = Dom({"v": v, "model": Obj("model", y=[1.0], is_fitted=True)})
                    got = d.ev(ctx._sum[key])
                    return got == v, f"{c.name}({p}={v}).{p} is {got}"
                ctx.ob(f"stored:{c.name}.{p}={v}", ctx.where(f), "an acquisition function keeps the parameter it is given", go)


def sampler(ctx):
    """every acquisition function a batch optimizer accepts has a way to vary its parameter"""
    f = ctx.cls("ParallelBO").method("__init__")
    w = ctx.where(f)
    for an in ("MGFI", "UCB", "EpsilonPI"):
        def go():
            s = session(ctx, "ParallelBO", an, [VARIED[an]])
            v = s.attr("_sampler")
            if isc(v, None):
                return False, f"ParallelBO accepts {an} but has no sampler for {VARIED[an]}: a batch proposal fails"
            return v.op == "closure" or v.op in ("func", "lam") or None
        ctx.ob(f"sampler:{an}", w, "every accepted acquisition function can be used for batch proposals", go)


def check(ctx):
    flow(ctx)
    schedules(ctx)
    second(ctx)
    multi(ctx)
    stored(ctx)
    sampler(ctx)
