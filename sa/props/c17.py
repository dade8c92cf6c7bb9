import ast

from ..askmodel import *  # noqa
from ..interp import _Crash
from ..tellmodel import minmax

TECHNIQUE = "typestate analysis of the fitted flag over every exceptional exit of fit(); scale-flow of training targets and plug-in; sign analysis of predicted variances"
RULE = ("Typestate: fit() of every surrogate class is followed with a failure at each call, assertion and raise inside it; the fitted flag must be down at every such exit unless the model's state is still (or already) "
        "that of a completed fit. Construction, tell() and ask() of each optimizer class form one value-flow session: without a fitted surrogate no acquisition function is built or searched, and the improvement "
        "threshold an acquisition function is given must be the best of the very values the surrogate was trained on, which must be an increasing affine image of the recorded ones. Sign analysis shows that the "
        "variance each predict() hands out is a square, a variance or clamped at zero.")

FLAG = "is_fitted"


def surrogates(ctx):
    out = []
    for c in ctx.prog.all_classes():
        if ".surrogate" in c.module.name and "fit" in c.methods and "predict" in c.methods and c.method("__init__") is not None and FLAG in ast.dump(c.node):
            out.append(c)
    return out


def check(ctx):
    for c in surrogates(ctx):
        fitting(ctx, c)
        variance(ctx, c)
    foreign(ctx)
    guard(ctx)
    threshold(ctx)


# ------------------------------------------------------------------ the fitted flag
def fitting(ctx, c):
    f = c.method("fit")
    w = ctx.where(f)
    tag = c.name
    others = [k.name for k in ctx.prog.all_classes() if k is not c and k not in c.mro()]

    def initial():
        g = c.method("__init__")
        if FLAG in c.getters:
            raise Unknown(FLAG + " is a property")
        s = ctx.run(g, c, opaque=others, budget=200000)
        v = s.attr(FLAG)
        if v is None:
            k = c.attrs.get(FLAG) if hasattr(c, "attrs") else None
            raise Unknown("the constructor does not set " + FLAG)
        x = Dom({}).ev(v)
        return x is False or x == 0, f"a new {tag} reports being fitted"
    ctx.ob(f"fitted:new/{tag}", ctx.where(c.method("__init__")), "a new surrogate does not report being fitted", initial)

    flag = []

    def run(crash=None):
        pts, log = [], []
        del flag[:]

        def pre(I, o):
            def watch(e):
                v = I.st.heap.get((o, FLAG))
                if e.kind == "setattr" and e.args and e.args[0] is o:
                    if e.name == FLAG:
                        flag.append((e, level(I.deep(e.args[1]))))
                    if e.name not in (FLAG, "random_state", "verbose"):
                        log.append((e.seq, "set " + e.name, e))
                elif e.kind == "call" and str(e.name).startswith("super."):
                    log.append((e.seq, e.name, e))
                elif e.kind == "mut" and e.args and rooted(I, e.args[0], o):
                    log.append((e.seq, "mut " + str(e.name), e))
                if e.kind in ("call", "mcall", "acall", "new", "raise", "assert"):
                    if e.kind in ("call", "new") and str(e.name).endswith(("Error", "Exception", "Warning")):
                        return  # the construction of an exception about to be raised
                    pts.append((e, I.deep(v) if v is not None else None))
            I.watch, I.crash = watch, crash
        try:
            s = ctx.run(f, c, opaque=others, pre=pre, budget=400000)
            return s, None, pts, log
        except _Crash as x:
            return None, x, pts, log

    def level(v):
        if v is None or v.op == "sym" and v.a[0] == "self." + FLAG:
            return "old"
        try:
            a, b = (truthy(Dom({"self." + FLAG: k}).ev(v)) for k in (True, False))
        except Unknown:
            if v.op == "phi" and all(x.op not in ("exc", "rec", "mu") for x in subterms(v.a[0])):
                # which of the two depends on how the surrogate is set up: both can happen
                if any(x.op == "sym" and x.a[0] == "self." + FLAG for x in subterms(v.a[0])):
                    return None
                x, y = level(v.a[1]), level(v.a[2])
                return None if None in (x, y) else x if x == y else "old" if "old" in (x, y) else True
            return None
        return "old" if a and not b else True if a and b else False if not a and not b else None

    memo = []

    def data():
        if FLAG in c.getters:
            raise Unknown(FLAG + " is a property")
        if not memo:
            memo.append(run())
        return memo[0]

    def done():
        s, _, pts, log = data()
        v = s.attr(FLAG)
        if v is None:
            return False, f"after a completed fit {tag} does not report being fitted"
        r = level(v)
        if r is None:
            raise Unknown("value of " + FLAG)
        return r is True, f"after a completed fit {tag} does not report being fitted"
    ctx.ob(f"fitted:done/{tag}", w, "a completed fit is reported", done)

    def failing():
        s, _, pts, log = data()
        n = 0
        # the flag is raised inside a handler or a final part
        rescue = {id(y) for k in c.mro() if hasattr(k, "node") for t in ast.walk(k.node) if isinstance(t, ast.Try) for b in [h.body for h in t.handlers] + [t.finalbody] for x in b for y in ast.walk(x)}
        late = any(x is not False and id(x_.node) in rescue for x_, x in flag)
        for e, v in pts:
            n += 1
            lv = level(v)
            if lv is None and any(x is True and e.loop and x_.loop[:1] == e.loop[:1] for x_, x in flag) and not any(x is False and x_.loop for x_, x in flag):
                lv = True  # raised in an earlier round of the same loop
            before = [l for l in log if (l[0] < e.seq or l[0] == e.seq and l[1].startswith("super.")) and compatible(l[2], e)]
            after = [l for l in log if (l[0] > e.seq or e.loop and l[2].loop[:1] == e.loop[:1] or l[0] == e.seq and l[1].startswith("super.")) and compatible(l[2], e)]
            if lv is False and e.tries and after and late and handled(e) is True:
                return False, f"when {e.name or e.kind} in {getattr(e.func, 'qual', '?')} line {getattr(e.node, 'lineno', '?')} fails, {FLAG} is raised on the way out"
            if lv == "old" and not before and e.kind in ("raise", "assert") and not e.tries:
                return False, f"when the check in {getattr(e.func, 'qual', '?')} line {getattr(e.node, 'lineno', '?')} rejects the data of a second fit, the model still reports being fitted"
            if lv is False or lv == "old" and not before or lv is True and not after:
                continue
            if lv is None:
                raise Unknown("value of " + FLAG)
            if e.tries:
                lv = handled(e)
                if lv is False:
                    continue
                if lv is None:
                    raise Unknown("handler")
            what = e.name or e.kind
            at = f"{getattr(e.func, 'qual', '?')} line {getattr(e.node, 'lineno', '?')}"
            if lv == "old":
                return False, f"when {what} in {at} fails during a second fit, the model reports being fitted although its state is half replaced ({before[0][1]})"
            return False, f"{FLAG} is set before {what} in {at}, which can still fail"
        return True, f"{n} failure points"

    def handled(e):
        if e.kind not in ("call", "mcall", "acall", "new"):
            return None
        box = []

        def at(x):
            return x.seq == e.seq
        holder = {}

        def pre(I, o):
            I.crash = at
            holder.update(I=I, o=o)
        try:
            ctx.run(f, c, opaque=others, pre=pre, budget=400000)
            return None
        except _Crash:
            I, o = holder["I"], holder["o"]
            v = I.st.heap.get((o, FLAG)) if I.st is not None else None
            return level(I.deep(v) if v is not None else None)
    ctx.ob(f"fitted:failing/{tag}", w, "whichever call inside fit() fails, the surrogate does not report being fitted", failing)


def rooted(I, t, o):
    """the mutated cell belongs to the model"""
    d = 0
    while isinstance(t, T) and d < 12:
        if t is o:
            return True
        for k, v in I.st.heap.items():
            if isinstance(k, tuple) and k[0] is o and v is t:
                return True
        if t.op in ("view", "cell") and t.a and isinstance(t.a[0], T):
            t = t.a[0]
            d += 1
            continue
        return t.op == "ref" and str(t.a[0]).startswith("self.")
    return False


def compatible(a, b):
    neg = {build("not", p) for p in a.pc}
    return not any(q in neg for q in b.pc)


def foreign(ctx):
    """nobody else raises the flag"""
    sur = surrogates(ctx)
    for f in ctx.prog.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and t.attr == FLAG and not (isinstance(n.value, ast.Constant) and not n.value.value):
                        def go():
                            own = isinstance(t.value, ast.Name) and t.value.id == "self"
                            if own and any(f.node is m.node for c in sur for m in c.methods.values()):
                                return True
                            if own:
                                raise Unknown("another class with the flag")
                            return False, f"{f.module.rel}:{n.lineno} marks a surrogate as fitted outside its own fit()"
                        ctx.ob(f"fitted:write/{f.module.rel}:{f.qual}", ctx.where(f), "only a surrogate itself reports being fitted", go)


# ------------------------------------------------------------------ variance
NN_CALLS = {"abs", "absolute", "fabs", "square", "exp", "sqrt", "std", "var", "nanstd", "nanvar", "zeros", "ones", "zeros_like", "ones_like", "norm"}
KEEP = {"reshape", "ravel", "flatten", "atleast_1d", "atleast_2d", "asarray", "array", "squeeze", "copy", "mean", "sum", "dot", "repeat", "transpose", "astype", "median", "max", "min", "amax", "amin", "average", "expand_dims", "hstack", "vstack", "stack", "concatenate", "float", "multiply", "matmul"}


def name_of(t):
    if t.op in ("call", "mcall") and t.a and isinstance(t.a[0], str):
        return t.a[0].split(".")[-1]
    return None


def zero(t):
    return isinstance(t, T) and t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) and t.a[0] >= 0


def negmask(m, base):
    """m selects exactly where base is negative (or not positive)"""
    if m.op != "cmp" and m.op not in ("lt", "le"):
        return None
    a = [x for x in m.a if isinstance(x, T)]
    s = [x for x in m.a if isinstance(x, str)]
    return a, s


def nonneg(t):
    """True: cannot be negative; False: a plain difference, negative at least through rounding; None: not known"""
    if not isinstance(t, T):
        return None
    if t.op == "const":
        return isinstance(t.a[0], (int, float)) and t.a[0] >= 0 or None
    if t.op == "phi":
        r = [nonneg(x) for x in t.a[1:]]
        return False if False in r else True if all(r) else None
    n = name_of(t)
    args = [x for x in t.a if isinstance(x, T) and x.op not in ("kwarg", "kw")]
    if n in NN_CALLS:
        return True
    if n in ("maximum", "fmax", "max") and len(args) > 1:
        return True if any(nonneg(x) is True for x in args) else None
    if n == "clip":
        lo = args[1] if len(args) > 1 else None
        return True if lo is not None and nonneg(lo) is True else None
    if n == "where" and len(args) == 3:
        return masked(args[0], args[2], args[1])
    if n in KEEP and args:
        r = [nonneg(x) for x in args[:2 if n in ("dot", "multiply", "matmul") else 1]]
        if n in ("dot", "multiply", "matmul"):
            return True if all(x is True for x in r) else False if False in r else None
        return r[0]
    if t.op == "bin":
        op = t.a[0]
        l, r = t.a[1], t.a[2]
        if op == "**":
            if r.op == "const" and isinstance(r.a[0], (int, float)) and r.a[0] == int(r.a[0]) and int(r.a[0]) % 2 == 0:
                return True
            return True if nonneg(l) is True else None
        if op == "-":
            return False if not (l.op == "const" and r.op == "const") else None
        if op in ("+", "*", "/", "@"):
            x, y = nonneg(l), nonneg(r)
            if op == "*" and l is r:
                return True
            return True if x is True and y is True else False if False in (x, y) else None
    if t.op in ("neg", "usub") or t.op == "un" and t.a[0] == "-":
        return False
    if t.op == "updall":
        base, val = t.a[0], t.a[4]
        x, y = nonneg(base), nonneg(val)
        return True if x is True and y is True else False if False in (x, y) else None
    if t.op == "updp":
        path = t.a[1].a if t.a[1].op == "path" else ()
        if len(path) == 1 and path[0].op == "pitem":
            return masked(path[0].a[0], t.a[0], t.a[2])
    if t.op == "item":
        return nonneg(t.a[0]) if isinstance(t.a[0], T) and t.a[0].op != "tuple" else None
    return None


def masked(m, base, val):
    """base with the entries selected by m replaced by val"""
    x, y = nonneg(base), nonneg(val)
    if y is not True:
        return y
    if x is True:
        return True
    if m.op == "cmp":
        a = [z for z in m.a if isinstance(z, T)]
        o = [z for z in m.a if isinstance(z, str)]
        if len(a) == 2 and o:
            l, r = a
            if o[0] in ("<", "<=") and l is base and zero(r):
                return True
            if o[0] in (">", ">=") and r is base and zero(l):
                return True
    return x


def variance(ctx, c):
    f = c.method("predict")

    def go():
        if "eval_MSE" not in f.args():
            raise Gone("eval_MSE")
        others = [k.name for k in ctx.prog.all_classes() if k is not c and k not in c.mro()]
        s = ctx.run(f, c, args=[mk("sym", f.args()[1])], kw={"eval_MSE": const(True)}, opaque=others, budget=300000)
        n = 0
        for o in outcomes(s.ret):
            if o.op != "tuple" or len(o.a) != 2:
                raise Unknown("what predict returns")
            r = nonneg(o.a[1])
            n += 1
            if r is None:
                raise Unknown("sign of " + show(o.a[1], 3)[:120])
            if r is False:
                return False, f"the variance handed out is a difference that is not kept from falling below zero: {show(o.a[1], 4)[:160]}"
        return bool(n), f"{n} results"
    ctx.ob(f"variance:{c.name}", ctx.where(f), "the predictive variance is never negative", go)


def outcomes(t):
    if t.op == "phi":
        return outcomes(t.a[1]) + outcomes(t.a[2])
    return [t]


# ------------------------------------------------------------------ ask
GUARD = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "NoisyBO": "MGFI", "MOBO": "EHVI", "PCABO": "MGFI", "MultiAcquisitionBO": None}


def guard(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in GUARD.items():
        if cname not in names or cname in ("PCABO", "MultiAcquisitionBO"):
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        batch = cname not in ("BO", "MOBO")
        for hist in ("none", "recorded"):
            for n in (None, 1, 3):
                for it, ev in ((0, 0), (0, 8), (1, 4), (30, 90)):
                    for fixed in (None, {"k": 7}):
                        H = [[3.1, 50, "u", 3.2, 10], [3.3, 51, "v", 3.4, 20]] if hist == "recorded" else None
                        tag = f"{cname}/{hist}/n{n}/iteration{it}.{ev}/{'fixed' if fixed else 'free'}"

                        def dom(fitted, model=True):
                            s, r = ask_session(ctx, cname, acq)
                            more = {"iter_count": it, "eval_count": ev}
                            if model is None:
                                more["model"] = None
                            d = ask_dom(ctx, s, mixed(), n=n, history=H, fitted=fitted, fixed=fixed, **more)
                            d.made = []
                            old = d.crit
                            for a in ACQ + ("EHVI",):
                                d.fns[a] = (lambda nm: lambda *p, **kw: (d.made.append(nm), old(nm, p, kw))[1])(a)
                            d.ev(r)
                            return d

                        def unfitted():
                            d = dom(False)
                            if d.searches or d.made:
                                return False, "an acquisition function is optimised on a surrogate that is not fitted"
                            return bool(d.samples), "no initial design is drawn although the surrogate is not fitted"
                        ctx.ob("ask:unfitted/" + tag, w, "without a fitted surrogate the initial design is used", unfitted)

                        def fitted():
                            if not batch and n == 3:
                                return True
                            d = dom(True)
                            return bool(d.searches), "the acquisition function is not optimised although the surrogate is fitted"
                        ctx.ob("ask:fitted/" + tag, w, "a fitted surrogate is used", fitted)


# ------------------------------------------------------------------ threshold
def threshold(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    sets = {"three": [5.0, 4.0, 9.0], "negative": [-70.0, -30.0, -50.0, -10.0], "one": [3.0], "equal": [2.0, 2.0], "large": [1e6, 3e6, 2e6, 5e6, 4e6, 9e6, 8e6], "small": [1e-3, 3e-3, 2e-3]}
    for cname, acq in (("BO", "EI"), ("BO", "PI"), ("BO", "MGFI"), ("BO", "EpsilonPI"), ("ParallelBO", "MGFI"), ("AnnealingBO", "MGFI"), ("SelfAdaptiveBO", "MGFI"), ("NoisyBO", "MGFI")):
        if cname not in names:
            continue
        f = ctx.cls(cname).method("update_model") or ctx.cls(cname).method("tell")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.{f.name}"
        for sname, vals in sets.items():
            for minimize in (True, False):
                for before, it in ((0, 0), (2, 3), (2, 4), (2, 25), (2, 60), (2, 1000)):
                    tag = f"{cname}/{acq}/{sname}/{'min' if minimize else 'max'}/history{before}.{it}"
                    memo = []

                    def run():
                        if not memo:
                            memo.append(pipeline(ctx, cname, acq, vals, minimize, before, it))
                        return memo[0]

                    def scale():
                        y, pl, raw, pred = run()
                        a = np.asarray(y, dtype=float).ravel()
                        if len(raw) > len(vals):  # trained on the earlier values only
                            raw = raw[:len(a)] if a.tolist() == [1.0, -1.0] else raw
                        b = np.asarray(raw, dtype=float).ravel()
                        if len(a) != len(b):
                            return False, f"the surrogate is trained on {len(a)} values, {len(b)} are recorded"
                        if np.ptp(b) == 0:
                            return bool(np.ptp(a) == 0), f"equal values become {a.tolist()}"
                        k = (a.max() - a.min()) / (b.max() - b.min())
                        if not np.allclose(a - a[0], k * (b - b[0]), rtol=1e-6, atol=1e-9 * (1 + abs(a).max())):
                            return False, f"the training values {a.tolist()} are not an increasing affine image of the recorded values {b.tolist()}"
                        return True
                    ctx.ob("scale:" + tag, w, "the surrogate is trained on an increasing affine image of the recorded values", scale)

                    def thr():
                        y, pl, raw, pred = run()
                        if not pl:
                            raise Unknown("no acquisition function with a threshold")
                        ref = np.asarray(pred if cname == "NoisyBO" else y, dtype=float)
                        want = ref.min() if minimize else ref.max()
                        for p in pl:
                            if p is None:
                                continue  # taken from the model's own training values
                            p = float(np.asarray(p).item())
                            if not np.isclose(p, want, rtol=1e-9, atol=1e-12):
                                return False, f"the threshold {p:.6g} is not the best of the {'predicted' if cname == 'NoisyBO' else 'training'} values ({want:.6g})"
                        return True
                    ctx.ob("threshold:" + tag, w, "the improvement threshold is the best of the values the surrogate was trained on", thr)
    own(ctx)
    pareto(ctx)


def pipeline(ctx, cname, acq, vals, minimize, before, it):
    key = ("c17", cname, acq)
    if key not in ctx._sum:
        kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": mk("sym", "minimize"), "n_job": 1, "max_FEs": 100, "eval_type": "list", "acquisition_fun": acq, "DoE_size": 4,
              "eq_fun": None, "ineq_fun": None}
        if cname != "BO":
            kw["n_point"] = 2
        s = Session(ctx, cname, kw, opaque=ASK_OPAQUE, opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
        s.later()
        s.call("tell", X=mk("sym", "X"), func_vals=mk("sym", "func_vals"))
        fits = [e for e in s.events() if e.kind in ("mcall", "call") and e.name == "fit"]
        r = s.call("ask", n_point=mk("sym", "n"), fixed=None)
        ctx._sum[key] = (s, fits, r)
    s, fits, r = ctx._sum[key]
    sp = mixed(("r1", "r2"))
    H = [[0.5, 0.25], [0.75, 0.5]][:before]
    hv = [6.0, 1.5][:before]
    X = [[1.0 + 0.1 * i, 2.0 - 0.05 * i] for i in range(len(vals))]
    d = ask_dom(ctx, s, sp, n=1 if cname == "BO" else 2, history=H or None, X=X, func_vals=list(vals), minimize=minimize, data_file=None, iter_count=it, eval_count=before + it,
                **{"hasattr:" + k: bool(before) for k in ("fmin", "fmax", "frange")})
    if before:
        d.val.update({"self.fmin": -1.0, "self.fmax": 1.0, "self.frange": 2.0})  # of the standardised earlier values
        d.val["self.data"] = PSol([tuple(r_) for r_ in H], hv, [1] * before, list(range(before)), ["r1", "r2"])
    raw = hv + list(vals)
    pred = [0.3 + 0.1 * (i * 7 % 5) for i in range(len(raw))]
    d.fns["mcall:predict"] = lambda D, t, recv, a: np.array(pred).reshape(-1, 1)
    d.fns["mcall:fit"] = lambda D, t, recv, a: Obj("model", is_fitted=True, gradient=True)
    made = []
    old = d.crit
    for a in ACQ:
        d.fns[a] = (lambda nm: lambda *p, **kw: (made.append(kw), old(nm, p, kw))[1])(a)
    ys = []
    for e in fits:
        if d.tri(pcond(e)) is not False:
            if len(e.args) < 3:
                b = dict(e.kw)
                ys.append(d.ev(b["y"]))
            else:
                ys.append(d.ev(e.args[2]))
    kept = not ys and before > 0
    if kept:  # no refit: the surrogate keeps what the earlier tell trained it on
        ys = [[1.0, -1.0]]
    if len(ys) != 1:
        raise Unknown(f"{len(ys)} fits in one tell")
    d.ev(r)
    for b in d.searches:
        b["obj_func"]([0.1, 0.2])
    return ys[0], [k.get("plugin") for k in made if k is not None and "plugin" in k] or ([None] if made else []), raw, pred


def own(ctx):
    """a threshold taken from the model is that of its training values"""
    for c in surrogates(ctx):
        f = c.method("fit")

        def go():
            others = [k.name for k in ctx.prog.all_classes() if k is not c and k not in c.mro()]
            s = ctx.run(f, c, opaque=others, budget=400000)
            v = s.attr("y")
            if v is None:
                return True, "keeps no training values"
            d = Dom({f.args()[2]: np.array([[1.0], [4.0], [2.0]]), f.args()[1]: np.array([[0.0], [1.0], [2.0]])}, {"sklearn.utils.check_X_y": lambda a, b, **k: (a, b), "sklearn.utils.validation.check_X_y": lambda a, b, **k: (a, b)})
            y = np.asarray(d.ev(v), dtype=float).ravel()
            return y.tolist() == [1.0, 4.0, 2.0], f"fit() keeps {y.tolist()} for the training values [1, 4, 2]"
        ctx.ob(f"threshold:kept/{c.name}", ctx.where(f), "the training values a surrogate keeps are those it was given", go)


def direct(ctx):
    """update_model on its own, for classes that hand the data in"""
    for c in optimizer_classes(ctx):
        f = c.methods.get("update_model")
        if f is None or len(f.args()) != 3:
            continue
        for sname, vals in (("three", [5.0, 4.0, 9.0]), ("negative", [-70.0, -30.0, -50.0, -10.0]), ("equal", [2.0, 2.0]), ("large", [1e6, 3e6, 2e6, 5e6])):
            def go():
                s = ctx.summ(c.name, "update_model", opaque=("Solution", "SearchSpace", "GaussianProcess", "RandomForest", "PCA", "constant_trend"))
                d = Dom({f.args()[1]: np.array([[float(i), 1.0] for i in range(len(vals))]), f.args()[2]: np.array(vals)})
                ys = [d.ev(e.args[2] if len(e.args) > 2 else e.kw["y"]) for e in s.events if e.kind in ("call", "mcall") and e.name == "fit" and d.tri(pcond(e)) is not False]
                if len(ys) != 1:
                    raise Unknown(f"{len(ys)} fits")
                y = np.asarray(ys[0], dtype=float).ravel()
                b = np.asarray(vals)
                if np.ptp(b) and not np.allclose(y - y[0], (y.max() - y.min()) / np.ptp(b) * (b - b[0]), rtol=1e-6):
                    return False, f"the training values {y.tolist()} are not an increasing affine image of the recorded values {vals}"
                for n, want in (("fmin", y.min()), ("fmax", y.max())):
                    v = s.attr(n)
                    if v is None:
                        raise Unknown(n)
                    if not np.isclose(float(d.ev(v)), want):
                        return False, f"{n} is {float(d.ev(v)):.6g}, the training values have {want:.6g}"
                return True
            ctx.ob(f"threshold:update_model/{c.name}/{sname}", ctx.where(f), "the improvement threshold is the best of the values the surrogate was trained on", go)


def pareto(ctx):
    direct(ctx)
    c = ctx.prog.cls("MOBO", False)
    if c is None or c.method("update_model") is None or c.method("_create_acquisition") is None:
        return
    f = c.method("_create_acquisition")
    for minimize in ([True, True], [False, False], [True, False]):
        for sname, vals in (("plain", [[1.0, 50.0], [2.0, 20.0], [4.0, 10.0]]), ("negative", [[-1.0, -5e3], [-2.0, -2e3], [-9.0, -1e3], [-3.0, -4e3]])):
            def go():
                u = ctx.summ("MOBO", "update_model")
                k = ctx.summ("MOBO", "_create_acquisition", opaque_funcs=("partial_argument",))
                made = {}

                def note(nm, names):
                    def g(*p, **kw):
                        b = dict(zip(names, p))
                        b.update(kw)
                        made[nm] = b
                        return Obj(nm)
                    return g

                def dom():
                    D = Sol([f"d{i}" for i in range(len(vals))], vals, [1] * len(vals), list(range(len(vals))), ["a", "b"], 2)
                    d = Dom({"self.data": D, "hasattr:data": True, "self.minimize": np.array(minimize), "self.n_obj": 2, "fixed": None}, {})
                    d.fns["mcall:fit_transform"] = lambda D_, t, recv, a: minmax(D_.ev(a[0])) if recv.op == "call" and "Scaler" in recv.a[0] else NotImplemented
                    for nm in ("Tensor", "torch.Tensor"):
                        d.fns[nm] = lambda x: np.asarray(x, dtype=float)
                    return d
                d = dom()
                ys = [d.ev(e.args[2] if len(e.args) > 2 else e.kw["y"]) for e in u.events if e.kind in ("call", "mcall") and e.name == "fit" and d.tri(pcond(e)) is not False]
                if len(ys) != 1:
                    raise Unknown(f"{len(ys)} fits")
                y = np.asarray(ys[0], dtype=float)
                d = dom()
                for e in k.events:
                    if e.kind in ("call", "new") and str(e.name).split(".")[-1] in ("NondominatedPartitioning", "EHVI") and d.tri(pcond(e)) is not False:
                        nm = str(e.name).split(".")[-1]
                        b = dict(zip(("ref_point", "Y") if nm != "EHVI" else ("model", "ref_point", "partitioning"), e.args[e.kind == "new":]))
                        b.update(e.kw)
                        made[nm] = {x: d.ev(b[x]) for x in ("ref_point", "Y") if x in b}
                if set(made) != {"NondominatedPartitioning", "EHVI"}:
                    raise Unknown("how the criterion is made")
                Y = np.asarray(made["NondominatedPartitioning"]["Y"], dtype=float)
                if Y.shape != y.shape or not np.allclose(Y, y):
                    return False, "the front the improvement is measured against is not on the scale of the training values"
                r1, r2 = (np.asarray(made[n]["ref_point"], dtype=float) for n in ("NondominatedPartitioning", "EHVI"))
                if not np.allclose(r1, r2):
                    return False, "two different reference points are used"
                lo, hi = y.min(0), y.max(0)
                if np.any(r2 < lo - (hi - lo)) or np.any(r2 > hi):
                    return False, f"the reference point {r2.tolist()} does not lie on the scale of the training values"
                return True
            ctx.ob(f"threshold:pareto/{minimize}/{sname}", ctx.where(f), "front and reference point are on the scale of the training values", go)
