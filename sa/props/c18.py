import ast

from ..askmodel import *  # noqa
from ..dom import Diverges, Failed
from .c02 import get, hist, ORDER
from .c04 import RDom
from ..optmodel import *  # noqa

TECHNIQUE = "termination analysis: recurrence of abstract loop state under adversarial inputs, strict progress of budget counters on every path, exit-test dependence for remaining loops"
RULE = ("Termination under an adversarial environment: ask() of every optimizer class is evaluated with a sampler that never yields a usable point (nothing, only recorded points, always too few) and a search that "
        "always fails; a loop whose state recurs, or that only a counter without bound distinguishes, does not end. The restart driver is evaluated on scripted outcomes: number of searches, budget handed on, "
        "patience. One step of each internal optimizer must strictly raise its evaluation counter on every path, and its stop test must hold once the counter has reached the budget. The refitting loop of the "
        "Gaussian process must change the likelihood on every failed attempt. Every remaining `while` loop needs an exit whose test involves something the loop changes; no method may retry by calling itself unchanged.")

CLASSES = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "NoisyBO": "UCB", "MOBO": "EHVI", "MultiAcquisitionBO": "MGFI"}


def check(ctx):
    design(ctx)
    restarts(ctx)
    cma(ctx)
    mies(ctx)
    refit(ctx)
    hyper(ctx)
    drivers(ctx)
    loops(ctx)
    recursion(ctx)


# ------------------------------------------------------------------ the initial design and the top-up
class Adv(AskDom):
    """a sampler that keeps giving the same kind of answer"""

    def sample(self, D, t, recv, a):
        rule = self.script.get("always")
        if rule is None:
            return super().sample(D, t, recv, a)
        sp = self.ev(recv)
        if not isinstance(sp, Space):
            raise Unknown("sampled space")
        pos, kw = self.args(a)
        b = dict(zip(("N", "method", "h", "g", "tol"), pos))
        b.update(kw)
        k = len(self.samples)
        self.samples.append((sp, b))
        rows = [[r[nm] for nm in sp.var_name] for r in rule(int(b.get("N", 1)), k)]
        out = np.empty((len(rows), len(sp.var_name)), dtype=object)
        for i, x in enumerate(rows):
            for j, v in enumerate(x):
                out[i, j] = v
        return out


def design(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        for fixed in ({}, {"k": 7}):
            H, reduced = hist(fixed)
            full = [dict(zip(ORDER, r)) for r in H]
            worlds = {"empty": (lambda n, k: [], H), "empty-first": (lambda n, k: [], None), "short": (lambda n, k: full[:1] if False else [dict(full[0], r1=1.5)][: max(1, n // 9)], H)}
            if cname != "NoisyBO":
                worlds["recorded"] = (lambda n, k: (full * n)[:n], H)
            for wname, (rule, hh) in worlds.items():
                for n in (1, 3):
                    for fitted in (False, True):
                        if fitted and hh is None:
                            continue
                        tag = f"{cname}/{wname}/n={n}/{'search' if fitted else 'design'}/{'fixed' if fixed else 'free'}"

                        def go():
                            s, r = get(ctx, cname, acq, "list", False, False)
                            base = ask_dom(ctx, s, mixed(ORDER), n=n, fixed=dict(fixed) if fixed else None, history=hh, fitted=fitted, script={"search": [[]] * 9} if fitted else {}, n_job=1)
                            d = Adv(ctx, s.I, base.val, base.script)
                            d.script["always"] = rule
                            d.detect = True
                            d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
                            try:
                                out = d.ev(r)
                            except Diverges as e:
                                if e.kind == "recurs":
                                    return False, f"{cname}.ask({n}) never returns when the sampler {'yields nothing' if 'empty' in wname else 'only yields ' + ('points already evaluated' if wname == 'recorded' else 'too few points')}: its loop has no certain exit"
                                raise
                            except Raised as e:
                                return True
                            if len(d.samples) > 200:
                                return False, f"{cname}.ask({n}) draws {len(d.samples)} samples"
                            return True
                        ctx.ob("design:" + tag, w, "the resampling loop of the initial design ends however little the sampler yields", go)


# ------------------------------------------------------------------ the restart driver
class Drv(RDom):
    """scripted outcomes of the searches: value and number of evaluations used"""

    def __init__(self, ctx, I, val, outs):
        super().__init__(ctx, I, val, [{"x": 1.0, "v": 0.0}])
        self.given = {}
        it = lambda: int(self.bvs.get(0, 0))

        def out():
            k = it()
            return outs[k] if k < len(outs) else outs[-1]

        def res(D, t, recv, a):
            o = self.ev(recv)
            v, used = out()
            k = it()
            self.given[k] = o.budget
            return [1.0], v, {"funcalls": used}

        def bfgs(*a, **k):
            v, used = out()
            self.given[it()] = k.get("maxfun")
            return np.array([1.0]), -v, {"warnflag": 0, "funcalls": used}
        self.fns.update({"mcall:run": res, "mcall:optimize": res, "scipy.optimize.fmin_l_bfgs_b": bfgs})
        self.out = out
        self.volatile = self.volatile | {"OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "MIES"}

    def made(self, n, a, k):
        b = k.get("max_FEs", k.get("max_eval"))
        return Obj("opt", eval_count=self.out()[1], budget=b)


RUNS = {
    # name: (outcomes (value, evaluations used), budget, restarts, patience, expected budgets of the searches)
    "restarts": ([(1.0, 10), (2.0, 10), (3.0, 10), (4.0, 10), (5.0, 10)], 1000, 3, 9, [1000, 990, 980]),
    "single": ([(1.0, 10)], 1000, 1, 9, [1000]),
    "budget": ([(1.0, 40), (2.0, 40), (3.0, 40), (4.0, 40)], 100, 9, 9, [100, 60, 20]),
    "exact": ([(1.0, 50), (2.0, 50), (3.0, 50)], 100, 9, 9, [100, 50]),
    "over": ([(1.0, 130), (2.0, 50)], 100, 9, 9, [100]),
    "patience": ([(1.0, 1)] + [(0.5, 1)] * 9, 1000, 9, 3, [1000, 999, 998, 997]),
    "patience-equal": ([(1.0, 1)] + [(1.0, 1)] * 9, 1000, 9, 2, [1000, 999, 998]),
    "patience-reset": ([(1.0, 1), (0.5, 1), (2.0, 1), (0.5, 1), (0.5, 1), (9.0, 1)], 1000, 9, 2, [1000, 999, 998, 997, 996]),
    "zero-criterion": ([(0.0, 5)] * 9, 1000, 6, 2, [1000, 995, 990]),
}


def restarts(ctx):
    f = ctx.prog.func("argmax_restart", False)
    if f is None:
        return
    w = ctx.where(f)

    def summary():
        key = ("argmax",)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f, opaque=("Solution", "SearchSpace", "MIES", "OnePlusOne_Cholesky_CMA", "OnePlusOne_CMA", "Penalized"))
        return ctx._sum[key]
    for optm in ("BFGS", "OnePlusOne_Cholesky_CMA", "MIES"):
        for name, (outs, budget, nr, wait, want) in RUNS.items():
            def go():
                s = summary()
                val = {"optimizer": optm, "n_restart": nr, "wait_iter": wait, "eval_budget": budget, "h": None, "g": None, "search_space.real_id": np.array([]),
                       "logger": None, "search_space": Obj("space"), "search_space.bounds": [(0.0, 9.0)], "search_space.dim": 1, "obj_func": Obj("criterion")}
                d = Drv(ctx, s.I, val, outs)
                d.detect = True
                try:
                    d.ev(s.ret)
                except Diverges as e:
                    if e.kind == "recurs":
                        return False, f"argmax_restart({optm}) never returns in scenario {name}"
                    raise
                got = [d.given[k] for k in sorted(d.given)]
                if not got or len(got) != len(d.given) or sorted(d.given) != list(range(len(got))):
                    return None, "the searches of the restart driver are not recognised"
                text = f"argmax_restart({optm}, eval_budget={budget}, n_restart={nr}, wait_iter={wait}) with searches using {[u for _, u in outs][:6]} evaluations and reaching {[v for v, _ in outs][:6]} starts {len(got)} searches with budgets {got}"
                if len(got) > nr:
                    return False, text + ": more than requested"
                if any(x is None for x in got):
                    return False, text + ": a search is not given the budget"
                if any(x <= 0 for x in got):
                    return False, text + ": a search starts although the budget is used up"
                left = budget
                for (v, u), x in zip(outs, got):
                    if x > left:
                        return False, text + ": a search is given more than what is left of the budget"
                    left -= u
                if len(got) > len(want):
                    return False, text + f", expected {want}: it goes on although {'the patience is used up' if 'patience' in name or name == 'zero-criterion' else 'it should have stopped'}"
                return True
            ctx.ob(f"restarts:{optm}/{name}", w, "searches are limited by the requested restarts, the remaining evaluation budget and the patience", go)

        for role in ("h", "g"):
            def infeasible():
                s = summary()
                val = {"optimizer": optm, "n_restart": 4, "wait_iter": 9, "eval_budget": 1000, "h": None, "g": None, "search_space.real_id": np.array([]),
                       "logger": None, "search_space": Obj("space"), "search_space.bounds": [(0.0, 9.0)], "search_space.dim": 1, "obj_func": Obj("criterion")}
                val[role] = Fun("eq" if role == "h" else "ineq", lambda x: np.array([3.0]))
                d = Drv(ctx, s.I, val, [(1.0, 10)])
                d.detect = True
                try:
                    d.ev(s.ret)
                except Diverges as e:
                    if e.kind == "recurs":
                        return False, f"argmax_restart({optm}) never returns when no search finds a feasible point"
                    raise
                if not d.given:
                    return None, "the searches of the restart driver are not recognised"
                return len(d.given) <= 4, f"argmax_restart({optm}, n_restart=4) starts {len(d.given)} searches when none finds a feasible point"
            ctx.ob(f"restarts:{optm}/infeasible-{role}", w, "restarts are limited by the requested number also when no search succeeds", infeasible)


# ------------------------------------------------------------------ the internal optimizers
def cma(ctx):
    for oid, w, rule, fn in cma_obligations(ctx):
        ctx.ob("cma:" + oid, w, rule, fn)


def mies(ctx):
    for oid, w, rule, fn in mies_obligations(ctx):
        ctx.ob("mies:" + oid, w, rule, fn)


# ------------------------------------------------------------------ refitting the Gaussian process
def refit(ctx):
    for cname in ("GaussianProcess",):
        try:
            f = ctx.method(cname, "fit")
        except Gone:
            continue
        for mode, nv in (("noiseless", 0), ("noise_estim", 0), ("noisy", 1e-3), ("noisy", np.array([1e-3]))):
            def go():
                s = ctx.summ(cname, "fit", opaque=("Solution", "SearchSpace", "RandomForest"), opaque_funcs=("_optimize_hyperparameter", "_check_data", "compute_beta_gamma", "check_random_state"))
                d = Dom({"self.estimation_mode": mode, "self.noise_var": nv, "self.thetaL": 1, "self.thetaU": 2, "self.verbose": False, "self.par": None, "self.log_likelihood_": None},
                        {cname + "._optimize_hyperparameter": lambda *a, **k: ({"theta": 1}, -np.inf, {"noise_var": 0})}, limit=12)
                d.detect = True
                try:
                    d.ev(s.get("estimation_mode"))
                    d.ev(s.get("log_likelihood_"))
                    return True  # the loop gives up by itself
                except Raised:
                    return True
                except Diverges as e:
                    if e.kind == "recurs":
                        return False, f"GaussianProcess.fit in mode {mode}: an attempt with an infinite likelihood is repeated unchanged for ever"
                    def col(n):
                        ks = [k for k in e.states[-1] if str(k.a[-1]).endswith("." + n)]
                        return [st[ks[0]] for st in e.states] if ks else None
                    m, v = col("estimation_mode"), col("noise_var")
                    m = m or [mode] * len(e.states)
                    if v is None or any(isinstance(x, Failed) for x in v + m):
                        return None, "the state of the refitting loop is not followed"
                    if all(x != "noisy" for x in m[3:]):
                        return False, f"GaussianProcess.fit started in mode {mode}: after failed attempts the mode stays {m[-1]!r}, in which the noise variance has no influence on the likelihood: the loop never ends on constant observations"
                    vs = [float(np.ravel(x)[0]) for x in v[2:]]
                    if not all(b > a * 1.01 for a, b in zip(vs, vs[1:])):
                        return False, f"GaussianProcess.fit started in mode {mode}: the noise variance after failed attempts {vs[:4]} does not grow: the loop never ends"
                    return True
            ctx.ob(f"refit:{cname}/{mode}/{type(nv).__name__}", ctx.where(f), "each failed attempt of fitting changes what the next attempt maximises, towards an exit", go)


# ------------------------------------------------------------------ the restarts of the likelihood maximisation
def hyper(ctx):
    try:
        f = ctx.method("GaussianProcess", "_optimize_hyperparameter")
    except Gone:
        return
    w = ctx.where(f)
    for known in (False, True):
        for name, (outs, budget, nr, wait, want) in RUNS.items():
            if name in ("patience-equal", "zero-criterion"):
                continue  # an equal likelihood counts as progress here

            def go():
                s = ctx.summ("GaussianProcess", "_optimize_hyperparameter", opaque=("Solution", "SearchSpace", "RandomForest"),
                             opaque_funcs=("log_likelihood_concentrated", "log_likelihood_restricted", "_hyperparameter_bound", "cma_es"))
                given = {}
                one = np.array([1.0])
                d = Dom({"self.estimation_mode": "noiseless", "self.likelihood": "concentrated", "self.optimizer": "BFGS", "self.verbose": False, "self.random_start": nr, "self.wait_iter": wait, "self.eval_budget": budget,
                         "self.thetaL": one * 1e-3, "self.thetaU": one * 1e3, "self.theta0": None, "hasattr:theta_": known, "self.theta_": one, "self.eval_count": 0})

                def bfgs(*a, **k):
                    i = int(d.bvs.get(0, 0))
                    v, used = outs[min(i, len(outs) - 1)]
                    given[i] = k.get("maxfun")
                    return np.array([0.0]), -v, {"warnflag": 0, "funcalls": used}
                d.fns.update({"scipy.optimize.fmin_l_bfgs_b": bfgs, "numpy.log10": np.log10, "numpy.random.uniform": lambda *a, **k: np.array([0.0])})
                for m, r in (("_hyperparameter_bound", np.array([[1e-3, 1e3]])), ("log_likelihood_concentrated", -1.0), ("log_likelihood_restricted", -1.0)):
                    d.fns["GaussianProcess." + m] = lambda *a, r=r, **k: r
                d.detect = True
                try:
                    d.ev(s.ret)
                except Diverges as e:
                    if e.kind == "recurs":
                        return False, f"the likelihood maximisation never returns in scenario {name}"
                    raise
                got = [given[k] for k in sorted(given)]
                if not got or sorted(given) != list(range(len(got))):
                    return None, "the searches of the likelihood maximisation are not recognised"
                text = f"GaussianProcess._optimize_hyperparameter(eval_budget={budget}, random_start={nr}, wait_iter={wait}) with searches using {[u for _, u in outs][:6]} evaluations starts {len(got)} searches with budgets {got}"
                if len(got) > nr:
                    return False, text + ": more than requested"
                if any(x is None for x in got):
                    return False, text + ": a search is not given the budget"
                if any(x <= 0 for x in got):
                    return False, text + ": a search starts although the budget is used up"
                left = budget
                for (v, u), x in zip(outs, got):
                    if x > left:
                        return False, text + ": a search is given more than what is left of the budget"
                    left -= u
                return len(got) <= len(want), text + f", expected {want}: it goes on although it should have stopped"
            ctx.ob(f"hyper:{name}/{'refit' if known else 'first'}", w, "the searches of a surrogate's hyper-parameters are limited by the requested restarts, the remaining evaluation budget and the patience", go)


# ------------------------------------------------------------------ run()
def drivers(ctx):
    seen = set()
    for c in optimizer_classes(ctx):
        f = c.method("step")
        if f is None or f.qual in seen:
            continue
        asks = c.method("ask")
        seen.add(f.qual)

        def go():
            ev = c.method("evaluate")
            s = ctx.summ(c.name, "step", opaque_funcs=tuple(x.qual for x in (c.method("ask"), c.method("tell"), ev) if x is not None))
            tells = [e for e in s.events if e.name and str(e.name).split(".")[-1] == "tell" and e.kind in ("call", "mcall")]
            asked = [e for e in s.events if e.name and str(e.name).split(".")[-1] == "ask" and e.kind in ("call", "mcall")]
            if not asked:
                return None, "no ask in step"
            if not tells:
                return False, f"{f.qual}: a step tells nothing: the evaluation count never grows and run() never ends"
            for e in tells:
                if not e.loop and truth(pcond(e)) is True:
                    return True
            return None, "the tell of a step is conditional"
        ctx.ob("step:" + f.qual, ctx.where(f), "each step of run() tells the points it asked for, so that the evaluation count grows", go)


# ------------------------------------------------------------------ syntactic rules for the remaining loops
OUT = ("cma_es.py", "_daemon.py", "hypervolume.py", "non_dominated.py", "pareto.py")
GEN = {"count", "cycle", "repeat"}


def functions(ctx):
    for m in ctx.prog.modules.values():
        if any(m.rel.endswith(o) for o in OUT):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, n


def names_of(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add("." + n.attr)
    return out


def changed(body):
    out, calls = set(), False
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id if isinstance(n, ast.Name) else "." + n.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out |= names_of(n.value)
            if isinstance(n, ast.Call):
                calls = True
                if isinstance(n.func, ast.Attribute):
                    out |= names_of(n.func.value)
                for a in list(n.args) + [k.value for k in n.keywords]:
                    out |= names_of(a)
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                calls = True
    return out, calls


def index(ctx):
    if ("index",) not in ctx._sum:
        by = {}
        for m in ctx.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    by.setdefault(n.name, []).append(n)
        ctx._sum[("index",)] = by
    return ctx._sum[("index",)]


def depends(ctx, names):
    """names and attributes a test depends on, through the bodies of properties"""
    by = index(ctx)
    out, todo = set(), list(names)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.startswith("."):
            if x[1:].startswith("__"):
                return None
            for f in by.get(x[1:], []):
                if any("property" in ast.unparse(d) for d in f.decorator_list):
                    todo += [y for y in names_of(ast.Module(f.body, [])) if y.startswith(".")]
    return out


def effects(ctx, body):
    """attributes stored, or objects mutated through a method, by whatever the body may call (resolved by name, over-approximated)"""
    by = index(ctx)
    out, seen, todo = set(), set(), list(body)
    while todo:
        st = todo.pop()
        ch, _ = changed([st])
        out |= {x for x in ch if x.startswith(".")}
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and not isinstance(n.func, (ast.Name, ast.Attribute)):
                return None
            nm = n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n, ast.Call) else n.attr if isinstance(n, ast.Attribute) else None
            if nm is None or nm in seen:
                continue
            seen.add(nm)
            if len(seen) > 3000:
                return None
            for f in by.get(nm, []):
                todo += f.body
    return out


def exits(loop):
    """break (of this loop), return or raise reachable syntactically in the body"""
    out = []

    def walk(ns, inner):
        for n in ns:
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Return, ast.Raise)) or isinstance(n, ast.Break) and not inner:
                out.append(n)
            if isinstance(n, (ast.For, ast.While)):
                walk(n.body, True)
                walk(n.orelse, inner)
            else:
                walk(ast.iter_child_nodes(n), inner)
    walk(loop.body, False)
    return out


def loops(ctx):
    for m, f in functions(ctx):
        own = [n for n in ast.walk(f) if isinstance(n, (ast.While, ast.For))]
        for n in own:
            w = f"{m.rel}:{n.lineno} {f.name}"
            if isinstance(n, ast.While):
                def go():
                    ch, calls = changed(n.body)
                    if exits(n):
                        return True
                    if isinstance(n.test, ast.Constant):
                        if n.test.value and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                            return False, f"`while {ast.unparse(n.test)}` without break, return or raise"
                        return True
                    if any(isinstance(x, ast.Call) for x in ast.walk(n.test)):
                        return True
                    deps = depends(ctx, names_of(n.test))
                    if deps is None or deps & ch:
                        return True
                    reach = effects(ctx, n.body)
                    if reach is None or deps & reach:
                        return True
                    return False, f"nothing in the body of `while {ast.unparse(n.test)}` changes its test and there is no other exit"
                ctx.ob(f"while:{m.rel}:{f.name}:{ast.unparse(n.test)[:60]}", w, "a while loop has an exit, or its body changes what its test depends on", go)
            else:
                def go():
                    it = n.iter
                    if isinstance(it, ast.Call):
                        fn = it.func.attr if isinstance(it.func, ast.Attribute) else getattr(it.func, "id", "")
                        if fn in GEN and (fn != "repeat" or len(it.args) < 2) and isinstance(it.func, ast.Attribute) and getattr(it.func.value, "id", "") == "itertools" and not exits(n):
                            return False, f"`for ... in {ast.unparse(it)}` has no exit"
                    if isinstance(it, (ast.Name, ast.Attribute)):
                        src = ast.unparse(it)
                        for x in ast.walk(ast.Module(n.body, [])):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert") and ast.unparse(x.func.value) == src and not exits(n):
                                return (False if any(y is x for st in n.body if isinstance(st, ast.Expr) for y in ast.walk(st)) else None), f"the loop over `{src}` keeps extending what it traverses"
                    return True
                ctx.ob(f"for:{m.rel}:{f.name}:{ast.unparse(n.iter)[:60]}:{n.lineno - f.lineno}", w, "a for loop traverses something finite that its body does not extend", go)


def recursion(ctx):
    for m, f in functions(ctx):
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            me = isinstance(fn, ast.Attribute) and fn.attr == f.name and isinstance(fn.value, ast.Name) and fn.value.id == "self" and any(a.arg == "self" for a in f.args.args)
            if not me:
                continue

            def go():
                given = {}
                ps = [a.arg for a in f.args.args][1:]
                for p, a in zip(ps, n.args):
                    given[p] = a
                for k in n.keywords:
                    given[k.arg] = k.value
                stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if any(isinstance(a, ast.Starred) for a in n.args) or None in given:
                    return True
                same_args = all(isinstance(given.get(p), ast.Name) and given[p].id == p and p not in stored for p in ps if p in given) and set(given) >= set(ps) - {a.arg for a in f.args.args[len(f.args.args) - len(f.args.defaults):]}
                if not same_args or not given and ps:
                    return True
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
                    return None, "a retry that changes the object first"
                return (False, f"{f.name} calls itself with unchanged arguments: retrying without bound") if set(given) == set(ps) and ps else None
            ctx.ob(f"recursion:{m.rel}:{f.name}:{n.lineno - f.lineno}", f"{m.rel}:{n.lineno} {f.name}", "no method retries by calling itself unchanged", go)
