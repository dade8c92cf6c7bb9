"""Counters and budgets of the internal optimizers ((1+1)-CMA-ES, MIES): obligations shared by C06 (counting) and C18 (termination)."""
import numpy as np

from .common import *  # noqa
from .dom import Dom, Failed, Obj, Raised, Sol, Unknown, truthy, Diverges

CMA = ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA")
E = lambda n: np.eye(n)


def base(ctx, cn):
    """an ordinary running state of the optimizer"""
    return {"self.eval_count": 5, "self.max_FEs": 10, "self._stop": False, "self._sigma": 1.0, "self._delta_f": 1.0, "self._delta_x": 1.0, "self.stop_dict": {}, "self.n_restart": 0, "self._restart": False,
            "self.fopt": 5.0, "self.fopt_penalized": 5.0, "self.ftarget": None, "self.ftol": 1e-4, "self.xtol": 1e-4, "self.minimize": True, "self.verbose": False, "self.args": {}, "self.h": None, "self.g": None,
            "self.xopt": np.zeros(2), "self._x": np.zeros(2), "self.lb": np.full(2, -5.), "self.ub": np.full(2, 5.), "self._A": E(2), "self.dim": 2, "self.success_rate": 0.2, "self.prob_target": 0.2, "self.d": 2.0,
            "self.cp": 0.1, "self._w": 0.9, "self.sigma0": 1.0, "self._exception": False, "self.iter_count": 3, "self.pc": np.zeros(2), "self.cc": 0.5, "self._coeff": 0.5, "self.ccov": 0.2, "self.threshold": 0.44,
            "self._C": E(2), "self._A_inv": E(2), "self.hist_fopt": [], "self.hist_xopt": [], "self.hist_fopt_penalized": [], "self.logger": Obj("logger"), "self.search_space": Obj("space")}


def functions(y):
    return {"acall:self.obj_fun": lambda *a, **k: y, "acall:self._better": lambda a, b: a <= b, "numpy.random.randn": lambda *a: np.ones(a), "mcall:round": lambda D, t, r, a: np.asarray(D.ev(a[0])),
            "round": lambda x, *a, **k: np.asarray(a[0]) if isinstance(x, Obj) else np.round(x, *a, **k), "numpy.random.rand": lambda *a: np.full(a, .5), "numpy.linalg.cholesky": np.linalg.cholesky, "numpy.isreal": np.isreal, "numpy.triu": np.triu, "dynamic_penalty": lambda *a, **k: np.zeros(1)}


def csum(ctx, cn, m):
    return ctx.summ(cn, m, opaque_funcs=("dynamic_penalty", "get_logger", "handle_box_constraint"), opaque=("Solution", "SearchSpace", "RealSpace"))


def cma_obligations(ctx):
    for cn in CMA:
        try:
            c = ctx.cls(cn)
        except Gone:
            continue
        f = c.method("step")
        if f is None:
            continue
        w = f"{f.module.rel}:{f.node.lineno} {cn}.step"

        def state(y=7.0, **kw):
            d = Dom({**base(ctx, cn), **{"self." + k: v for k, v in kw.items()}}, functions(y))
            d.fns["numpy.round"] = d.fns["round"]
            d.o_exc = lambda t, *a: False  # the attempted decomposition succeeds
            d.fns["handle_box_constraint"] = lambda x, *a, **k: x
            return d
        cases = {"plain": {}, "success": {"y": 3.0}, "last": {"eval_count": 9}, "success-last": {"y": 3.0, "eval_count": 9}, "stagnating": {"_delta_f": 1e-9}, "stagnating-last": {"_delta_f": 1e-9, "eval_count": 9},
                 "restarting": {"_delta_f": 1e-9, "n_restart": 2}, "restarting-last": {"_delta_f": 1e-9, "n_restart": 2, "eval_count": 9}, "restarting-full": {"_delta_x": 1e-9, "n_restart": 1, "eval_count": 8},
                 "small-sigma": {"_sigma": 1e-9, "eval_count": 9}, "spare-restarts": {"n_restart": 3, "eval_count": 9}, "nan": {"y": float("nan")}, "nan-last": {"y": float("nan"), "eval_count": 9},
                 "verbose": {"verbose": True}, "verbose-last": {"verbose": True, "eval_count": 9}, "maximize": {"minimize": False}, "maximize-last": {"minimize": False, "eval_count": 9}, "start-last": {"eval_count": 9, "iter_count": 0},
                 "late-last": {"eval_count": 9, "iter_count": 500}, "target-missed-last": {"ftarget": -9.0, "eval_count": 9}, "constrained-last": {"g": Obj("ineq"), "eval_count": 9}}
        for name, kw in cases.items():
            def grow():
                d = state(**kw)
                e0 = d.val["self.eval_count"]
                e1 = d.ev(csum(ctx, cn, "step").get("eval_count"))
                return e1 > e0, f"{cn}.step ({name}): eval_count goes {e0} -> {e1}: a step that does not count its evaluation never uses up the budget"
            yield f"grow/{cn}/{name}", w, "each step of the internal optimizer raises its evaluation count", grow

            def stop():
                d = state(**kw)
                s = csum(ctx, cn, "step")
                e1 = d.ev(s.get("eval_count"))
                st = truthy(d.ev(s.get("_stop")))
                if e1 >= 10 and not st:
                    return False, f"{cn}.step ({name}): the budget of 10 evaluations is used up ({e1}) but the optimizer does not stop"
                if name in ("plain", "success", "nan") and st:
                    return False, f"{cn}.step ({name}): stops with {e1} of 10 evaluations used and no stopping condition met"
                if name == "stagnating" and not st:
                    return False, f"{cn}.step ({name}): stagnation without spare restarts does not stop"
                return True
            yield f"stop/{cn}/{name}", w, "the internal optimizer stops once its evaluation budget is used up", stop
        for nr, vb in ((1, False), (2, False), (1, True), (2, True)):
            def restart():
                d = state(_delta_f=1e-9, n_restart=nr, eval_count=3, verbose=vb)
                s = csum(ctx, cn, "step")
                got, again = d.ev(s.get("n_restart")), d.ev(s.get("_restart"))
                if got < nr and not truthy(again):
                    return True
                if truthy(again):
                    # performed by the next step
                    return None, "the restart is deferred"
                return False, f"{cn}.step: a restart leaves the number of remaining restarts at {got} (was {nr})"
            yield f"restart/{cn}/{nr}" + "/verbose" * vb, w, "each restart uses up one of the requested restarts", restart
        run = c.method("run")
        if run is None:
            continue
        wr = f"{run.module.rel}:{run.node.lineno} {cn}.run"

        def guarded():
            s = ctx.summ(cn, "run", opaque_funcs=(c.method("step").qual, c.method("check_stop").qual if c.method("check_stop") else "check_stop"))
            steps = [e for e in s.events if e.name and str(e.name).split(".")[-1] == "step" and e.kind in ("call", "mcall")]
            if not steps:
                return None, "run() makes no recognisable step call"
            for e in steps:
                stops = [x for p in e.pc for x in subterms(p) if x.op == "sym" and str(x.a[0]).endswith("_stop")]
                tests = [x for p in e.pc for x in subterms(p) if x.op == "call" and str(x.a[0]).endswith("check_stop")]
                recs = [x for p in e.pc for x in subterms(p) if x.op == "rec"]
                if not (stops or tests or recs):
                    return False, f"the step() at {e.where} is not guarded by a stop test"
            return True
        yield f"run/{cn}", wr, "run() starts a step only while the stop flag is down", guarded

        def spent():
            s = ctx.summ(cn, "run", opaque_funcs=(c.method("step").qual, "dynamic_penalty", "get_logger"))
            d = state(eval_count=10)
            d.fns[c.method("step").qual] = d.fns["step"] = lambda *a, **k: None
            for e in s.events:
                if e.name and str(e.name).split(".")[-1] == "step" and e.kind in ("call", "mcall"):
                    try:
                        first = [tv for tv in first_round(d, e)]
                    except Raised:
                        continue
                    if first and first[0] is None:
                        return None, "whether the first step starts is not decided"
                    if first and first[0]:
                        return False, f"{cn}.run starts a step at {e.where} although the budget is already used up by the initial point"
            return True
        yield f"run-spent/{cn}", wr, "run() makes no step once the budget is used up", spent


def first_round(d, e):
    """the path condition of an event in the first round of its loops"""
    rec = {}
    for dom, b in e.loop:
        d.bvs[b.a[0] if isinstance(b, T) else b] = 0
    pc = pcond(e)
    mus = {}
    for p in (pc,):
        for x in subterms(p):
            if x.op == "rec":
                rec[x] = x
    old = d.recs
    init = {}
    for ev in rec:
        nm = str(ev.a[-1])
        init[ev] = d.val.get("self." + nm.split(".")[-1])
    d.recs = {**old, **init}
    try:
        yield d.tri(pc)
    finally:
        d.recs = old


def mies_obligations(ctx):
    try:
        c = ctx.cls("MIES")
    except Gone:
        return
    fs, fo = c.method("stop"), c.method("optimize")
    if fs is not None:
        w = ctx.where(fs)
        fit = np.array([3.0, 2.0, 1.0, 5.0, 4.0, 9.0, 8.0, 7.0, 6.0, 0.5])
        for ev in (99, 100, 103, 0):
            for it in (0, 1, 7):
                for flat in (False, True):
                    def go():
                        s = ctx.summ("MIES", "stop")
                        d = Dom({"self.eval_count": ev, "self.max_eval": 100, "self.iter_count": it, "self.stop_dict": {}, "self.f_offspring": np.full(10, 2.0) if flat else fit, "self.histfunval": np.arange(9.0),
                                 "self.lambda_": 10, "self.nbin": 9, "self.tolfun": 1e-5, "self.mu_": 4, "self.ftarget": None, "self.minimize": True})
                        got = truthy(d.ev(s.ret))
                        if ev >= 100 and not got:
                            return False, f"MIES.stop() with {ev} of 100 evaluations used, iteration {it}: does not stop"
                        if ev < 100 and got and not flat and it in (0, 1):
                            return False, f"MIES.stop() with {ev} of 100 evaluations used, iteration {it}: stops early"
                        return True
                    yield f"stop/{ev}/{it}/{'flat' if flat else 'varied'}", w, "MIES stops once its evaluation budget is used up", go
    fe = c.method("evaluate")
    if fe is not None:
        def count():
            s = ctx.summ("MIES", "evaluate", opaque_funcs=("dynamic_penalty",))
            for n, it, ret, mini in [(n, 1, True, False) for n in (1, 4, 10)] + [(4, 0, True, True), (10, 7, True, False), (4, 3, False, True), (10, 0, False, False)]:
                P = Sol(["p%d" % i for i in range(n)], [1.0] * n)
                d = Dom({"self.eval_count": 20, "pop.N": n, "pop": P, "self.iter_count": it, "self.mu_": 4, "self.lambda_": 10, "self._mu_": 4, "return_penalized": ret, "self.minimize": mini, "self.verbose": False,
                         "self.eq_func": None, "self.ineq_func": None, "self.max_eval": 100})
                got = d.ev(s.get("eval_count"))
                if got != 20 + n:
                    return False, f"MIES.evaluate of {n} individuals in iteration {it}: eval_count goes 20 -> {got}, expected {20 + n}"
            return True
        yield "evaluate", ctx.where(fe), "MIES counts each individual it evaluates", count
    if fo is not None and fs is not None and fe is not None:
        def opt():
            s = ctx.summ("MIES", "optimize", opaque_funcs=(fs.qual, fe.qual, "MIES.recombine", "MIES.mutate", "MIES.select"))
            evs = [e for e in s.events if e.name and str(e.name).split(".")[-1] == "evaluate" and e.kind in ("call", "mcall")]
            if not evs:
                return None, "optimize() makes no recognisable evaluate call"
            for e in evs:
                tests = [x for p in e.pc for x in subterms(p) if x.op == "call" and str(x.a[0]).endswith("stop")]
                loops = [x for dom, b in e.loop for x in subterms(dom) if x.op == "call" and str(x.a[0]).endswith("stop")]
                if not tests and not loops:
                    if any(x.op == "rec" for p in e.pc for x in subterms(p)):
                        return None, "the guard is a loop-carried value"
                    return False, f"evaluations at {e.where} are not guarded by stop()"
                p = subst(pcond(e), {x: FALSE for x in set(tests + loops)})
                if truth(p) is False:
                    return False, f"MIES.optimize evaluates offspring at {e.where} only when the stop test is true"
                if truth(p) is not True:
                    return None, f"the evaluation at {e.where} is conditional within a round"
                return True
        yield "optimize", ctx.where(fo), "each round of MIES evaluates its offspring and starts only while stop() is false", opt
