#!/opt/venv/bin/python
"""Concrete demonstrations of the defects listed in known_findings.txt, run against the real code.
Not a check: only used by hand to confirm that each reported defect is genuine (prints BAD/ok)."""
import os, sys, tempfile, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.environ.get("REPO", "/repo"))
import numpy as np
import bayes_optim as bo
from bayes_optim import *
from bayes_optim.acquisition import acquisition_fun as AF
from bayes_optim.acquisition.optim import OnePlusOne_CMA, argmax_restart
from bayes_optim.search_space import *
from bayes_optim.search_space.node import Node
from bayes_optim.surrogate import RandomForest
warnings.filterwarnings("ignore")
D = {}
def demo(f): D[f.__name__] = f; return f
def rf(sp): return RandomForest(levels=sp.levels)
class M:
    is_fitted = True
    def __init__(s, y, v=1.0): s.a, s.v = y, v
    def predict(s, X, eval_MSE=False): return (np.array([s.a]), np.array([s.v])) if eval_MSE else np.array([s.a])
@demo
def compare_max():
    b = BO(search_space=RealSpace([0, 1]), model=rf(RealSpace([0,1])), minimize=False)
    return b._compare(2., 1.) and not b._compare(1., 2.)
@demo
def ucb_direction():
    return AF.UCB(model=M(0.0))(np.zeros((1,2))) > AF.UCB(model=M(5.0))(np.zeros((1,2)))
@demo
def pi_buildable():
    AF.PI(model=M(0.), plugin=0.); return True
@demo
def node_deepcopy():
    n = Node("a"); n.add_child(Node("b"), "a == 1"); m = n.deepcopy(); return m is not None and m.get_all_name() == ["a", "b"]
@demo
def space_reseed():
    np.random.seed(1); a = np.random.rand(); np.random.seed(1); RealSpace([0, 1]); return np.random.rand() == a
@demo
def seeded_space_distinct():
    s = RealSpace([[0, 1]] * 2, random_seed=3) + IntegerSpace([0, 1000], random_seed=3)
    return s.sample(1).tolist() != s.sample(1).tolist()
@demo
def cma_reseed():
    np.random.seed(7); sp = RealSpace([[0, 1]] * 2); a = []
    for i in range(2):
        OnePlusOne_CMA(search_space=sp, obj_fun=lambda x: 0.0, max_FEs=3).run(); a.append(np.random.rand())
    return a[0] != a[1]
@demo
def seed_zero():
    sp = RealSpace([0, 1]); r = []
    for _ in range(2):
        BO(search_space=sp, model=rf(sp), random_seed=0); r.append(np.random.rand())
    return r[0] == r[1]
@demo
def shared_par():
    sp = RealSpace([[0, 1]] * 2)
    a = AnnealingBO(search_space=sp, model=rf(sp), max_FEs=20, DoE_size=3, n_point=2); b = ParallelBO(search_space=sp, model=rf(sp))
    a._acquisition_par["t"] = 99; return b._acquisition_par["t"] != 99
@demo
def caller_par():
    sp = RealSpace([[0, 1]] * 2); p = {"t": 5.0}
    AnnealingBO(search_space=sp, model=rf(sp), max_FEs=20, DoE_size=3, n_point=2, acquisition_par=p); return p == {"t": 5.0}
@demo
def single_point_par():
    sp = RealSpace([[0, 1]] * 2); got = {}
    b = BO(search_space=sp, model=rf(sp), acquisition_fun="MGFI", acquisition_par={"t": 7.0}, DoE_size=4)
    X = b.ask(); b.tell(X, [sum(x) for x in X])
    orig = AF.MGFI.__init__
    def init(self, t=1, **k): got["t"] = t; orig(self, t=t, **k)
    AF.MGFI.__init__ = init
    try: b.ask()
    finally: AF.MGFI.__init__ = orig
    return got["t"] == 7.0
@demo
def parallel_ucb():
    sp = RealSpace([[0, 1]] * 2)
    b = ParallelBO(search_space=sp, model=rf(sp), acquisition_fun="UCB", DoE_size=4); X = b.ask(); b.tell(X, [sum(x) for x in X]); b.ask(); return True
@demo
def save_exception():
    sp = RealSpace([[0, 1]] * 2); b = BO(search_space=sp, model=rf(sp), DoE_size=4)
    X = b.ask(); b.tell(X, [sum(x) for x in X]); b.bad = (i for i in range(3))
    with tempfile.TemporaryDirectory() as d:
        try: b.save(os.path.join(d, "x"))
        except Exception: pass
    return isinstance(b.data, Solution) and hasattr(b.logger, "info")
@demo
def mo_nan():
    sp = RealSpace([[0, 1]] * 2)
    b = bo.MOBO(search_space=sp, obj_fun=[sum, min], model=rf(sp), DoE_size=6); X = b.ask()
    y = [[sum(x), min(x)] for x in X]; y[0][1] = float("nan"); b.tell(X, y); return len(b.data) == 5
@demo
def cond_falsy():
    from bayes_optim.extension import ConditionalBO
    sp = SearchSpace([Bool("flag"), Integer([0, 1], "k", conditions="flag == True"), Real([0., 1.], "z", conditions="flag == True"), Real([0., 1.], "x", conditions="flag == False")]) 
    b = ConditionalBO(search_space=sp, DoE_size=2, n_point=2, max_FEs=10)
    for _ in range(6):
        X = b.ask(); b.tell(X, [1.0 * (x["k"] or 0) + _ for i, x in enumerate(X)])
    return True
@demo
def neg_index():
    s = Solution([[1, 2], [3, 4]], fitness=[10., 20.]); return s[-1].fitness.tolist() == [20.]
@demo
def dict_key_order():
    s = Solution.from_dict([{"a": 1, "b": 2}, {"b": 20, "a": 10}]); return s.tolist() == [[1, 2], [10, 20]]
@demo
def add_name_order():
    a = Solution([[1, 2]], var_name=["a", "b"]); b = Solution([[20, 10]], var_name=["b", "a"])
    try: c = a + b
    except AssertionError: return True
    return c.tolist() == [[1, 2], [10, 20]]
@demo
def from_dict_default():
    s = SearchSpace.from_dict({"a": {"type": "i", "range": [0, 10], "default": 3}}); return s.dim == 1 and s.data[0].default_value == 3
@demo
def from_dict_step():
    d = {"a": {"type": "i", "range": [0, 10], "step": 2, "N": 2}}; s = SearchSpace.from_dict(d)
    return [v.step for v in s.data] == [2, 2] and "step" in d["a"]
@demo
def from_dict_unknown():
    try: SearchSpace.from_dict({"a": {"type": "i", "range": [0, 10]}, "b": {"type": "zzz", "range": [0, 1]}})
    except Exception: return True
    return False
@demo
def to_from_dict():
    s = SearchSpace([Real([0, 1], "a", precision=2), Integer([0, 5], "b", step=2), Bool("c")]); return SearchSpace.from_dict(s.to_dict()) == s
@demo
def subset_mask():
    s = SearchSpace([Real([0, 1], "a"), Subset(["x", "y"], "s"), Bool("b")])
    return s.subset_mask.tolist() == [False, True, False] and s.categorical_mask.tolist() == [False, True, True]
@demo
def setitem_type():
    s = RealSpace([[0, 1]] * 2); s[0] = Integer([0, 3], "i"); return not isinstance(s, RealSpace)
@demo
def add_mutates_operand():
    a, b = RealSpace([0, 1], var_name="x"), RealSpace([0, 1], var_name="x"); a + b; return b.data[0].name == "x"
@demo
def iadd_mutates_operand():
    a, b = RealSpace([0, 1], var_name="x"), RealSpace([0, 1], var_name="x"); a += b; return b.data[0].name == "x"
@demo
def update_two():
    a = RealSpace([[0, 1], [0, 1]], var_name=["x", "y"]); a.update(RealSpace([[5, 6], [7, 8]], var_name=["x", "y"]))
    return a.bounds == [(5, 6), (7, 8)]
@demo
def eq_hash():
    a, b = Real([0, 1], "a", precision=1), Real([0, 1], "a", precision=2); return a != b or hash(a) == hash(b)
@demo
def fixed_round():
    sp = RealSpace([[0, 1]] * 2, var_name=["a", "b"], precision=1); b = BO(search_space=sp, model=rf(sp), DoE_size=3)
    return all(x[0] == 0.123 for x in b.ask(fixed={"a": 0.123}))
@demo
def cma_restart_flag():
    sp = RealSpace([[0, 1]] * 2); o = OnePlusOne_CMA(search_space=sp, obj_fun=lambda x: float(np.sum(x)), n_restart=2, max_FEs=500, random_seed=1); n = []
    r = o.restart
    o.run(); return o.n_restart >= 0
@demo
def mobo_nobj_optimizer():
    from bayes_optim.surrogate.gaussian_process import GaussianProcessSklearn as G
    sp = RealSpace([[0, 1]] * 2)
    try: b = bo.MOBO(search_space=sp, n_obj=2, obj_fun=[sum, min], model=G(domain=sp, n_obj=2), DoE_size=5)
    except Exception: b = bo.MOBO(search_space=sp, n_obj=2, obj_fun=[sum, min], model=GaussianProcess(mean=trend.constant_trend(2), corr="matern", thetaL=[1e-3]*2, thetaU=[1e3]*2), DoE_size=5)
    return b._optimizer != "BFGS"
@demo
def mobo_warm():
    sp = RealSpace([[0., 1.]] * 2); X = sp.sample(5).tolist()
    b = bo.MOBO(search_space=sp, n_obj=2, obj_fun=[sum, min], model=rf(sp), warm_data=(X, [[sum(x), min(x)] for x in X])); return len(b.data) == 5 and b.eval_count == 0
@demo
def pcabo_bounds():
    from bayes_optim.extension import PCABO
    np.random.seed(3); sp = RealSpace([[-5., 5.]] * 4)
    b = PCABO(search_space=sp, obj_fun=None, DoE_size=6, n_components=2, max_FEs=20, acquisition_fun="MGFI", acquisition_par={"t": 2})
    for _ in range(8):
        X = b.ask(); X = np.asarray(X, dtype=float)
        if (X < -5).any() or (X > 5).any(): return False
        b.tell(X.tolist(), [float(sum(x ** 2)) for x in X])
    return True
@demo
def pcabo_warm():
    from bayes_optim.extension import PCABO
    sp = RealSpace([[-5., 5.]] * 3); X = sp.sample(6).tolist()
    b = PCABO(search_space=sp, n_components=2, warm_data=(X, [sum(x) for x in X])); return b.eval_count == 0
@demo
def partial_batch():
    from bayes_optim.utils import partial_argument
    f = partial_argument(lambda X: X, ["a", "b", "c"], {"b": 9}); return f(np.array([[1, 3], [4, 6], [7, 8]], dtype=object)).tolist() == [[1, 9, 3], [4, 9, 6], [7, 9, 8]]
@demo
def rf_fitted():
    sp = RealSpace([[0, 1]] * 2); m = rf(sp)
    try: m.fit(np.zeros((0, 2)), np.zeros(0))
    except Exception: pass
    return not m.is_fitted
@demo
def fmin_first_batch():
    np.random.seed(1)
    r = fmin(lambda x: sum(np.asarray(x) ** 2), [-1., -1.], [1., 1.], x0=4, max_FEs=6, seed=3); return len(r[4][0]) == 4
@demo
def fmin_int_bounds():
    fmin(lambda x: sum(np.asarray(x) ** 2), 0, 1, x0=4, max_FEs=5, seed=3); return True
@demo
def logger_console():
    from bayes_optim.utils.logger import get_logger, dump_logger
    import dill
    with tempfile.TemporaryDirectory() as d:
        l = get_logger("zz1", file=os.path.join(d, "f"), console=False); r = dill.loads(dump_logger(l))["console"]
        for h in l.handlers: h.close()
    return r is False
@demo
def int_step_mies():
    sp = IntegerSpace([[0, 20]] * 3, step=5) + RealSpace([0, 1])
    np.random.seed(1)
    x, f = argmax_restart(lambda x: float(-sum((np.asarray(x, dtype=float).ravel()[:3] - 7) ** 2)), sp, eval_budget=300, n_restart=1, optimizer="MIES")
    return all(v % 5 == 0 for v in x[:3])
@demo
def self_adaptive():
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    sp = RealSpace([[0, 1]] * 2); b = SelfAdaptiveBO(search_space=sp, model=rf(sp), DoE_size=4, n_point=4)
    X = b.ask(); b.tell(X, [sum(x) for x in X]); b.ask(); return True
@demo
def int_seed_getter():
    sp = RealSpace([0, 1]); b = BO(search_space=sp, model=rf(sp)); return b.random_seed is None
@demo
def feasible_after_round():
    np.random.seed(0); sp = RealSpace([[0., 1.]], precision=1)
    b = BO(search_space=sp, model=rf(sp), ineq_fun=lambda x: x[0] - 0.47, DoE_size=20); return all(x[0] <= 0.47 for x in b.ask())
@demo
def mobo_xopt_precision():
    sp = RealSpace([[0., 1.]] * 2); b = bo.MOBO(search_space=sp, n_obj=2, obj_fun=[sum, min], model=rf(sp), DoE_size=5)
    X = sp.sample(3).tolist(); b.tell(X, [[1., 1.], [1e6 + 1e-3, 0.], [1e6, 0.]]); return b.xopt.fitness.tolist() == [[1., 1.], [1e6, 0.]]
@demo
def mobo_parallel_obj():
    sp = RealSpace([[0., 1.]] * 2); b = bo.MOBO(search_space=sp, n_obj=2, parallel_obj_fun=lambda X: [[sum(x), min(x)] for x in X], model=rf(sp), DoE_size=5)
    b.evaluate([[0, 1]]); return True
@demo
def refit_fails_rf():
    sp = RealSpace([[0., 1.]] * 2); m = RandomForest(levels={}); X = np.random.rand(6, 2); m.fit(X, X.sum(1))
    try: m.fit(X, X.sum(1)[:3])
    except Exception: pass
    return not m.is_fitted
@demo
def refit_fails_gpr():
    from bayes_optim.surrogate import GaussianProcess, trend
    m = GaussianProcess(mean=trend.constant_trend(2), corr="matern", thetaL=1e-3 * np.ones(2), thetaU=1e3 * np.ones(2), nugget=1e-6, optimizer="BFGS", wait_iter=2, random_start=2, eval_budget=50)
    X = np.random.rand(6, 2); m.fit(X, X.sum(1))
    m._optimize_hyperparameter = lambda: 1 / 0
    try: m.fit(np.r_[X, X + 1], np.r_[X, X].sum(1))
    except ZeroDivisionError: pass
    if m.is_fitted: m.predict(X)
    return not m.is_fitted
@demo
def gpr_noise_estim_constant():
    import signal
    from bayes_optim.surrogate import GaussianProcess, trend
    def stop(*a): raise TimeoutError
    signal.signal(signal.SIGALRM, stop); signal.alarm(20)
    m = GaussianProcess(mean=trend.constant_trend(2), corr="matern", thetaL=1e-3 * np.ones(2), thetaU=1e3 * np.ones(2), noise_estim=True, optimizer="BFGS", wait_iter=2, random_start=2, eval_budget=50, likelihood="concentrated")
    m.fit(np.random.rand(4, 2), np.ones(4)); signal.alarm(0); return True
@demo
def cma_budget():
    from bayes_optim.acquisition.optim.one_plus_one_cma_es import OnePlusOne_CMA
    c = []
    OnePlusOne_CMA(search_space=RealSpace([[-1., 1.]] * 2), obj_fun=lambda x: c.append(1) or 1.0, max_FEs=1).run()
    return len(c) == 1
@demo
def warm_category_types():
    for v, val in ((Bool(name="b"), True), (Ordinal([1, 2, 3], name="b"), 2), (Discrete([1, 2], name="b"), 1)):
        sp = SearchSpace([Real([0, 1], name="x"), v])
        b = BO(search_space=sp, obj_fun=lambda x: 1., max_FEs=10, model=rf(sp), DoE_size=3, warm_data=([[.5, val], [.2, val]], [1.0, 2.0]))
        if len(b.data) != 2: return False
    return True
if __name__ == "__main__":
    names = sys.argv[1:] or list(D)
    for n in names:
        try:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()): r = D[n]()
            print(("ok  " if r else "BAD ") + n)
        except BaseException as e:
            print("BAD " + n + "  " + type(e).__name__ + ": " + str(e)[:150])
