"""Shared abstract model of ask/tell state: row tokens, order-class fitness values."""
import numpy as np

from .common import *  # noqa
from .dom import Dom, Obj, Sol, Unknown, Raised

NAN, INF = float("nan"), float("inf")


# settings a user may choose freely: any value is an instance
SETTINGS = {"self.n_job": 1, "self._DoE_size": 2, "self.DoE_size": 2, "self.dim": 2, "self.n_point": 1, "self.verbose": False, "self._init_flatfitness_trial": 2, "self.AQ_max_FEs": 100, "self.AQ_n_restart": 2,
            "self.AQ_wait_iter": 3}


def is_mo(ctx, c):
    b = ctx.prog.cls("BaseMOBO", False)
    return b is not None and c.issub(b)


def minmax(f):
    f = np.asarray(f, dtype=float)
    lo, hi = f.min(0), f.max(0)
    return (f - lo) / np.where(hi - lo == 0, 1, hi - lo)


def valuation(mo, data=True, warm=False, minimize=True, vals=None, rows=None, dataf=None, extra=None):
    n_obj = 2 if mo else 1
    if vals is None:
        vals = [[1.0, 2.0], [2.0, 7.0], [3.0, 6.0]] if mo else [1.0, 2.0, 3.0]
    rows = rows or [f"p{i}" for i in range(len(vals))]
    if dataf is None:
        dataf = [[5.0, 4.0], [4.0, 9.0]] if mo else [5.0, 4.0]
    D = Sol([f"d{i}" for i in range(len(dataf))], dataf, [1] * len(dataf), list(range(len(dataf))), ["a", "b"], n_obj)
    val = {
        "hasattr:data": data, "X": list(rows), "func_vals": [list(v) if isinstance(v, list) else v for v in vals], "warm_start": warm, "index": None, "h_vals": None, "g_vals": None,
        "self.eval_count": 10 if data else 0, "self.iter_count": 4 if data else 0, "self.n_obj": n_obj, "self.data_file": None, "self.h": None, "self.g": None, "self._h": None, "self._g": None,
        "self.minimize": (np.array([minimize] * 2) if isinstance(minimize, bool) else np.array(minimize)) if mo else minimize,
        "self.hist_f": [f"h{i}" for i in range(4)] if data else [], "self._bo_idx": [0] * len(rows), "self._eval_type": "list", "self.n_point": 1, "self.verbose": False,
    }
    for k, v in SETTINGS.items():
        val.setdefault(k, v)
    if data:
        val["self.data"] = D
    val.update(extra or {})

    def geno(x, index=None, n_eval=1, fitness=None, **k):
        if isinstance(x, Sol):
            x = x.rows
        return Sol(list(x), fitness, [n_eval] * len(x), None, ["a", "b"], n_obj)

    def ft(D_, t, recv, a):
        if recv.op == "call" and "Scaler" in recv.a[0]:
            return minmax(D_.ev(a[0]))
        return NotImplemented

    def newsol(*a, **k):
        a = [x for x in a if isinstance(x, (list, Sol, np.ndarray))]
        return geno(a[0] if a else k["x"], fitness=k.get("fitness"), n_eval=k.get("n_eval", 0))
    fns = {"acall:self._to_geno": geno, "mcall:fit_transform": ft, "Solution": newsol, "bayes_optim.solution.Solution.from_dict": newsol, "Solution.from_dict": newsol}
    return val, fns, D


def dom(mo, **k):
    val, fns, D = valuation(mo, **k)
    d = Dom(val, fns)
    d.D = D
    return d


def bad(v):
    return any(x != x or abs(x) == INF for x in (v if isinstance(v, list) else [v]))


def expected_data(D, data, rows, vals):
    r = list(D.rows) if data else []
    f = D.fitness.tolist() if data else []
    for p, v in zip(rows, vals):
        if not bad(v):
            r.append(p)
            f.append(v)
    return r, f


def const_inits(ctx, c):
    """attributes the constructors set to a constant -> value"""
    import ast
    out = {}
    for k in reversed([x for x in c.mro() if hasattr(x, "node")]):
        f = k.methods.get("__init__")
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        try:
                            out[t.attr] = ast.literal_eval(n.value)
                        except (ValueError, SyntaxError):
                            out.setdefault(t.attr, Unknown)
    return out


def advance(d, s, val):
    """the valuation after the summarised operation: every attribute it writes takes its abstract final value"""
    names = [k[1] for k in s.I.st.heap if isinstance(k, tuple) and k[0] is s.obj]
    names += [k.a[0].split(".", 1)[1] for k in s.I.st.heap if isinstance(k, T) and k.op == "ref" and k.a[0].startswith("self.")]
    out = dict(val)
    for n in dict.fromkeys(names):
        v = s.attr(n)
        if v is None or (v.op == "sym" and v.a[0] == "self." + n):
            continue
        try:
            has = truthy(d.ev(s.I._has(s.obj, n, s.I.st.heap.get((s.obj, n), TRUE))))
        except Unknown:
            has = True
        try:
            if has:
                out["self." + n] = d.ev(v)
                out["hasattr:" + n] = True
        except Unknown:
            out.pop("self." + n, None)
            out.pop("hasattr:" + n, None)
    return out
