"""One call of ask() as a value-flow session, evaluated on small abstract situations: a mixed space, a recorded history and scripted
outcomes of the acquisition search and of the sampler. Functions handed around (criteria, constraints, completions) are first-class: a
closure of the analysed program is applied by the value-flow engine."""
import numpy as np

from .session import *  # noqa
from .spacemodel import Space, SpaceDom, Var
from .dom import Sol, copyv, truthy

ACQ = ("EI", "PI", "UCB", "MGFI", "EpsilonPI")
ASK_OPAQUE = OPAQUE + ACQ


class PSol(Sol):
    """solutions whose rows are points"""

    def like(self, rows, idx):
        s = PSol([self.rows[k] for k in idx] if rows is None else rows, self.fitness[idx], [self.n_eval[k] for k in idx], [self.index[k] for k in idx], self.names, self.n_obj)
        return s

    def copy(self):
        s = PSol(self.rows, self.fitness.copy(), self.n_eval, self.index, self.names, self.n_obj)
        s.single = self.single
        return s

    def mat(self):
        m = np.empty((len(self.rows), len(self.names)), dtype=object)
        for i, r in enumerate(self.rows):
            for j, v in enumerate(r):
                m[i, j] = v
        return m

    def take(self, i):
        if self.single:
            m = self.mat()[0]
            return m[np.asarray(i, dtype=int) if isinstance(i, (list, np.ndarray)) and len(i) == 0 else i]
        if isinstance(i, tuple) and not (len(i) == 2 and isinstance(i[1], slice) and i[1] == slice(None)):
            i = tuple(np.asarray(x, dtype=int) if isinstance(x, (list, np.ndarray)) and len(x) == 0 else x for x in i)
            return self.mat()[i]
        s = Sol.take(self, i)
        r = PSol(s.rows, s.fitness, s.n_eval, s.index, s.names, s.n_obj)
        r.single = s.single
        return r

    def __add__(self, o):
        s = Sol.__add__(self, o)
        return PSol(s.rows, s.fitness, s.n_eval, s.index, s.names, s.n_obj)


class Fun(Obj):
    """a function of the analysed program, or a bound / partially applied one, that the evaluation can apply"""

    def __init__(self, name, call, **k):
        super().__init__(name, **k)
        self.call_ = call
        self.truth = True

    def __call__(self, *a, **k):
        return self.call_(*a, **k)


class AskDom(SDom, SpaceDom):
    def __init__(self, ctx, I, val, script):
        Dom.__init__(self, val, {}, limit=40)
        self.ctx, self.prog, self.I, self.depth = ctx, ctx.prog, I, 0
        self.script = script
        self.searches, self.samples, self.evals, self.raws = [], [], [], []
        f = self.fns
        f["type"] = self.typ
        f["NondominatedPartitioning"] = lambda *p, **kw: Obj("partitioning")
        f["eval"] = lambda s: Obj(str(s))
        self.c_Solution, self.c_Solution_from_dict, self.c_argmax_restart = self.solution, self.from_dict, self.argmax
        f["get_logger"] = lambda *p, **kw: Obj("logger")
        f["id"] = lambda *p: 7
        f["time.time"] = lambda *p: 0.0
        f["mcall:filter"] = self.filter
        f["mcall:sample"] = self.sample
        f["mcall:to_dict"] = self.to_dict
        self.c_func_with_list_arg = self.wrapped
        f["len"] = lambda x: len(x.data) if isinstance(x, Space) else len(x)
        f["numpy.random.randn"] = lambda *a, **k: self.draw()
        f["numpy.argsort"] = lambda x, *a, **k: np.argsort(np.array([float(v) for v in x]))
        f["getattr"] = self.attr_of
        f["mcall:round"] = lambda D, t, recv, a: self.rounded(D.ev(recv), *D.args(a)[0], **D.args(a)[1]) if isinstance(D.ev(recv), Space) else NotImplemented
        f["round"] = f["numpy.round"] = lambda x, *a, **k: self.rounded(x, *a, **k) if isinstance(x, Space) else np.round(x, *a, **k) if isinstance(x, np.ndarray) else round(x, *a, **k)
        for a in ACQ + ("EHVI",):
            f[a] = (lambda nm: lambda *p, **kw: self.crit(nm, p, kw))(a)

    def rounded(self, sp, X):
        """real variables rounded to their declared precision"""
        X = np.array(X.mat() if isinstance(X, PSol) else X, dtype=object)
        X = X.reshape(1, -1) if X.ndim == 1 else X
        for j, v in enumerate(sp.data):
            if v.kind == "Real" and getattr(v, "precision", None) is not None:
                X[:, j] = [min(max(round(float(x), v.precision), v.bounds[0]), v.bounds[1]) for x in X[:, j]]
        return X

    def attr_of(self, o, n, *rest):
        """an acquisition function picked by its computed name"""
        if n in ACQ and isinstance(o, Obj) and not rest:
            return Fun(n, lambda *p, **kw: self.crit(n, p, kw), plugin=True)
        raise Unknown(f"call getattr {o!r} {n!r} {rest!r}")

    # -- functions
    def o_closure(self, t, n, name, *at):
        bvs, recs, rver = dict(self.bvs), dict(self.recs), dict(self.rver)
        home = self.I.closure_home[n][0]
        bvs.update({b.a[0]: self.ev(x) for b, x in zip(home.a[2:], at)})
        t = home

        def call(*pos, **kw):
            return self.apply(t, pos, kw, bvs, recs, rver)
        return Fun("closure", call, term=t)

    def o_func(self, t, *a):
        f = self.prog.func(str(a[1]), False) if "." not in str(a[1]) else None
        return Fun("function " + str(a[1]), lambda *pos, **kw: self.fns[str(a[1])](*pos, **kw) if str(a[1]) in self.fns else getattr(self, "c_" + str(a[1]))(*pos, **kw) if hasattr(self, "c_" + str(a[1])) else self.apply(t, pos, kw, {}, {}, {}), term=t)

    def apply(self, t, pos, kw, bvs, recs, rver):
        key = ("apply", t, len(pos), tuple(sorted(kw)))
        cache = self.I.__dict__.setdefault("applied", {})
        if key not in cache:
            I = self.I
            I.n += 1
            names = [f"arg!{I.n}!{i}" for i in range(len(pos))], {k: f"arg!{I.n}!{k}" for k in kw}
            m = len(I.events)
            loops, pc = I.loops, I.st.pc
            I.loops, I.st.pc = (list(I.closure_home[t.a[0]][1]) if t.op == "closure" else []), ()
            r = I.call(t, [I.fresh(mk("sym", n)) for n in names[0]], {k: I.fresh(mk("sym", n)) for k, n in names[1].items()}, None)
            cache[key] = (names, I.deep(r))
            I.loops, I.st.pc = loops, pc
            del I.events[m:]
        (pn, kn), r = cache[key]
        d = self
        old = (d.bvs, d.recs, d.rver, d.memo, dict(d.val))
        try:
            d.bvs, d.recs, d.rver, d.memo = dict(bvs), dict(recs), dict(rver), {}
            d.val.update(zip(pn, pos))
            d.val.update({kn[k]: v for k, v in kw.items()})
            return d.ev(r)
        finally:
            d.bvs, d.recs, d.rver, d.memo, d.val = old

    def o_partial(self, t, f, *a):
        fn = self.fun(f)
        pos, kw = self.args(a)
        return Fun("partial", lambda *p, **k: fn(*pos, *p, **{**kw, **k}), fn=fn, pos=pos, kw=kw)

    def fun(self, f):
        return self.ev(f)

    def crit(self, name, pos, kw):
        def call(X, return_dx=False):
            self.evals.append((name, copyv(X)))
            X = np.atleast_2d(np.asarray(X, dtype=object))
            v = np.array([10.0 + i for i in range(X.shape[0])])
            dx = np.arange(X.shape[1], dtype=float).reshape(-1, 1) + 1
            return (v, dx) if return_dx else v
        return Fun(name, call, pos=pos, kw=kw)

    def wrapped(self, *p, **kw):
        b = dict(zip(("func", "arg_type", "var_names"), p))
        b.update(kw)
        f, typ, names = b.get("func"), b.get("arg_type"), b.get("var_names")

        def call(X):
            self.evals.append((f._name if isinstance(f, Obj) else str(f), copyv(X)))
            return np.atleast_1d(self.script.get("constraint", 0.0))
        return Fun("wrapped", call, of=f, typ=typ, names=names)

    def raw(self, who, *a, **k):
        """the user's own function, called without an adapter"""
        self.raws.append((who, a[0] if len(a) == 1 and not k else None))
        self.evals.append((who, copyv(self.raws[-1][1])))
        return self.script.get("constraint", 0.0)

    # -- the search and the sampler
    def argmax(self, *p, **kw):
        names = self.ctx.func("argmax_restart").args()
        b = dict(zip(names, p))
        b.update(kw)
        k = len(self.searches)
        self.searches.append(b)
        sp = b["search_space"]
        rows = self.script.get("search")
        x = rows[k] if rows and k < len(rows) and rows[k] is not None else self.point(sp, k, 0)
        if x == []:
            return ([], [])
        if isinstance(x, dict):
            x = [x[n] for n in sp.var_name]
        return (list(x), 0.5 + 0.01 * k)

    def point(self, sp, k, src):
        """a fresh point of the space"""
        out = []
        for v in sp.data:
            if v.kind == "Real":
                out.append(round(0.1 + 0.013 * k + 0.3 * src + 0.001 * len(v.name), 6 if getattr(v, "precision", None) is None else v.precision))
            elif v.kind == "Integer":
                out.append(1 + k % 5 + src)
            else:
                b = list(v.bounds)
                out.append(b[k % len(b)])
        return out

    def sample(self, D, t, recv, a):
        sp = self.ev(recv)
        if not isinstance(sp, Space):
            raise Unknown("sampled space")
        pos, kw = self.args(a)
        b = dict(zip(("N", "method", "h", "g", "tol"), pos))
        b.update(kw)
        k = len(self.samples)
        self.samples.append((sp, b))
        n = int(b.get("N", 1))
        rows = self.script.get("sample")
        if rows is not None and k < len(rows):
            X = [[r[nm] for nm in sp.var_name] if isinstance(r, dict) else list(r) for r in rows[k]][:n]
        else:
            base = sum(int(s[1].get("N", 1)) for s in self.samples[:k])
            X = [self.point(sp, base + i, 1) for i in range(n)]
        out = np.empty((len(X), len(sp.var_name)), dtype=object)
        for i, x in enumerate(X):
            for j, v in enumerate(x):
                out[i, j] = v
        return out

    def filter(self, D, t, recv, a):
        sp = self.ev(recv)
        if not isinstance(sp, Space):
            raise Unknown("filtered space")
        pos, kw = self.args(a)
        b = dict(zip(("keys", "invert"), pos))
        b.update(kw)
        keys = list(b["keys"])
        inv = bool(b.get("invert", False))
        return Space([v for v in sp.data if (v.name in keys) != inv])

    # -- solutions
    def solution(self, *p, **kw):
        b = dict(zip(("x", "fitness", "n_eval", "index", "var_name", "n_obj"), p))
        b.update(kw)
        X = b["x"]
        if isinstance(X, PSol):
            rows = list(X.rows)
        else:
            if isinstance(X, np.ndarray):
                X = X.tolist()
            rows = list(X)
            if rows and not isinstance(rows[0], (list, tuple, np.ndarray, PSol)):
                rows = [rows]
            rows = [r.rows[0] if isinstance(r, PSol) and r.single else r for r in rows]
            rows = [tuple(r.tolist() if isinstance(r, np.ndarray) else r) for r in rows]
        names = b.get("var_name")
        idx = b.get("index")
        fit = b.get("fitness")
        return PSol(rows, fit, None, None if idx is None else list(idx), list(names) if names is not None else None, 1)

    def from_dict(self, x, **kw):
        names = kw.get("var_name")
        xs = x if isinstance(x, (list, tuple)) else [x]
        return self.solution([[r[n] for n in names] for r in xs], var_name=names, index=kw.get("index"), fitness=kw.get("fitness"))

    def to_dict(self, D, t, recv, a):
        v = self.ev(recv)
        if isinstance(v, PSol):
            out = [dict(zip(v.names, r)) for r in v.rows]
            return out[0] if v.single else out
        return NotImplemented

    def arr(self, x):
        return x.mat() if isinstance(x, PSol) else x

    def isinst(self, v, k):
        if k.op == "tuple":
            return any(self.isinst(v, x) for x in k.a)
        if isinstance(v, Obj) and not isinstance(v, (Var, Space)):
            n = str(k.a[0]).split(".")[-1] if k.op in ("mod", "cls") else None
            if v._name == "model":
                return False
            if n in ("str", "int", "float", "bool", "list", "tuple", "dict", "ndarray", "Solution"):
                return False
        return SpaceDom.isinst(self, v, k)

    def getattr(self, v, name):
        if isinstance(v, PSol) and name == "T":
            return v.mat().T
        return SpaceDom.getattr(self, v, name)


def mixed(order=("r1", "k", "c", "r2", "o"), precision=None):
    V = {"r1": lambda: Var("Real", "r1", (0.0, 5.0), precision=precision), "r2": lambda: Var("Real", "r2", (0.0, 5.0), precision=precision), "k": lambda: Var("Integer", "k", (0, 99)),
         "c": lambda: Var("Discrete", "c", ("u", "v", "w")), "o": lambda: Var("Ordinal", "o", (10, 20, 30)), "b": lambda: Var("Bool", "b")}
    return Space([V[n]() for n in order])


def reals(n=3):
    return Space([Var("Real", "x" + str(i), (0.0, 5.0)) for i in range(n)])


def ask_session(ctx, cname, acq, eval_type="list", h=False, g=False, **extra):
    key = ("ask", cname, acq, eval_type, h, g, repr(extra))
    if key not in ctx._sum:
        kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": mk("sym", "minimize"), "n_job": mk("sym", "n_job"), "max_FEs": 100,
              "eval_type": eval_type, "acquisition_fun": acq, "DoE_size": mk("sym", "DoE_size")}
        kw["eq_fun"] = mk("sym", "eq") if h else None
        kw["ineq_fun"] = mk("sym", "ineq") if g else None
        kw.update(extra)
        s = Session(ctx, cname, kw, opaque=ASK_OPAQUE, opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
        s.later()
        r = s.call("ask", n_point=mk("sym", "n"), fixed=mk("sym", "fixed"))
        ctx._sum[key] = (s, r)
    return ctx._sum[key]


def ask_dom(ctx, s, space, n=1, fixed=None, history=None, fitted=True, script=None, n_job=1, doe=4, **more):
    names = list(space.var_name)
    val = {"search_space": space, "len(search_space)": len(names), "model": Obj("model", is_fitted=fitted, gradient=True), "minimize": True, "n_job": n_job, "n": n, "fixed": fixed,
           "DoE_size": doe, "iter_count": 3, "eval_count": 8, "eq": Fun("eq", None), "ineq": Fun("ineq", None), "self.fmin": -1.0, "self.fmax": 1.0, "hasattr:data": history is not None, "hasattr:plugin": True}
    if history is not None:
        val["self.data"] = PSol([tuple(r) for r in history], [float(i) for i in range(len(history))], [1] * len(history), list(range(len(history))), names)
    val.update(more)
    d = AskDom(ctx, s.I, val, script or {})
    for k in ("eq", "ineq"):
        if isinstance(val[k], Fun) and val[k].call_ is None:
            val[k].call_ = (lambda k: lambda *a, **q: d.raw(k, *a, **q))(k)
    return d
