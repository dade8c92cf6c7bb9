import numpy as np

from ..common import *  # noqa
from ..dom import Dom, Obj, Unknown, Raised, copyv

TECHNIQUE = "value-flow summaries of Solution's selection, concatenation, replication and construction, evaluated over row/column tokens for every index form"
RULE = ("Alignment analysis: summaries of Solution.__getitem__, __add__, __mul__, unique, from_dict, to_dict, __new__ and __array_finalize__ are evaluated over solutions whose rows, columns, "
        "fitness values, evaluation counts, indices and names are distinct tokens, for every form of index (positive/negative integers, slices, masks, index lists, row/column pairs) and "
        "single- and multi-objective solutions; in the result every row must carry its own attributes and every column its own name, and incompatible operands must be refused.")


class Arr(Obj):
    """abstract Solution with explicit cells"""

    def __init__(self, data, fitness=None, n_eval=None, index=None, var_name=None, n_obj=1, fitness_name=None, verbose=True):
        data = np.asarray(data, dtype=object)
        super().__init__("Solution", data=data, shape=data.shape, ndim=data.ndim, N=1 if data.ndim == 1 else data.shape[0], dim=data.shape[-1] if data.ndim else 0,
                         fitness=fitness, n_eval=n_eval, index=index, var_name=var_name, n_obj=n_obj, fitness_name=fitness_name, verbose=verbose)
        self.tolist = data.tolist
        self.to_list = data.tolist
        self.reshape = lambda *a: data.reshape(*a)
        self.view = lambda *a: data
        self.__array__ = None
        self.size = data.size

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return True


def sol(n, d, n_obj=1, one=False, names=None, tag="x", fname=None):
    names = names or [f"v{j}" for j in range(d)]
    cells = np.empty((n, d), dtype=object)
    for i in range(n):
        for j in range(d):
            cells[i, j] = f"{tag}{i}.{names[j]}"
    f = np.array([10.0 * (i + 1) + (100 if tag != "x" else 0) for i in range(n)])
    if n_obj > 1:
        f = np.stack([f + k for k in range(n_obj)], 1)
    base = 0 if tag == "x" else 50
    ne = np.array([base + i + 1 for i in range(n)])
    ix = np.array([f"{tag}#{i}" for i in range(n)])
    fname = fname or (["f"] if n_obj == 1 else [f"f{k}" for k in range(n_obj)])
    if one:
        return Arr(cells[0], f[0:1] if n_obj == 1 else f[0], ne[:1], ix[:1], np.array(names), n_obj, fname)
    return Arr(cells, f, ne, ix, np.array(names), n_obj, fname)


class SolDom(Dom):
    def __init__(self, ctx, me=None, **val):
        v = dict(val)
        if me is not None:
            v["self"] = me
            v.update({"self." + k: x for k, x in me.__dict__.items() if not k.startswith("__")})
        super().__init__(v)
        self.me = me
        self.prog = ctx.prog
        self.fns.update({"slice": lambda *a: slice(*a), "super.__getitem__": self.raw_get, "__getitem__": self.raw_get, "Solution": self.ctor, "super.tolist": lambda *a: me.data.tolist(), ".view": self.view, "view": self.view})

    def raw_get(self, *a):
        me, i = self.me, a[-1]
        try:
            r = me.data[i]
        except IndexError:
            raise Raised("IndexError")
        if not isinstance(r, np.ndarray):
            return r
        n = Arr(r, me.fitness, me.n_eval, me.index, me.var_name, me.n_obj, me.fitness_name, me.verbose)
        n.N, n.dim = me.N, me.dim
        return n

    def view(self, a, *k):
        if isinstance(a, Arr):
            return a.data
        if k and isinstance(k[0], Obj) or k and not isinstance(k[0], type):
            return Arr(a)
        return a

    def ctor(self, x, fitness=None, n_eval=0, index=None, var_name=None, fitness_name=None, n_obj=1, verbose=True):
        x = x.data if isinstance(x, Arr) else x
        if len(x) and isinstance(x[0], (list, np.ndarray)) and len(x[0]) and isinstance(x[0][0], list):
            raise Raised("More than 2D")
        data = np.empty((len(x), len(x[0])), dtype=object) if isinstance(x[0], (list, np.ndarray)) else np.empty(len(x), dtype=object)
        for i, r in enumerate(x):
            if data.ndim == 1:
                data[i] = r
            else:
                if len(r) != data.shape[1]:
                    raise Raised("ragged")
                for j, c in enumerate(r):
                    data[i, j] = c
        n = 1 if data.ndim == 1 else len(data)
        if n_obj > 1:
            if not hasattr(fitness, "__iter__"):
                fitness = [[fitness] * n_obj] * n
            elif not hasattr(fitness[0], "__iter__"):
                if len(fitness) != n_obj:
                    raise Raised("assert")
                fitness = [fitness] * n
            if not all(len(q) == n_obj for q in fitness):
                raise Raised("assert")
        elif not hasattr(fitness, "__iter__"):
            fitness = [fitness] * n
        ne = [n_eval] * n if not hasattr(n_eval, "__iter__") else list(n_eval)
        ix = [str(i) for i in range(n)] if index is None else [index] if isinstance(index, (str, int)) else list(index)
        if len(fitness) != n or len(ix) != n:
            raise Raised("assert")
        d = data.shape[-1]
        vn = (["x"] if d == 1 else [f"x{i}" for i in range(d)]) if var_name is None else list(var_name)
        if len(vn) != d:
            raise Raised("assert")
        return Arr(data, np.asarray(fitness, dtype=float), np.asarray(ne), np.asarray([str(q) for q in ix]), np.asarray(vn), n_obj, fitness_name, verbose)

    def o_cls(self, t, q):
        return Obj(q.split(".")[-1])

    def isinst(self, v, k):
        if k.op == "tuple":
            return any(self.isinst(v, x) for x in k.a)
        n = str(k.a[0]) if k.op in ("mod", "cls") else ""
        if n.endswith("Solution"):
            return isinstance(v, Obj) and "data" in v.__dict__
        if n in ("numpy.int_", "numpy.int64", "numpy.integer"):
            return isinstance(v, np.integer)
        if isinstance(v, Obj):
            if n == "numpy.ndarray":
                return "data" in v.__dict__
            return False
        return super().isinst(v, k)

    def c_tolist(self, x):
        return x.data.tolist() if isinstance(x, Obj) and "data" in x.__dict__ else x.tolist() if isinstance(x, np.ndarray) else super().c_tolist(x)

    def arr(self, x):
        if isinstance(x, Obj) and "data" in x.__dict__:
            return x.data
        return super().arr(x)

    def setp(self, v, path, x):
        if len(path) == 1 and path[0].op == "pattr" and isinstance(v, Arr):
            w = Arr(v.data)
            w.__dict__.update(v.__dict__)
            w.__dict__[path[0].a[0]] = x
            return w
        return super().setp(v, path, x)

    def tokmethod(self, v, name, pos, kw):
        if isinstance(v, np.ndarray) and name == "view":
            return self.view(v, *pos)
        if isinstance(v, set) and name in ("symmetric_difference", "difference", "union", "intersection", "issubset", "issuperset"):
            return getattr(v, name)(*[list(p) if not isinstance(p, set) else p for p in pos])
        if isinstance(v, Arr) and name == "__len__" and not pos:
            return len(v)
        if isinstance(v, Obj) and "data" in v.__dict__:
            d = SolDom(Obj("ctx", prog=self.prog), v)
            c = self.prog.cls("Solution")
            f = c.method(name)
            if f is not None and not pos and not kw and CTX:
                k = ("c16tok", name)
                if k not in CTX[0]._sum:
                    CTX[0]._sum[k] = CTX[0].run(f, c, opaque=("Node",))
                return d.ev(CTX[0]._sum[k].ret)
        return super().tokmethod(v, name, pos, kw)


CTX = []


def expect(x, i):
    """(data, fitness, n_eval, index, names) a selection must have; None for a scalar"""
    if x.data.ndim == 1:
        r = x.data[i]
        if not isinstance(r, np.ndarray):
            return r
        return r, x.fitness, x.n_eval, x.index, x.var_name[i]
    ri, ci = (i if isinstance(i, tuple) and len(i) == 2 else (i[0] if isinstance(i, tuple) else i, slice(None)))
    if isinstance(ri, (int, np.integer)) and isinstance(ci, (int, np.integer)):
        return x.data[ri, ci]
    rows = np.arange(x.data.shape[0])[ri]
    cols = np.arange(x.data.shape[1])[slice(ci, (ci + 1) or None) if isinstance(ci, int) else ci]
    single = np.ndim(rows) == 0
    rr = np.atleast_1d(rows)
    data = x.data[rr][:, cols] if len(rr) else x.data[[], :][:, cols]
    f = x.fitness[rr] if len(rr) else x.fitness[[]]
    return (data[0] if single else data), (f.ravel() if single else f), x.n_eval[rr] if len(rr) else x.n_eval[[]], x.index[rr] if len(rr) else x.index[[]], x.var_name[cols]


def eqv(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and all(p == q for p, q in zip(a.ravel().tolist(), b.ravel().tolist()))


def match(r, w, what):
    if not isinstance(w, tuple):
        return (not isinstance(r, Obj)) and r == w, f"{what}: gives {r}, expected the cell {w}"
    if not isinstance(r, Obj):
        return False, f"{what}: gives {r!r}, not a Solution"
    data, f, ne, ix, vn = w
    for n, g, want in (("points", r.data, data), ("fitness", r.fitness, f), ("n_eval", r.n_eval, ne), ("index", r.index, ix), ("var_name", r.var_name, vn)):
        if n == "index" and ix is None:
            continue
        if n == "fitness" and np.asarray(g).size == np.asarray(want).size and np.asarray(data).ndim == 1:
            g, want = np.ravel(g), np.ravel(want)
        if not eqv(g, want):
            return False, f"{what}: {n} = {np.asarray(g).tolist()}, expected {np.asarray(want).tolist()} for the points {np.asarray(data).tolist()}"
    nd = np.asarray(data).ndim
    if r.N != (1 if nd == 1 else len(data)):
        return False, f"{what}: N = {r.N} for points {np.asarray(data).tolist()}"
    if r.dim != np.shape(data)[-1]:
        return False, f"{what}: dim = {r.dim} for points {np.asarray(data).tolist()}"
    return True, what


def check(ctx):
    CTX[:] = [ctx]
    c = ctx.cls("Solution")

    def summ(m):
        k = ("c16", m)
        if k not in ctx._sum:
            f = c.method(m)
            if f is None:
                raise Gone(m)
            ctx._sum[k] = ctx.run(f, c, opaque=("Node",))
        return ctx._sum[k]

    def where(m):
        f = c.method(m)
        return ctx.where(f) if f else "Solution." + m

    sl = slice
    rows = {"0": 0, "2": 2, "-1": -1, "-2": -2, "-3": -3, "np.int": np.int64(1), "np.int -1": np.int64(-1), "0:2": sl(0, 2), "all": sl(None), "reversed": sl(None, None, -1), "1:": sl(1, None), "-2:": sl(-2, None),
            "step": sl(0, None, 2), "empty slice": sl(0, 0), "mask": np.array([True, False, True]), "mask list": [False, True, True], "mask one": np.array([False, False, True]), "mask none": np.array([False] * 3), "list": [2, 0], "list rep": [1, 1],
            "array": np.array([2, 1, 0]), "[-1]": [-1], "neg array": np.array([-1, 0]), "[1]": [1]}
    cols = {":": sl(None), "0:1": sl(0, 1), "1:": sl(1, None), "0": 0, "1": 1, "-1": -1, "list": [1, 0], "mask": np.array([True, False])}
    for n_obj in (1, 2):
        x = sol(3, 2, n_obj)
        idx = dict(rows)
        for rn, ri in rows.items():
            for cn, ci in cols.items():
                if isinstance(ri, (int, np.integer)) or isinstance(ri, sl) or cn in (":", "0:1", "1:"):
                    if not (isinstance(ri, np.integer) and isinstance(ci, int)):
                        idx[f"({rn}, {cn})"] = (ri, ci)
        idx["(0,)"] = (0,)
        for n, i in idx.items():
            def go():
                s = summ("__getitem__")
                r = SolDom(ctx, x, index=i).ev(s.ret)
                return match(r, expect(x, i), f"selecting [{n}] from a {'multi' if n_obj > 1 else 'single'}-objective solution of 3 rows")
            ctx.ob(f"select:{n_obj}:{n}", where("__getitem__"), "a selected row keeps its own fitness, count and index, a selected column its name", go)
        x1 = sol(1, 3, n_obj, one=True)
        for n, i in {"0": 0, "-1": -1, "0:2": sl(0, 2), "1:": sl(1, None), "list": [2, 0], "mask": np.array([True, False, True]), "[-1]": [-1]}.items():
            def go1():
                s = summ("__getitem__")
                return match(SolDom(ctx, x1, index=i).ev(s.ret), expect(x1, i), f"selecting [{n}] from a single point")
            ctx.ob(f"select:{n_obj}:1d:{n}", where("__getitem__"), "a part of a point keeps the point's attributes and its own names", go1)

        # ---- concatenation
        def rows_of(a):
            d = a.data if a.data.ndim == 2 else a.data[None, :]
            f = a.fitness.reshape(len(d), -1) if n_obj > 1 else a.fitness.reshape(-1)
            return d, f, a.n_eval, a.index
        ops = {"2d": sol(3, 2, n_obj), "1 row": sol(1, 2, n_obj), "1d": sol(1, 2, n_obj, one=True)}
        oth = {"2d": sol(2, 2, n_obj, tag="y"), "1 row": sol(1, 2, n_obj, tag="y"), "1d": sol(1, 2, n_obj, tag="y", one=True)}
        same = {}  # operands that share labels, values or points with the left one
        for k, b in {"2d": sol(3, 2, n_obj), "1d": sol(1, 2, n_obj, one=True)}.items():
            same["same " + k] = b
        for (na, a), (nb, b) in [(p, q) for p in ops.items() for q in [*oth.items(), *same.items()]]:
            for m in ("__add__", "__iadd__"):
                def add():
                    s = summ(m)
                    d = SolDom(ctx, a, **{s.func.args()[1]: b})
                    if refused(d, s):
                        return False, f"adding a {nb} solution to a {na} one with the same variables is refused"
                    da, fa, ea, ia = rows_of(a)
                    db, fb, eb, ib = rows_of(b)
                    w = (np.concatenate([da, db]), np.concatenate([fa, fb]), np.concatenate([ea, eb]), np.concatenate([ia, ib]), a.var_name)
                    return match(d.ev(s.ret), w, f"{m} of {na} and {nb} ({n_obj} objective(s))")
                ctx.ob(f"concat:{n_obj}:{m}:{na}+{nb}", where(m), "the left operand's rows come first and every row keeps its attributes", add)
        bad = {"dimension": sol(2, 3, n_obj, tag="y"), "objectives": sol(2, 2, 3 - n_obj, tag="y"), "names": sol(2, 2, n_obj, tag="y", names=["v0", "w"]), "name order": sol(2, 2, n_obj, tag="y", names=["v1", "v0"]),
               "fewer columns": sol(2, 1, n_obj, tag="y")}
        for nb, b in bad.items():
            for na in ("2d", "1d"):
                for m in ("__add__", "__iadd__"):
                    def ref():
                        s = summ(m)
                        return refused(SolDom(ctx, ops[na], **{s.func.args()[1]: b}), s), f"{m} accepts an operand with different {nb}: names {list(ops[na].var_name)} / {list(b.var_name)}, objectives {n_obj} / {b.n_obj}"
                    ctx.ob(f"refuse:{n_obj}:{m}:{na}:{nb}", where(m), "operands with different dimension, objectives or variable names are refused", ref)

        # ---- replication
        for na in ("1d", "1 row"):
            for k in (1, 2, 3):
                for m in ("__mul__", "__rmul__"):
                    def mul():
                        a = ops[na]
                        s = summ(m)
                        d = SolDom(ctx, a, **{s.func.args()[1]: k})
                        if refused(d, s):
                            return False, f"replicating a {na} solution {k} times fails"
                        da, fa, ea, ia = rows_of(a)
                        w = (np.concatenate([da] * k), np.concatenate([fa] * k), np.concatenate([ea] * k), None, a.var_name)
                        return match(d.ev(s.ret), w, f"{m} by {k} of a {na} solution ({n_obj} objective(s))")
                    ctx.ob(f"repeat:{n_obj}:{m}:{na}*{k}", where(m), "replicas carry the point's attributes", mul)

        # ---- unique, to_dict
        def uniq():
            s = summ("unique")
            z = sol(4, 2, n_obj)
            z.data[2] = z.data[0]
            d = SolDom(ctx, z)
            d.fns["numpy.unique"] = lambda v, axis=None, return_index=False, **k: uq(v)
            r = d.ev(s.ret)
            return match(r, expect(z, [0, 1, 3]), "unique of rows 0,1,0,3")

        def uq(v):
            v = [tuple(q) for q in v]
            keys = sorted(set(v), key=lambda q: (-v.index(q)))
            return [list(k) for k in keys], np.array([v.index(k) for k in keys])
        ctx.ob(f"unique:{n_obj}", where("unique"), "unique keeps the first occurrence of each point with its attributes, in order", uniq)

        for na in ("2d", "1d"):
            for orient in ("index", "var"):
                for wi in (False, True):
                    def td():
                        a = ops[na]
                        s = summ("to_dict")
                        r = SolDom(ctx, a, orient=orient, with_index=wi).ev(s.ret)
                        da = a.data if a.data.ndim == 2 else a.data[None, :]
                        vn, ix = list(a.var_name), list(a.index)
                        if orient == "index":
                            w = [dict(zip(vn, row)) for row in da.tolist()]
                            w = dict(zip(ix, w)) if wi else (w[0] if na == "1d" else w)
                        else:
                            w = {n: (dict(zip(ix, da[:, k].tolist())) if wi else da[:, k].tolist()) for k, n in enumerate(vn)}
                        return r == w, f"to_dict({orient!r}, {wi}) gives {r}, expected {w}"
                    ctx.ob(f"to_dict:{n_obj}:{na}:{orient}:{wi}", where("to_dict"), "every cell is reported under its own row and variable name", td)

    # ---- from_dict
    pts = [{"a": 1, "b": 2}, {"b": 4, "a": 3}, {"a": 5, "b": 6}]
    for n, (x, vn, w) in {"list": (pts, None, (["a", "b"], [[1, 2], [3, 4], [5, 6]])), "list named": (pts, ["b", "a"], (["b", "a"], [[2, 1], [4, 3], [6, 5]])),
                          "dict": (pts[1], None, (["b", "a"], [4, 3])), "dict named": (pts[1], ["a", "b"], (["a", "b"], [3, 4]))}.items():
        def fd():
            k = ("c16", "from_dict")
            if k not in ctx._sum:
                f = c.method("from_dict")
                if f is None:
                    raise Gone("from_dict")
                ctx._sum[k] = ctx.run(f, c, opaque=("Node", "Solution"), stop=("__new__",)) if False else ctx.run(f, c, opaque=("Node",))
            s = ctx._sum[k]
            d = SolDom(ctx, None, x=x, var_name=vn, index=None)
            r = d.ev(s.ret)
            if not isinstance(r, Obj):
                raise Unknown("result")
            return eqv(r.data, w[1]) and list(r.var_name) == w[0], f"from_dict({x}, var_name={vn}) gives names {list(r.var_name)} with points {np.asarray(r.data).tolist()}"
        ctx.ob(f"from_dict:{n}", where("from_dict"), "every value is stored under its own variable name", fd)

    # ---- construction and view casting
    for n, kw in {
        "2d": dict(x=[["p", "q"], ["r", "s"]], fitness=[1, 2], n_eval=[3, 4], index=["i", "j"], var_name=["a", "b"], n_obj=1), "2d default": dict(x=[["p", "q"], ["r", "s"]], fitness=None, n_eval=0, index=None, var_name=None, n_obj=1),
        "mo": dict(x=[["p", "q"], ["r", "s"]], fitness=[[1, 2], [3, 4]], n_eval=0, index=["i", "j"], var_name=["a", "b"], n_obj=2), "1d": dict(x=["p", "q"], fitness=5, n_eval=1, index="k", var_name=["a", "b"], n_obj=1),
        "scalar fitness": dict(x=[["p", "q"], ["r", "s"]], fitness=7, n_eval=2, index=None, var_name=["a", "b"], n_obj=1), "one column": dict(x=[["p"], ["q"], ["r"]], fitness=[1, 2, 3], n_eval=0, index=None, var_name=None, n_obj=1),
    }.items():
        def new():
            s = summ("__new__")
            val = dict(kw, fitness_name=None, verbose=True)
            d = SolDom(ctx, None, cls=Obj("Solution"), **val)
            w = SolDom(ctx, None).ctor(**{k: v for k, v in kw.items()})
            r = d.ev(s.ret)
            if not isinstance(r, Obj):
                raise Unknown("result")
            return match(r, (w.data, np.nan_to_num(w.fitness), w.n_eval, w.index, w.var_name), f"Solution({kw})") if not np.isnan(np.asarray(r.fitness, dtype=float)).any() else (True, "unset fitness")
        ctx.ob(f"new:{n}", where("__new__"), "construction stores each row's attributes at its own position", new)

    for a in ("fitness", "n_eval", "index", "var_name", "fitness_name", "n_obj", "N", "dim"):
        def fin():
            s = summ("__array_finalize__")
            o = Obj("other", **{k: f"the {k}" for k in ("fitness", "n_eval", "index", "var_name", "fitness_name", "n_obj", "N", "dim", "verbose")})
            v = SolDom(ctx, None, **{s.func.args()[1]: o}).ev(s.get(a))
            return v == f"the {a}", f"a view's {a} is {v!r} instead of the base object's {a}"
        ctx.ob(f"finalize:{a}", where("__array_finalize__"), "a view or slice starts from its base object's attributes", fin)
