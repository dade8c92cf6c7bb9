"""Abstract spaces: variables are identity tokens with a kind, a name and bounds; a space is its list of variables plus derived views."""
import ast

import numpy as np

from .common import *  # noqa
from .dom import Dom, Obj, Sol, Unknown, Raised, copyv

KINDS = ("Real", "Integer", "Ordinal", "Discrete", "Bool", "Subset")
CATEGORICAL = ("Ordinal", "Discrete", "Bool", "Subset")


class Var(Obj):
    """variable token; copies keep `origin`"""

    def __init__(self, kind, name, bounds=None, **k):
        super().__init__(f"{kind}:{name}", kind=kind, name=name, bounds=bounds if bounds is not None else ((False, True) if kind == "Bool" else (0, 1)), conditions=None, **k)
        self.__dict__.setdefault("origin", self)
        if kind == "Subset":
            self.__dict__.setdefault("_bounds", tuple(x for b in self.bounds if isinstance(b, tuple) for x in b))

    def twin(self):
        v = type(self)(self.kind, self.name, self.bounds)
        v.__dict__.update({k: x for k, x in self.__dict__.items()})
        return v

    def sig(self):
        return (self.kind, self.name, self.bounds)

    def __repr__(self):
        return f"{self.kind}({self.name})"


class Klass(Obj):
    def __init__(self, name):
        super().__init__(name, __name__=name)

    def __eq__(self, o):
        return isinstance(o, Klass) and o._name == self._name

    def __hash__(self):
        return hash(self._name)


class Space(Obj):
    def __init__(self, data, seed=None, cls=None, structure=None):
        names = [v.name for v in data]
        kinds = [v.kind for v in data]
        d = dict(data=list(data), dim=len(data), _var_name=names, var_name=names, _var_type=kinds, var_type=kinds, _bounds=[v.bounds for v in data], bounds=[v.bounds for v in data],
                 random_seed=seed, _random_seed=seed, structure=structure or [])
        for k in KINDS:
            m = np.array([x == k for x in kinds], dtype=bool)
            d[k.lower() + "_mask"], d[k.lower() + "_id"] = m, np.nonzero(m)[0]
        d["categorical_mask"] = np.array([x in CATEGORICAL for x in kinds], dtype=bool)
        d["categorical_id"] = np.r_[d["discrete_id"], d["ordinal_id"], d["bool_id"], d["subset_id"]]
        d["levels"] = {int(i): d["_bounds"][i] for i in d["categorical_id"]}
        super().__init__("space" + str(names), **d)
        self.klass = cls or (kinds[0] + "Space" if len(set(kinds)) == 1 else "SearchSpace")


class SpaceDom(Dom):
    def __init__(self, prog, val=None, **k):
        super().__init__(val, **k)
        self.ctx, self.prog = (prog, prog.prog) if hasattr(prog, "prog") else (None, prog)
        self.depth = 0
        self.fns.setdefault("type", self.typ)
        self.fns.setdefault("eval", lambda s: Klass(str(s)))
        self.fns.setdefault("numpy.unique", lambda x: np.unique(np.array(list(x))))

    def typ(self, v):
        if isinstance(v, Var):
            return Klass(v.kind)
        if isinstance(v, Space):
            return Klass(v.klass)
        if type(v) in (str, int, float, bool, list, tuple, dict):
            return type(v)
        raise Unknown("type")

    def o_cls(self, t, q):
        return Klass(q.split(".")[-1])

    def o_undef(self, t):
        raise Raised("undefined")

    def getattr(self, v, name):
        if isinstance(v, Klass) and name == "__name__":
            return v._name
        return super().getattr(v, name)

    def tokmethod(self, v, name, pos, kw):
        """a method of the analysed program called on an abstract variable or space"""
        c = self.prog.cls(v.kind if isinstance(v, Var) else v.klass, False) if isinstance(v, (Var, Space)) else None
        f = c.method(name) if c is not None else None
        if f is None or self.ctx is None or self.depth > 6 or f.kind != "method":
            raise Unknown(f"method {name} of {type(v).__name__}")
        key = ("tok", c.name, name)
        if key not in self.ctx._sum:
            self.ctx._sum[key] = self.ctx.run(f, c, opaque=("Node",))
        s = self.ctx._sum[key]
        val = state_val(v)
        val.update({"self": v, "self.__class__": Klass(c.name)})
        args = f.args()[1:]
        dflt = f.node.args.defaults
        for n, x in zip(args[len(args) - len(dflt):], dflt):
            if isinstance(x, ast.Constant):
                val[n] = x.value
        val.update(zip(args, pos))
        val.update(kw)
        d = self.sub(val)
        d.fns, d.depth = self.fns, self.depth + 1
        if any(getattr(s.I.st.heap.get((s.obj, n)), "op", "ref") not in ("ref", "sym") for n in ("data", "name", "bounds")):
            raise Unknown("state-changing method " + name)
        return d.ev(s.ret)

    def sub(self, val):
        return type(self)(self.ctx, val)

    def _copy(self, v):
        if isinstance(v, Var):
            return v.twin()
        if isinstance(v, list):
            return [self._copy(x) for x in v]
        return copyv(v)

    def c_copy_copy(self, x, *a):
        return x.twin() if isinstance(x, Var) else copyv(x)

    def c_copy_deepcopy(self, x, *a):
        return self._copy(x)

    def setp(self, v, path, x):
        if path and path[0].op == "pattr" and isinstance(v, Var):
            v = v.twin()
            v.__dict__[path[0].a[0]] = self.setp(self.getattr(v, path[0].a[0]) if len(path) > 1 else None, path[1:], x)
            return v
        return super().setp(v, path, x)

    def isinst(self, v, k):
        if k.op == "tuple":
            return any(self.isinst(v, x) for x in k.a)
        n = str(k.a[0]).split(".")[-1] if k.op in ("mod", "cls") else None
        if isinstance(v, (Var, Space)) and n:
            if n in ("str", "int", "float", "bool", "list", "tuple", "dict", "ndarray", "Solution", "Node"):
                return False
            kind = v.kind if isinstance(v, Var) else v.klass
            c, b = self.prog.cls(kind, False), self.prog.cls(n, False)
            if c is None or b is None:
                raise Unknown("isinstance")
            return c.issub(b)
        if n in ("Variable", "SearchSpace", "Node") or n in KINDS:
            return False
        return super().isinst(v, k)


def views(sp):
    return {k: sp.__dict__[k] for k in ["dim", "_var_name", "_var_type", "_bounds", "levels", "categorical_id", "categorical_mask"] +
            [k.lower() + s for k in KINDS for s in ("_id", "_mask")]}


def state_val(sp, prefix="self."):
    """valuation of a space object's attributes"""
    return {prefix + k: v for k, v in sp.__dict__.items() if k not in ("_name", "klass")}
