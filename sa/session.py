"""A program's use of one optimizer as a single value-flow run: constructor, then a sequence of calls, on the same abstract object."""
from .common import *  # noqa
from .dom import Dom, Fails, Obj, Raised, Sol, Unknown
from .interp import Interp, _Never, St

OPAQUE = ("Solution", "SearchSpace", "GaussianProcess", "RandomForest", "PCA")
OPAQUE_FUNCS = ("partial_argument", "argmax_restart", "fillin_fixed_value", "get_logger", "func_with_list_arg")


class Session:
    def __init__(self, ctx, cname, kw, opaque=OPAQUE, opaque_funcs=OPAQUE_FUNCS, budget=600000, init=True, types=None):
        self.ctx, self.cls = ctx, ctx.cls(cname)
        self.I = I = Interp(ctx.prog, opaque=set(opaque), opaque_funcs=set(opaque_funcs), types=types or {}, budget=budget)
        self.obj = I.new_obj(self.cls, False)
        I.st.pc = ()
        f = self.cls.method("__init__")
        if f is None:
            raise Gone(cname + ".__init__")
        self.marks = []
        if init:
            self.call("__init__", **kw)

    def arg(self, v):
        I = self.I
        if isinstance(v, T):
            return I.fresh(v) if v.op in ("sym", "dict", "list") else v
        if isinstance(v, dict):
            return I.fresh(mk("dict", *[mk("kv", const(k), self.arg(x)) for k, x in v.items()]))
        return const(v)

    def call(self, meth, **kw):
        f = self.cls.method(meth)
        if f is None:
            raise Gone(f"{self.cls.name}.{meth}")
        I = self.I
        a = {k: self.arg(v) for k, v in kw.items()}
        self.marks.append(len(I.events))
        try:
            r = I.call_func(f, [self.obj], a, f.node)
        except _Never:
            raise Unknown(f"{meth} always raises")
        finally:
            self.ctx.analysed |= set(I.analysed)
            self.ctx.sites += len(I.events) - self.marks[-1]
        if I.st is None:
            raise Unknown(f"{meth} always raises")
        return I.deep(r)

    def later(self):
        """any later moment of the optimizer's life: its counters have arbitrary values"""
        for n in ("iter_count", "eval_count"):
            self.set(n, mk("sym", n))

    def set(self, name, v):
        self.I.st.heap[(self.obj, name)] = self.arg(v)

    def attr(self, name):
        v = self.I.st.heap.get((self.obj, name))
        if v is None:
            r = self.I.default_attr(self.obj, name)
            v = r
        return self.I.deep(v)

    def events(self, k=-1):
        e = self.marks[k + 1] if k + 1 < 0 or k >= 0 and k + 1 < len(self.marks) else len(self.I.events)
        return self.I.events[self.marks[k]:e]


class Call(Obj):
    """outcome of a modelled call: keeps what it was given"""

    def __init__(self, name, pos=(), kw=None):
        super().__init__(name, fn=name, pos=list(pos), kw=dict(kw or {}))

    def __repr__(self):
        return f"{self._name}({', '.join([str(p) for p in self.pos] + [f'{k}={v}' for k, v in self.kw.items()])})"[:300]


class SDom(Dom):
    """values of a session: criteria, completed functions and candidates are tokens that remember how they were made"""

    def __init__(self, ctx, val=None, fns=None, acq=(), **k):
        super().__init__(val, fns, **k)
        self.ctx, self.prog = ctx, ctx.prog
        for a in acq:
            self.fns.setdefault(a, (lambda nm: lambda *p, **kw: Call(nm, p, kw))(a))
        self.fns.setdefault("partial_argument", lambda *p, **kw: Call("partial_argument", p, kw))
        self.fns.setdefault("argmax_restart", self.argmax)
        self.fns.setdefault("fillin_fixed_value", self.fill)
        self.fns.setdefault("func_with_list_arg", lambda *p, **kw: Call("wrapped", p, kw))
        self.fns.setdefault("get_logger", lambda *p, **kw: Obj("logger"))
        self.fns.setdefault("id", lambda *p: 7)
        self.tag = {}

    def draw(self):
        at = getattr(self, "at", None) or [0]
        return sum(0.37 * (i + 1) * (x if isinstance(x, (int, np.integer)) else 0) for i, x in enumerate(at)) + 0.11

    def argmax(self, *p, **kw):
        names = self.ctx.func("argmax_restart").args()
        b = dict(zip(names, p))
        b.update(kw)
        c = Call("candidate", (), b)
        return (("x", c), Call("value", (), {"of": c}))

    def fill(self, *p, **kw):
        names = self.ctx.func("fillin_fixed_value").args()
        b = dict(zip(names, p))
        b.update(kw)
        X = b.get(names[0])
        return [("filled", x, b) for x in X]

    def o_partial(self, t, f, *a):
        pos, kw = self.args(a)
        return Call("partial", [self.fun(f)] + pos, kw)

    def fun(self, f):
        try:
            return self.ev(f)
        except Unknown:
            return Obj("function " + show(f, 3))

    def o_func(self, t, *a):
        return Obj("function " + str(a[1]))

    def o_closure(self, t, *a):
        return Obj("closure")


def criterion(c):
    """the acquisition function inside the function handed to the search: unwraps completions, partials and penalties"""
    seen = 0
    info = {}
    while isinstance(c, Call) and seen < 8:
        seen += 1
        if c._name == "partial_argument":
            info.setdefault("completed", c)
            b = dict(zip(("func", "var_name", "fixed", "reduce_output"), c.pos))
            b.update(c.kw)
            info["completion"] = b
            c = b.get("func")
        elif c._name == "partial":
            info.setdefault("bound", []).append(dict(c.kw))
            nxt = c.kw.get("acquisition_func")
            c = nxt if nxt is not None else c.pos[0]
        else:
            return c, info
    return None, info


import numpy as np  # noqa: E402
