"""Acquisition functions of the repository: discovery and their algebraic (value, gradient) summaries."""
from .common import *  # noqa
from . import algebra as al
from .algebra import AL, DV, DY, EPS, PL, S2, TT, V, Y, sp

SYMS = {"self._plugin": PL, "self.plugin": PL, "self._alpha": AL, "self.alpha": AL, "self._t": TT, "self.t": TT, "self._epsilon": EPS, "self.epsilon": EPS,
        "self._model.sigma2": S2, "self.model.sigma2": S2}


def acquisition_classes(ctx):
    base = ctx.cls("AcquisitionFunction")
    out = []
    for c in ctx.prog.all_classes():
        if c is not base and c.issub(base):
            f = c.method("__call__")
            if f is not None and f.qual.split(".")[0] != base.name:
                out.append(c)
    return out


def decide(minimize, dx):
    def dec(c):
        k = show(c, 6)
        if c.op == "exc":
            return False
        if k == "return_dx":
            return dx
        if k in ("self.minimize", "self._minimize"):
            return minimize
        return None
    return dec


def table(ctx, c, minimize, dx, point):
    """[(structural choice, value)] of __call__ at a point"""
    s = ctx.summ(c.name, "__call__")
    if s.ret is None:
        raise Unknown("no value")
    return al.cases(s.ret, SYMS, decide(minimize, dx), point)
