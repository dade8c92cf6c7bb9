"""Term -> sympy translation for the algebraic properties (acquisition values and gradients).

Branch conditions are split into cases; conditions that denote a numerical fallback (an exception handler, an
infinite value) are assumed absent.  Two expressions are equal when their difference vanishes at many random rational
points in 60-digit arithmetic (an identity test for the analytic expressions that occur here)."""
import random

from .loader import THOROUGH

import sympy as sp

from .term import T, show, subterms
from .dom import Unknown

Y, V, DY, DV, PL, AL, TT, EPS, S2 = sp.symbols("y v dy dv plugin alpha t epsilon s2", real=True)


def Phi(x):
    return (1 + sp.erf(x / sp.sqrt(2))) / 2


def phi(x):
    return sp.exp(-x ** 2 / 2) / sp.sqrt(2 * sp.pi)


IDENT = {"numpy.atleast_1d", "numpy.atleast_2d", "numpy.array", "numpy.asarray", "numpy.asanyarray", "sum", "numpy.sum", "float", "numpy.ravel", "numpy.squeeze", "copy.copy", "numpy.float64"}
FUN = {"numpy.exp": sp.exp, "numpy.sqrt": sp.sqrt, "numpy.log": sp.log, "numpy.abs": sp.Abs, "numpy.square": lambda x: x ** 2, "math.sqrt": sp.sqrt, "math.exp": sp.exp,
       "scipy.stats.norm.cdf": Phi, "scipy.stats.norm.pdf": phi, "scipy.special.ndtr": Phi, "numpy.negative": lambda x: -x,
       "numpy.power": lambda x, y: x ** y, "numpy.multiply": lambda x, y: x * y, "numpy.add": lambda x, y: x + y, "numpy.subtract": lambda x, y: x - y, "numpy.divide": lambda x, y: x / y,
       "scipy.stats.norm.logcdf": lambda x: sp.log(Phi(x)), "scipy.stats.norm.logpdf": lambda x: sp.log(phi(x))}


class Case(Exception):
    def __init__(self, c):
        self.c = c


class Tr:
    """one case: `choice` maps condition terms to booleans"""

    def __init__(self, choice, syms, point=None):
        self.choice, self.syms, self.point = choice, syms, point
        self.memo = {}

    def cond(self, c):
        if c in self.choice:
            return self.choice[c]
        if c.op == "const":
            return bool(c.a[0])
        if c.op == "not":
            return not self.cond(c.a[0])
        if c.op == "and":
            return all([self.cond(x) for x in c.a])
        if c.op == "or":
            return any([self.cond(x) for x in c.a])
        if c.op == "phi":
            return self.cond(c.a[1] if self.cond(c.a[0]) else c.a[2])
        if c.op == "cmp" and self.point is not None:
            try:
                x, y = self.num(c.a[1]), self.num(c.a[2])
            except Unknown:
                raise Case(c)
            return bool({"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y}.get(c.a[0], False)) if c.a[0] in ("<", "<=", "==", "!=") else self.free(c)
        if c.op == "call" and c.a[0].split(".")[-1] in ("isinf", "isnan"):
            return False
        if c.op == "call" and c.a[0].split(".")[-1] == "isfinite":
            return True
        if c.op == "call" and c.a[0] == "numpy.isclose" and self.point is not None:
            try:
                return bool(abs(self.num(c.a[1]) - self.num(c.a[2])) < 1e-8)
            except Unknown:
                raise Case(c)
        if c.op == "call" and c.a[0] in ("numpy.any", "numpy.all", "any", "all", "bool"):
            return self.cond(c.a[1])
        raise Case(c)

    def free(self, c):
        raise Case(c)

    def num(self, t):
        v = self.tr(t)
        if isinstance(v, tuple) or v is None or isinstance(v, (str, bool)):
            raise Unknown("not a number")
        v = sp.sympify(v).subs(self.point)
        if v.free_symbols:
            raise Unknown("free symbol")
        return sp.N(v, 40)

    def tr(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._tr(t)
        self.memo[t] = r
        return r

    def _tr(self, t):
        o, a = t.op, t.a
        if o == "const":
            v = a[0]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            return sp.nsimplify(v, rational=True) if isinstance(v, float) else sp.Integer(v) if isinstance(v, int) else v
        k = show(t, 6) if o in ("sym", "attr") else None
        if k in self.syms:
            return self.syms[k]
        if o == "phi":
            return self.tr(a[1] if self.cond(a[0]) else a[2])
        if o in ("tuple", "list"):
            return tuple(self.tr(x) for x in a)
        if o == "bin":
            x, y = self.tr(a[1]), self.tr(a[2])
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** y}[a[0]]()
        if o == "un" and a[0] == "-":
            return -self.tr(a[1])
        if o == "item":
            b = a[0]
            if b.op == "mcall" and b.a[0] == "predict":
                i = a[1].a[0]
                return (Y, V)[i]
            if b.op == "mcall" and b.a[0] == "gradient":
                return (DY, DV)[a[1].a[0]]
            v = self.tr(b)
            if isinstance(v, tuple):
                return v[a[1].a[0]]
            return v
        if o == "attr" and a[1] == "T":
            return self.tr(a[0])
        if o == "mcall" and a[0] in ("ravel", "flatten", "reshape", "copy", "transpose", "squeeze", "item"):
            return self.tr(a[1])
        if o == "call":
            n = a[0]
            if n in IDENT or n in (".reshape", ".ravel", ".flatten", ".T"):
                return self.tr(a[1])
            if n in ("numpy.zeros", "numpy.zeros_like"):
                return sp.Integer(0)
            if n in FUN:
                return FUN[n](*[self.tr(x) for x in a[1:] if x.op != "kw"])
        raise Unknown("algebra: " + show(t, 3))


def cases(t, syms, decide, point=None, limit=64):
    """all (choice, value) of a term under free structural conditions; decide(cond) -> bool | None(free).
    Conditions over the algebraic symbols are decided at the given point."""
    out, todo = [], [{}]
    while todo:
        ch = todo.pop()
        tr = Tr(ch, syms, point)
        try:
            out.append((ch, tr.tr(t)))
        except Case as e:
            r = decide(e.c)
            for b in ((True, False) if r is None else (r,)):
                todo.append({**ch, e.c: b})
        if len(out) + len(todo) > limit:
            raise Unknown("too many cases")
    return out


def scalar(v):
    while isinstance(v, tuple):
        if len(v) != 1:
            raise Unknown("not a scalar")
        v = v[0]
    return sp.sympify(v)


def value_at(e, p):
    v = sp.N(sp.sympify(e).subs(p), 60)
    if v.free_symbols or not v.is_real:
        raise Unknown("value at point")
    return v


def points(n=30 if THOROUGH else 8, seed=7):
    rnd = random.Random(seed)
    R = lambda lo, hi: sp.Rational(rnd.randint(int(lo * 1000), int(hi * 1000)), 1000)
    for _ in range(n):
        yield {Y: R(-2, 2), V: R(0.1, 2), DY: R(-3, 3), DV: R(-3, 3), PL: R(-2, 1), AL: R(0.1, 2), TT: R(0.2, 3), EPS: R(0.01, 0.4), S2: R(0.5, 2)}


def equal(a, b):
    d = sp.sympify(a) - sp.sympify(b)
    if d == 0:
        return True
    for p in points():
        v = sp.N(d.subs(p), 60)
        if v.free_symbols:
            raise Unknown("free symbol " + str(v.free_symbols))
        if abs(v) > sp.Float("1e-30"):
            return False
    return True
