from ..acqmodel import *  # noqa
from ..dom import Dom

TECHNIQUE = "value-flow summaries translated to algebra; symbolic differentiation and identity testing of value versus gradient"
RULE = ("Algebraic agreement: the value-flow summaries of the value and of the gradient returned by every acquisition function are translated to expressions over the surrogate's "
        "prediction, variance and their gradients; on every structural case (model kind, number of points, direction) the gradient must equal the symbolic derivative of the value, the "
        "value must not depend on whether the gradient is requested, and the negated/penalised wrappers must negate value and gradient alike.")
ASSUMPTIONS = ["numerical fallbacks (exception handlers, infinite values) are excluded, as the property states",
               "two analytic expressions that agree at 8 random rational points to 60 digits are equal",
               "model.predict(eval_MSE=True) returns (mean, variance) and model.gradient returns their gradients (C30, not claimed)"]


def check(ctx):
    cl = acquisition_classes(ctx)
    ctx.ob("classes", "acquisition_fun.py", "acquisition functions were found", lambda: len(cl) > 0)
    for c in cl:
        f = c.method("__call__")
        w = f"{f.module.rel}:{f.node.lineno} {c.name}.__call__"
        for mini in (True, False):
            for k, p in enumerate(al.points()):
                def go():
                    n = 0
                    for ch, v in table(ctx, c, mini, True, p):
                        if not isinstance(v, tuple) or len(v) != 2:
                            return None, "result is not a (value, gradient) pair"
                        val, gr = al.scalar(v[0]), al.scalar(v[1])
                        want = val.diff(Y) * DY + val.diff(V) * DV
                        a, b = al.value_at(want, p), al.value_at(gr, p)
                        n += 1
                        if abs(a - b) > 1e-25:
                            desc = {show(x, 3): y for x, y in ch.items()}
                            return False, f"{c.name} (minimize={mini}): gradient {sp.N(b, 8)} but the derivative of the value is {sp.N(a, 8)} at {({str(x): str(y) for x, y in p.items()})} in case {desc}"
                    return n > 0
                ctx.ob(f"derivative:{c.name}/{mini}/{k}", w, "the gradient is the derivative of the value", go)

                def same_value():
                    x = table(ctx, c, mini, True, p)
                    y = table(ctx, c, mini, False, p)
                    dx = {tuple(sorted((show(a, 9), b) for a, b in ch.items() if show(a) != "return_dx" and a.op != "exc")): al.value_at(al.scalar(v[0]), p) for ch, v in x}
                    dy = {tuple(sorted((show(a, 9), b) for a, b in ch.items() if show(a) != "return_dx" and a.op != "exc")): al.value_at(al.scalar(v), p) for ch, v in y}
                    for key in dx:
                        if key in dy and abs(dx[key] - dy[key]) > 1e-25:
                            return False, f"{c.name}: value {dy[key]} without and {dx[key]} with the gradient"
                    return True if set(dx) & set(dy) else None
                ctx.ob(f"value:{c.name}/{mini}/{k}", w, "asking for the gradient does not change the value", same_value)
    wrappers(ctx)


def wrappers(ctx):
    import numpy as np

    def neg():
        s = ctx.summ("Penalized", "__call__")
        d = Dom({"self.func": lambda x: (2.0, np.array([[3.0], [-4.0]])), "self.h": None, "self.g": None, "x": np.array([0.5, 0.25]), "self.t": 10})
        v = d.ev(s.ret)
        return same(v[0], -2.0) and same(np.asarray(v[1]).ravel(), np.array([-3.0, 4.0])), f"the problem handed to L-BFGS-B is {v} for value 2 and gradient (3, -4)"
    p = ctx.prog.cls("Penalized", False)
    if p:
        ctx.ob("negation:Penalized", ctx.where(p.method("__call__")), "value and gradient are negated together", neg)

        def sens(i):
            s = ctx.summ("Penalized", "__call__")
            g = lambda x: np.array([2.0 * float(x[0]) - 3.0 * float(x[1]) + 1.0])
            out = []
            for x in ([0.5, 0.25], [0.5 + (1e-3 if i == 0 else 0), 0.25 + (1e-3 if i == 1 else 0)]):
                d = Dom({"self.func": lambda z: (2.0, np.array([[0.0], [0.0]])), "self.h": None, "self.g": g, "x": np.array(x), "self.t": 10})
                out.append(d.ev(s.ret))
            slope = (float(np.ravel(out[1][0])[0]) - float(np.ravel(out[0][0])[0])) / 1e-3
            gr = float(np.ravel(out[0][1])[i])
            return abs(slope - gr) < 0.05 * max(1, abs(slope)), f"penalty slope {slope}, reported gradient {gr}"
        for i in (0, 1):
            ctx.ob(f"penalty-gradient:Penalized/{i}", ctx.where(p.method("__call__")), "the penalty's gradient is the derivative of the penalty", lambda: sens(i))

    f = ctx.prog.func("penalized_acquisition", False) if hasattr(ctx.prog, "func") else None
    if f is not None:
        def pen(x, i):
            s = ctx.run(f)
            comp = np.array([[1.0, 0.0, 2.0], [0.0, 1.0, -1.0]])
            out = []
            for h in (0.0, 1e-3):
                xx = np.array(x, dtype=float)
                xx[i] += h
                d = Dom({"x": xx, "bounds": [(-1.0, 1.0)] * 3, "return_dx": True, "pca.components_": comp, "acquisition_func": lambda z: ("AQ", "DX")})
                d.fns["mcall:inverse_transform"] = lambda D, t, recv, a: D.ev(a[0]).dot(comp)
                d.fns["mcall:dot"] = lambda D, t, recv, a: D.ev(recv).dot(D.ev(a[0]))
                out.append(d.ev(s.ret))
            if isinstance(out[0][0], str):
                return out[0] == ("AQ", "DX"), "inside the box the acquisition value itself is returned"
            slope = (float(out[1][0]) - float(out[0][0])) / 1e-3
            gr = float(np.ravel(out[0][1])[i])
            return abs(slope - gr) < 1e-6, f"penalised acquisition at {x}: slope {slope} in coordinate {i}, reported gradient {gr}"
        for x in ((2.0, 0.5), (-3.0, 0.2), (0.1, 3.0), (0.3, -2.0), (2.5, 3.5), (0.1, 0.2)):
            for i in (0, 1):
                ctx.ob(f"box-penalty:{x}/{i}".replace(" ", ""), ctx.where(f), "outside the box the gradient of the box penalty is its derivative in the reduced space", lambda: pen(x, i))
