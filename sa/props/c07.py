import itertools

from ..loader import THOROUGH
from ..tellmodel import *  # noqa

TECHNIQUE = "validity-flow (taint) analysis of tell() summaries in the {valid, NaN, +inf, -inf} row domain"
RULE = ("Validity-flow analysis: the value-flow summary of the stored history after tell() is evaluated in the {valid, NaN, +inf, -inf} row domain for every "
        "optimizer class, every pattern of two told rows, with and without history and warm start; a failed row reaching the history, the training data or a valid row lost is a violation.")


def check(ctx):
    for c in optimizer_classes(ctx):
        mo = is_mo(ctx, c)
        f = c.method("tell")
        if f is None:
            continue
        w = f"{f.module.rel}:{f.node.lineno} {c.name}.tell"
        if mo:
            cells = [[1.0, 2.0], [NAN, 2.0], [1.0, NAN], [INF, 1.0], [2.0, -INF], [NAN, NAN]]
            pats = list(itertools.product(cells, repeat=3 if THOROUGH else 2)) + [([1e200, -1.7e308], [NAN, 1e200]), ([0.0, -0.0], [-1e30, 5e-324], [0.0, INF])]
        else:
            pats = list(itertools.product([1.0, NAN, INF, -INF], repeat=2)) + (list(itertools.product([1.0, NAN, INF, -INF], repeat=4)) if THOROUGH else [(1.0, NAN, 2.0), (NAN, 2.0, INF)]) + [(1e200, NAN), (-1.7e308, 5e-324), (0.0, -1e30, NAN), (INF, -0.0)]
        for data in (True, False):
            for warm in (False, True):
                for vals in pats:
                    vals = list(vals)

                    def go():
                        s = ctx.summ(c.name, "tell")
                        d = dom(mo, data=data, warm=warm, vals=vals)
                        got = d.ev(s.get("data"))
                        if not isinstance(got, Sol):
                            raise Unknown("history is not a Solution")
                        rows, fit = expected_data(d.D, data, d.val["X"], vals)
                        ok = got.rows == rows
                        return ok, f"{c.name}.tell with values {vals} (history={data}, warm_start={warm}) leaves rows {got.rows}, expected {rows}"
                    tag = f"{c.name}/{data}/{warm}/{vals}".replace(" ", "")
                    ctx.ob("history:" + tag, w, "exactly the told rows with finite values enter the history", go)
        # the surrogate is trained on the filtered history
        vals = [[1.0, 2.0], [NAN, 2.0], [3.0, 0.5]] if mo else [1.0, NAN, 3.0]

        def trained():
            s = ctx.summ(c.name, "tell")
            fits = [e for e in s.events if e.kind == "mcall" and e.name == "fit" and e.args and ("model" in show(e.args[0], 3) or "GaussianProcess" in show(e.args[0], 3))]
            if not fits:
                return None, "no surrogate fit in tell"
            n = 0
            for e in fits:
                d = dom(mo, vals=vals)
                if not live(d, e):
                    continue
                y = e.args[2] if len(e.args) > 2 else e.kw.get("y")
                got = np.asarray(d.ev(y), dtype=float)
                n += 1
                if len(got) != 4 or not np.all(np.isfinite(got)):
                    return False, f"surrogate of {c.name} is trained on {got.tolist()} at {e.where} although one of three told values failed (history of 2)"
            return True
        if c.name != "ConditionalBO":
            ctx.ob(f"train:{c.name}", w, "no failed value reaches the surrogate's training data", trained)
