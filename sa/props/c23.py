import itertools

from ..loader import THOROUGH
from ..tellmodel import *  # noqa

TECHNIQUE = "value-flow summaries of the dominance test and of xopt, evaluated over every order type of small objective matrices (small-model argument for a pairwise relation)"
RULE = ("Dominance is a pairwise, order-only relation, so the value-flow summaries of is_non_dominated and of the multi-objective xopt are evaluated over every order type of three points with two "
        "and three objectives and every combination of directions and compared with the definition; equal vectors keep one representative.")
ASSUMPTIONS = ["three points exhibit every pairwise interaction of the dominance test (it treats all pairs alike)"]


def nondom(F):
    """definition, maximisation; -> indices"""
    return [i for i in range(len(F)) if not any(all(b >= a for a, b in zip(F[i], F[j])) and any(b > a for a, b in zip(F[i], F[j])) for j in range(len(F)))]


def grids(m, n):
    rows = list(itertools.product(range(3 if m == 2 else 2), repeat=m))
    return itertools.product(rows, repeat=n)


def check(ctx):
    f = ctx.prog.func("is_non_dominated", False)
    if f is not None:
        n = f.args()
        holder = []

        def summary():
            if not holder:
                holder.append(ctx.run(f))
            return holder[0]
        for m, k in ((2, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (((2, 4), (4, 2), (4, 3), (3, 4)) if THOROUGH else ()):
            for dd in (True, False):
                def go(F):
                    d = Dom({n[0]: np.array(F, dtype=float), **({n[1]: dd} if len(n) > 1 else {})})
                    got = [i for i, b in enumerate(np.ravel(d.ev(summary().ret))) if b]
                    want = nondom(F)
                    ok = set(got) <= set(want) and {F[i] for i in got} == {F[i] for i in want}
                    if dd:
                        ok = ok and len({F[i] for i in got}) == len(got)
                    else:
                        ok = ok and got == want
                    return ok, f"is_non_dominated({[list(r) for r in F]}, deduplicate={dd}) keeps {got}; non-dominated are {want}"

                def allof():
                    for F in grids(m, k):
                        r = go(F)
                        if not r[0]:
                            return r
                    return True
                ctx.ob(f"dominance:{m}obj/{k}points/dedup={dd}", ctx.where(f), "kept exactly when nothing is at least as good everywhere and strictly better somewhere", allof)
    for c in optimizer_classes(ctx):
        if not is_mo(ctx, c) or c.method("xopt") is None:
            continue
        fx = c.method("xopt")
        w = f"{fx.module.rel}:{fx.node.lineno} {c.name}.xopt"
        for mini in itertools.product((True, False), repeat=2):
            def eff(levels=((1.0, 2.0, 3.0),) * 2):
                s = ctx.summ(c.name, "xopt")
                rows = [r for r in itertools.product(*levels)]
                for F in itertools.product(rows, repeat=3):
                    if len({r[0] for r in F}) < 2 or len({r[1] for r in F}) < 2:
                        continue
                    d = dom(True, dataf=[list(r) for r in F], minimize=list(mini))
                    got = d.ev(s.ret)
                    if not isinstance(got, Sol):
                        raise Unknown("not a Solution")
                    G = [tuple(-v if mm else v for v, mm in zip(r, mini)) for r in F]
                    want = nondom(G)
                    idx = [d.D.rows.index(r) for r in got.rows]
                    if not (set(idx) <= set(want) and {F[i] for i in idx} == {F[i] for i in want}):
                        return False, f"history {[list(r) for r in F]} with minimize={list(mini)}: efficient set {[list(F[i]) for i in idx]}, should be {[list(F[i]) for i in want]}"
                return True
            ctx.ob(f"efficient:{c.name}/{mini}".replace(" ", ""), w, "the efficient set is judged in each objective's own direction", eff)
            for lv in (((0.0, 1e6, 1e6 + 1e-3), (1.0, 1.0 + 1e-9, 3e8)), ((-1e5, -1e-9, 0.0), (0.0, 1e-9, 1.0))):
                ctx.ob(f"close:{c.name}/{mini}/{lv[0][1]}".replace(" ", ""), w, "recorded values that differ are told apart, however close", lambda: eff(lv))
