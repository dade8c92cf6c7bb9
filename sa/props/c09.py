import itertools

from ..loader import THOROUGH
from ..tellmodel import *  # noqa

TECHNIQUE = "provenance analysis of incumbent summaries in an order domain, from states an earlier read leaves behind"
RULE = ("Provenance analysis of the incumbent: the value-flow summaries of xopt, recommend() and run() are evaluated in the row-token/order domain for every optimizer "
        "class, over all order types of short histories, both directions, with the values an earlier read leaves in every cache attribute; the result must be a best row of the whole "
        "current history carrying its own value.")


def nd(fit, mini):
    f = np.asarray(fit) * np.where(np.asarray(mini), -1, 1)
    out, seen = [], []
    for i in range(len(f)):
        if any(np.all(f[j] >= f[i]) and np.any(f[j] > f[i]) for j in range(len(f))):
            continue
        out.append(i)
    return out


def earlier(mo, h, mini):
    """the cache attributes as an earlier read leaves them: the incumbent of the history without its latest row"""
    p = h[:-1]
    if not p:
        return {"hasattr:_xopt": False, "hasattr:_fopt": False, "self.hist_f": []}
    idx = nd(p, mini) if mo else [p.index(min(p) if mini else max(p))]
    v = [p[i] for i in idx]
    x = Sol([f"d{i}" for i in idx], v, names=["a", "b"], n_obj=2 if mo else 1)
    f = v if mo else v[0]
    return {"self._xopt": x, "hasattr:_xopt": True, "self._fopt": f, "hasattr:_fopt": True, "self.hist_f": [f], "self._fBest_DoE": f, "self._xBest_DoE": x.rows[0]}


def check(ctx):
    for c in optimizer_classes(ctx):
        mo = is_mo(ctx, c)
        f = c.method("xopt")
        if f is None:
            continue
        w = f"{f.module.rel}:{f.node.lineno} {c.name}.xopt"
        if mo:
            hists = [[[1.0, 4.0], [2.0, 3.0], [3.0, 5.0]], [[3.0, 3.0], [1.0, 1.0], [2.0, 5.0], [5.0, 2.0]], [[1.0, 1.0], [2.0, 2.0]], [[2.0, 2.0], [1.0, 1.0]],
                     [[1.0, 2.0], [1.0, 3.0], [2.0, 1.0]]]
            if THOROUGH:
                hists += [[list(r) for r in F] for F in itertools.product(itertools.product((1.0, 2.0), repeat=2), repeat=3) if len({r[0] for r in F}) > 1 and len({r[1] for r in F}) > 1]
            dirs = [[True, True], [False, False], [True, False], [False, True]]
        else:
            hists = [list(p) for p in itertools.permutations([1.0, 2.0, 3.0])] + [[2.0], [2.0, 1.0, 1.0], [3.0, 3.0, 1.0], [-1.0, 0.0, -2.0], [1.0, 2.0, 3.0, 0.0], [1.0 + 1e-10, 1.0, 1.0 + 2e-10, 2.0], [-1e-12, 1e-12, 0.0], [1e9 + 1, 1e9, 1e9 + 2]]
            if THOROUGH:
                hists += [list(p) for p in itertools.permutations([1.0, 2.0, 3.0, 4.0])] + [list(p) for p in itertools.product([1.0, 2.0], repeat=4)]
            dirs = [True, False]
        for h in hists:
            for mini in dirs:
                def go(meth="xopt", pick=lambda v: v):
                    s = ctx.summ(c.name, meth, opaque_funcs=tuple(q.qual for q in [c.method("step"), c.method("check_stop")] if q) if meth == "run" else ())
                    ex = {"self.stop_dict": {"max_FEs": 1}, "self.max_FEs": 3, "self.ftarget": None, "self.fmin": 0.5, "self.fmax": 0.5, **earlier(mo, h, mini)}
                    d = dom(mo, dataf=h, minimize=mini, extra=ex)
                    d.fns["acall:self._to_pheno"] = lambda x: x
                    for q in (c.method("check_stop"),):
                        if q:
                            d.fns[q.qual] = lambda *a, **k: True
                    return pick(d.ev(s.ret)), d

                def xopt():
                    got, d = go()
                    return judge(got, d)

                def judge(got, d, fit=None):
                    if not isinstance(got, Sol):
                        raise Unknown("not a Solution")
                    if mo:
                        want = nd(h, mini)
                        wr = sorted(d.D.rows[i] for i in want)
                        # equal objective vectors may be represented once
                        uniq = {tuple(h[i]) for i in want}
                        ok = set(got.rows) <= set(wr) and {tuple(x) for x in got.fitness.tolist()} == uniq and all(
                            h[d.D.rows.index(r)] == fv for r, fv in zip(got.rows, got.fitness.tolist()))
                        return ok, f"history {h}, minimize={mini}: incumbents {got.rows}, expected {wr}"
                    best = min(h) if mini else max(h)
                    want = [r for r, v in zip(d.D.rows, h) if v == best]
                    ok = len(got.rows) == 1 and got.rows[0] in want and np.all(got.fitness == best)
                    return ok, f"history {h}, minimize={mini}: incumbent {got.rows} with {got.fitness.tolist()}, expected one of {want} with {best}"
                tag = f"{c.name}/{h}/{mini}".replace(" ", "")
                ctx.ob("xopt:" + tag, w, "xopt is a best row of the whole current history with its own value", xopt)

                def rec():
                    got, d = go("recommend")
                    return judge(got, d)
                ctx.ob("recommend:" + tag, w, "recommend() returns the incumbent", rec)

                def run():
                    def two(v):
                        return v
                    got, d = go("run")
                    if not isinstance(got, tuple) or len(got) < 2:
                        raise Unknown("run result")
                    r = judge(got[0], d)
                    if r[0] and not same(np.asarray(got[1]).ravel(), np.asarray(got[0].fitness).ravel()):
                        return False, f"run() returns value {got[1]} for point {got[0]}"
                    return r
                ctx.ob("run:" + tag, w, "run() returns the incumbent and its own value", run)

        # long histories: the best row may lie anywhere
        for n, at in ((250, 0), (250, 100), (1500, 0), (1500, 3), (1500, 700), (1500, 1499)):
            for mini in dirs:
                def far():
                    s = ctx.summ(c.name, "xopt")
                    sg = -1.0 if (mini if not mo else True) else 1.0
                    h = [[float((i * 37) % 101), float((i * 53) % 97)] if mo else float((i * 37) % 101) for i in range(n)]
                    h[at] = [1000.0 * (-1 if m else 1) for m in mini] if mo else sg * 1000.0
                    d = dom(mo, dataf=h, minimize=mini, extra=earlier(mo, h, mini))
                    got = d.ev(s.ret)
                    if not isinstance(got, Sol):
                        raise Unknown("not a Solution")
                    return got.rows == [f"d{at}"] and np.all(got.fitness == np.array([h[at]])), f"{n} recorded points, the best is number {at}: the incumbent is {got.rows[:3]} with {got.fitness.tolist()[:3]} (minimize={mini})"
                ctx.ob(f"far:{c.name}/{n}/{at}/{mini}".replace(" ", ""), w, "xopt is the best row of the whole history, however long", far)

        # sequences of operations: what an earlier read or tell left behind must not show through
        for mini in dirs:
            for sname, ops in (("read,warm tell,read", ("xopt", "warm", "xopt")), ("read,tell,read", ("xopt", "tell", "xopt")), ("read,failed tell,read", ("xopt", "failed", "xopt")),
                               ("tell,tell,read", ("tell", "tell2", "xopt")), ("read,tell,recommend", ("xopt", "tell", "recommend")), ("warm,warm,read", ("warm", "warm2", "xopt")),
                               ("recommend,tell,recommend", ("recommend", "tell", "recommend")), ("recommend,tell,tell,recommend", ("recommend", "tell", "tell2", "recommend")), ("recommend,warm tell,read", ("recommend", "warm", "xopt")),
                               ("recommend,failed tell,recommend", ("recommend", "failed", "recommend")), ("three failed tells,tell,read", ("failed", "failed", "failed", "tell", "xopt")),
                               ("three failed tells,read,tell,tell,read", ("failed", "failed", "failed", "xopt", "tell", "tell2", "xopt")), ("failed tell,large tell,read", ("failed", "many", "xopt")), ("two failed tells,large tell,recommend", ("failed", "failed", "many", "recommend")), ("tell,failed tell,warm tell,recommend", ("tell2", "failed", "warm", "recommend"))):
                def seqrun():
                    inits = const_inits(ctx, c)
                    good = [[1.0, 9.0], [9.0, 1.0], [6.0, 6.0]] if mo else [1.0, 9.0]
                    good2 = [[0.5, 9.5], [9.5, 0.5]] if mo else [0.5, 9.5]
                    good3 = [[0.25, 9.75], [9.75, 0.25]] + [[5.0, 5.0]] * 18 if mo else [0.25, 9.75] + [5.0] * 18
                    val, fns, D = valuation(mo, minimize=mini)
                    for k, v in inits.items():
                        if v is not Unknown:
                            val.setdefault("self." + k, v)
                            val.setdefault("hasattr:" + k, True)
                    sums = {m: ctx.summ(c.name, m) for m in ("xopt", "tell", "recommend")}
                    for m in sums.values():
                        for k in m.I.st.heap:
                            if isinstance(k, tuple) and k[0] is m.obj:
                                val.setdefault("hasattr:" + k[1], k[1] in inits or "self." + k[1] in val)
                    rows, fit = list(D.rows), D.fitness.tolist()
                    fns["acall:self._to_pheno"] = lambda x: x
                    out = None
                    for n, op in enumerate(ops):
                        m = op if op in sums else "tell"
                        if m == "tell":
                            vals = good2 if op.endswith("2") else ([[NAN, 1.0], [INF, 0.0]] if mo else [NAN, -INF]) if op == "failed" else good3 if op == "many" else good
                            val["X"] = [f"p{n}{i}" for i in range(len(vals))]
                            val["func_vals"] = vals
                            val["self._bo_idx"] = [0] * len(vals)
                            val["warm_start"] = op.startswith("warm")
                            for r, v in zip(val["X"], vals):
                                if not bad(v):
                                    rows.append(r)
                                    fit.append(v)
                        d = Dom(val, fns)
                        if n == len(ops) - 1:
                            out = d.ev(sums[m].ret)
                        else:
                            val = advance(d, sums[m], val)
                    if not isinstance(out, Sol):
                        raise Unknown("not a Solution")
                    if mo:
                        want = nd(fit, mini)
                        ok = set(out.rows) <= {rows[i] for i in want} and {tuple(x) for x in out.fitness.tolist()} == {tuple(fit[i]) for i in want}
                        return ok, f"after {sname} with minimize={mini}: incumbents {out.rows}, expected {[rows[i] for i in want]}"
                    best = min(fit) if mini else max(fit)
                    want = [r for r, v in zip(rows, fit) if v == best]
                    ok = len(out.rows) == 1 and out.rows[0] in want and np.all(out.fitness == best)
                    return ok, f"after {sname} with minimize={mini}: incumbent {out.rows} {out.fitness.tolist()}, expected {want} {best}"
                ctx.ob(f"sequence:{c.name}/{mini}/{sname}".replace(" ", "_"), w, "the incumbent after a sequence of tells and reads is the best of the whole history", seqrun)

        def nodata(meth):
            s = ctx.summ(c.name, meth)
            d = dom(mo, data=False, extra={"hasattr:_xopt": False})
            if meth == "xopt":
                return d.ev(s.ret) is None, "xopt without history is not None"
            rs = [e for e in s.events if e.kind == "raise" and "RecommendationUnavailable" in str(e.name) + show(e.args[0] if e.args else NONE, 4)]
            if not rs:
                return False, "recommend() never raises RecommendationUnavailableError"
            for e in rs:
                if truthy(d.ev(pcond(e))):
                    return True
            return False, "recommend() does not raise RecommendationUnavailableError when nothing has been recorded"
        ctx.ob(f"nodata:{c.name}.xopt", w, "no incumbent before anything is recorded", lambda: nodata("xopt"))
        ctx.ob(f"nodata:{c.name}.recommend", w, "recommend() raises its documented error before anything is recorded", lambda: nodata("recommend"))
