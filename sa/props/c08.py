import itertools

from ..tellmodel import *  # noqa

TECHNIQUE = "append/pairing analysis of tell() summaries in a row-token domain; effect analysis of writes to the history in all other methods"
RULE = ("Append/pairing analysis: the value-flow summary of the history after tell() is evaluated in the row-token domain and compared with 'old history followed by the valid told rows, "
        "each with its own value'; an effect analysis over every other optimizer method reports any write to the history; evaluate() and surrogate training are checked for row alignment.")

WRITERS = {"tell", "save", "load", "__init__", "__setstate__", "__getstate__"}


def affine(v, f):
    """v is an increasing affine image of f (element by element)"""
    v, f = np.asarray(v, float).ravel(), np.asarray(f, float).ravel()
    if v.shape != f.shape:
        return False
    i, j = int(np.argmin(f)), int(np.argmax(f))
    a = (v[j] - v[i]) / (f[j] - f[i])
    return a > 0 and np.allclose(v - v[i], a * (f - f[i]))


def check(ctx):
    for c in optimizer_classes(ctx):
        mo = is_mo(ctx, c)
        f = c.method("tell")
        if f is None:
            continue
        w = f"{f.module.rel}:{f.node.lineno} {c.name}.tell"
        if mo:
            vss = [[[3.0, 1.0]], [[3.0, 1.0], [1.0, 2.0], [2.0, 7.0]], [[3.0, 1.0], [NAN, 2.0], [2.0, 7.0]]]
        else:
            vss = [[3.0], [3.0, 1.0, 2.0], [1.0, 1.0, 2.0], [3.0, NAN, 2.0], [0.0, 5.0, -1.0, INF]]
        for n, warm in ((700, False), (1500, False), (1500, True), (12000, False)):
            def long_():
                s = ctx.summ(c.name, "tell")
                vals = [[3.0, 1.0], [1.0, 2.0]] if mo else [3.0, 1.0]
                df = [[float(i % 7), float(-i)] if mo else float(i) for i in range(n)]
                d = dom(mo, warm=warm, vals=vals, dataf=df)
                got = d.ev(s.get("data"))
                if not isinstance(got, Sol):
                    raise Unknown("history is not a Solution")
                rows, fit = expected_data(d.D, True, d.val["X"], vals)
                return got.rows == rows and same(got.fitness.tolist(), fit), f"{c.name}.tell of 2 points with {n} recorded ones: the history has {len(got.rows)} rows, from {got.rows[0]} to {got.rows[-1]}"
            ctx.ob(f"append-long:{c.name}/{n}/{warm}", w, "history' = history ++ valid told rows, however long the history", long_)
        for told, data in itertools.product((["d0", "p1"], ["p0", "p0", "p1"], ["d1", "d0", "d1"], ["p2", "p0", "p1"]), (True, False)):
            def again():
                s = ctx.summ(c.name, "tell")
                vals = [[3.0, 1.0], [1.0, 2.0], [2.0, 7.0]][:len(told)] if mo else [3.0, 1.0, 2.0][:len(told)]
                d = dom(mo, data=data, vals=vals, rows=told)
                got = d.ev(s.get("data"))
                if not isinstance(got, Sol):
                    raise Unknown("history is not a Solution")
                rows, fit = expected_data(d.D, data, told, vals)
                return got.rows == rows and same(got.fitness.tolist(), fit), f"{c.name}.tell({told}, {vals}): history becomes {list(zip(got.rows, got.fitness.tolist()))}, expected {list(zip(rows, fit))}"
            ctx.ob(f"append-again:{c.name}/{'+'.join(told)}/{data}", w, "a point that was told before is recorded again, with its new value", again)
        for data, warm, vals in itertools.product((True, False), (False, True), vss):
            def go():
                s = ctx.summ(c.name, "tell")
                d = dom(mo, data=data, warm=warm, vals=vals)
                got = d.ev(s.get("data"))
                if not isinstance(got, Sol):
                    raise Unknown("history is not a Solution")
                rows, fit = expected_data(d.D, data, d.val["X"], vals)
                gf = got.fitness.tolist()
                return got.rows == rows and same(gf, fit), f"{c.name}.tell({d.val['X']}, {vals}), history={data}: history becomes {list(zip(got.rows, gf))}, expected {list(zip(rows, fit))}"
            ctx.ob(f"append:{c.name}/{data}/{warm}/{vals}".replace(" ", ""), w, "history' = history ++ valid told rows, in order, each with its own value", go)

        def csv():
            s = ctx.summ(c.name, "tell")
            es = [e for e in s.events if e.name and e.name.split(".")[-1] == "to_csv"]
            if not es:
                return None, "no history file is written"
            for e in es:
                d = dom(mo, vals=[[3.0, 1.0], [NAN, 2.0], [2.0, 7.0]] if mo else [3.0, NAN, 2.0], extra={"self.data_file": "f"})
                if not live(d, e):
                    continue
                got = d.ev(e.args[0])
                if isinstance(got, Sol) and got.rows != ["p0", "p2"]:
                    return False, f"rows appended to the data file are {got.rows}, expected the valid told rows"
            return True
        if any(isinstance(n, __import__("ast").Attribute) and n.attr == "to_csv" for n in __import__("ast").walk(f.node)):
            ctx.ob(f"file:{c.name}", w, "the data file receives exactly the valid told rows", csv)

        # surrogate training
        def trained(n=None):
            s = ctx.summ(c.name, "tell")
            fits = [e for e in s.events if e.kind in ("mcall", "call") and e.name.split(".")[-1] == "fit" and e.args and ("model" in show(e.args[0], 3) or "GaussianProcess" in show(e.args[0], 3))]
            if not fits:
                return None, "no surrogate fit found"
            vals = [[3.0, 1.0], [1.0, 2.0], [2.0, 7.0]] if mo else [3.0, 1.0, 2.0]
            for mini in ([True, False] if not mo else [[True, False], [False, True]]):
                for e in fits:
                    d = dom(mo, vals=vals, minimize=mini, dataf=None if n is None else [[float(i % 7), float(-i)] if mo else float(i) for i in range(n)])
                    if not live(d, e):
                        continue
                    base = d.fns["mcall:fit_transform"]

                    def ft(D_, t, recv, a):
                        if "pca" in show(recv, 3).lower() or "LinearTransform" in show(recv, 3):
                            x = D_.ev(a[0])
                            y = D_.ev(a[1]) if len(a) > 1 and a[1].op != "kw" else None
                            return Obj("T", rows=x.rows if isinstance(x, Sol) else x)
                        return base(D_, t, recv, a)
                    d.fns["mcall:fit_transform"] = ft
                    d.fns["numpy.array"] = d.fns["numpy.asarray"] = lambda x, *a, **k: x if isinstance(x, Sol) else np.array(x)
                    x = d.ev(e.args[1] if len(e.args) > 1 else e.kw.get("X"))
                    rows = x.rows if isinstance(x, (Sol, Obj)) else None
                    y = d.ev(e.args[2] if len(e.args) > 2 else e.kw.get("y"))
                    if rows is None:
                        raise Unknown("training rows")
                    want = d.D.rows + ["p0", "p1", "p2"]
                    if list(rows) != want:
                        return False, f"{c.name}: surrogate trained on rows {rows if n is None else f'{rows[0]} to {rows[-1]} ({len(rows)})'} at {e.where}, the history is {want if n is None else f'{len(want)} rows long'}"
                    fy = d.D.fitness.tolist() + vals
                    y = np.asarray(y, float)
                    if mo:
                        fy = np.asarray(fy)
                        for k in range(2):
                            s_ = -1 if mini[k] else 1
                            if not affine(s_ * y[:, k], fy[:, k]):
                                return False, f"{c.name}: objective {k} is trained on {y[:, k].tolist()} for values {fy[:, k].tolist()} (minimize={mini[k]}) at {e.where}"
                    elif not affine(y, fy):
                        return False, f"{c.name}: surrogate trained on {y.ravel().tolist()} for values {fy} at {e.where}"
            return True
        if c.name != "ConditionalBO":
            ctx.ob(f"train:{c.name}", w, "the surrogate is retrained on the whole history, every row with its own standardised value", trained)
            for n in (150, 1500):
                ctx.ob(f"train-long:{c.name}/{n}", w, "the surrogate is retrained on the whole history, however long", lambda: trained(n))

    # evaluation order
    seen = set()
    for c in optimizer_classes(ctx):
        f = c.method("evaluate")
        if f is None or (f.qual, is_mo(ctx, c)) in seen:
            continue
        seen.add((f.qual, is_mo(ctx, c)))
        mo = is_mo(ctx, c)
        for nj, par, pts in itertools.product((1, 2), (False, True), (["p0", "p1", "p2"], ["p2", "p0", "p1"], ["p1", "p0", "p1"], ["p0"])):
            def ev():
                s = ctx.summ(c.name, "evaluate")
                fn = lambda k: (lambda x: (k, x))
                d = Dom({"X": list(pts), "self.n_job": nj, "self.n_obj": 2 if mo else 1, "self.obj_fun": [fn(0), fn(1)] if mo else fn(0),
                         "self.parallel_obj_fun": (lambda X: [("par", x) for x in X]) if par else None})
                got = [tuple(x) if isinstance(x, (list, tuple)) else x for x in d.ev(s.ret)]
                if par:
                    want = [("par", x) for x in d.val["X"]]
                elif mo:
                    want = [((0, x), (1, x)) for x in d.val["X"]]
                else:
                    want = [(0, x) for x in d.val["X"]]
                return got == want, f"evaluate({d.val['X']}) with n_job={nj}, parallel={par} yields {got}, expected {want}"
            ctx.ob(f"evaluate:{f.qual}/{nj}/{par}/{len(pts)}{pts[0]}", ctx.where(f), "values come back in the order of the points in every execution mode", ev)

    # conversion of told points keeps their order
    for et in ("list", "dict"):
        c = ctx.cls("BaseBO")
        f = c.method("_set_aux_vars")
        if f is None:
            break

        def conv():
            def pre(I, o):
                I.st.heap[(o, "_eval_type")] = const(et)
            s = ctx.run(f, c, pre=pre)
            g = s.attr("_to_geno")
            if g is None:
                raise Gone("_to_geno")
            r = s.I.deep(s.I.call(s.I.st.heap[(s.obj, "_to_geno")], [mk("sym", "X"), mk("sym", "idx")], {}, f.node))
            if r.op != "call" or "Solution" not in r.a[0]:
                return None
            kw = {x.a[0]: x.a[1] for x in r.a[1:] if x.op == "kw"}
            pos = [x for x in r.a[1:] if x.op != "kw"]
            first = [x for x in (pos + [v for k, v in kw.items() if k in ("obj", "x", "data", "_dict")]) if x.op != "cls"]
            if kw.get("index") is not mk("sym", "idx"):
                return False, "the given index is not attached to the told points"
            if not first:
                return None
            return (True if first[0] is mk("sym", "X") else None), show(r, 4)
        ctx.ob(f"convert:{et}", ctx.where(f), "told points are converted in the given order", conv)

    # nobody else writes the history
    base = ctx.cls("BaseOptimizer")
    for c in [base, ctx.cls("BaseBO")] + optimizer_classes(ctx):
        for g in list(c.methods.values()) + list(c.getters.values()):
            if g.name in WRITERS or g.kind == "staticmethod":
                continue
            part = ctx.prog.only_from(g.name, WRITERS - {"save"})   # a step of tell() moved into a helper of its own

            def pure():
                if part:
                    return True, "reached from tell() only"
                s = ctx.run(g, c, budget=150000)
                for e in s.events:
                    if e.kind == "setattr" and e.name == "data" and e.args[0] is s.obj and "tell" not in [q.split(".")[-1] for q in e.stack]:
                        return False, f"{e.where} assigns the history (self.data) outside tell()"
                    if e.kind in ("mut", "inplace") and e.raw is not None and isinstance(e.raw, T) and e.raw.op in ("sym", "ref") and e.raw.a[0] == "self.data" \
                            and "tell" not in [q.split(".")[-1] for q in e.stack]:
                        return False, f"{e.where} modifies the history in place outside tell()"
                    if e.kind == "delattr" and e.name == "data":
                        return False, f"{e.where} deletes the history"
                return True
            ctx.ob(f"effect:{c.name}.{g.name}", ctx.where(g), "no operation other than tell() writes the history", pure)
