import itertools

from ..loader import THOROUGH
from ..askmodel import *  # noqa

TECHNIQUE = "interprocedural value-flow of `fixed` through constructor+ask sessions, evaluated in a column-token domain; completion of criterion and constraints checked by term application"
RULE = ("End-to-end flow of `fixed`: construction followed by ask(n, fixed) is one value-flow session per optimizer class; it is evaluated on a mixed space for every way a point can be proposed "
        "(search, batch, initial design, top-up after duplicates, top-up after a failed search) and several choices of fixed variables. Each returned point must carry the requested values in the "
        "requested columns and the searched / sampled values elsewhere; the space that is searched or sampled must consist of exactly the remaining variables; the criterion and the constraints "
        "handed over are applied to a point of the reduced space and must evaluate the completed one.")

CLASSES = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "NoisyBO": "UCB", "MOBO": "EHVI", "MultiAcquisitionBO": "MGFI"}
BATCH = ("ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "NoisyBO", "MultiAcquisitionBO")
CRITERIA = ("EI", "PI", "UCB", "MGFI", "EpsilonPI", "EHVI")
ORDER = ("r1", "k", "c", "r2", "o")
FIXED = ({"r1": 2.5}, {"r2": 1.23456789, "k": 4}, {"o": 20}, {"c": "w"}, {"k": 0}, {"r2": 4.5, "k": 7}, {"o": 30, "r1": 0.0}, {"c": ("v", "w"), "r2": 1.25, "o": 10}, {"k": 3, "c": "v", "r1": 1.0, "r2": 2.0})
if THOROUGH:  # every set of variables
    VALUES = {"r1": 2.5, "k": 4, "c": "w", "r2": 1.25, "o": 20}
    FIXED += tuple({n: VALUES[n] for n in ns} for k in range(1, 5) for ns in itertools.combinations(("r1", "k", "c", "r2", "o"), k) if all(set(ns) != set(f) for f in FIXED))
OLD = [[3.1, 50, "u", 3.2, 10], [3.3, 51, "v", 3.4, 20]]


def hist(fixed):
    """recorded points that agree with the fixed values"""
    rows = [dict(zip(ORDER, r)) for r in OLD]
    for r in rows:
        r.update(fixed)
    return [[r[n] for n in ORDER] for r in rows], [{k: v for k, v in r.items() if k not in fixed} for r in rows]


def situations(cname, fixed):
    """(name, n, fitted, script, recorded rows)"""
    H, reduced = hist(fixed)
    batch = cname in BATCH
    yield "search", 1, True, {}, H
    yield "search-first", 1, True, {}, None
    yield "search-later", 1, True, {"iter_count": 10, "eval_count": 101}, H
    yield "search-zeroth", 1, True, {"iter_count": 0, "eval_count": 0}, H
    if batch:
        yield "batch", 3, True, {}, H
        yield "batch-jobs", 4, True, {"n_job": 2}, H
        if cname != "NoisyBO":
            yield "batch-duplicate", 3, True, {"search": [reduced[0], None, reduced[1]]}, H
        yield "batch-failed", 3, True, {"search": [[], None, []]}, H
    if cname != "NoisyBO":
        yield "duplicate", 1, True, {"search": [reduced[0]]}, H
    yield "failed", 1, True, {"search": [[]]}, H
    yield "design", 3, False, {}, None
    yield "design-default", None, False, {}, None
    yield "design-one", 1, False, {}, H
    if cname != "NoisyBO":
        yield "design-duplicate", 2, False, {"sample": [reduced]}, H


def free(fixed):
    return [n for n in ORDER if n not in fixed]


def mobo_session(ctx, eval_type, h, g):
    key = ("ask", "MOBO", eval_type, h, g)
    if key not in ctx._sum:
        kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": True, "n_job": mk("sym", "n_job"), "max_FEs": 100, "eval_type": eval_type,
              "acquisition_fun": "EHVI", "DoE_size": mk("sym", "DoE_size"), "n_obj": 2, "eq_fun": mk("sym", "eq") if h else None, "ineq_fun": mk("sym", "ineq") if g else None}
        s = Session(ctx, "MOBO", kw, opaque=ASK_OPAQUE + ("EHVI", "NondominatedPartitioning"), opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
        s.later()
        r = s.call("ask", n_point=mk("sym", "n"), fixed=mk("sym", "fixed"))
        ctx._sum[key] = (s, r)
    return ctx._sum[key]


def get(ctx, cname, acq, eval_type, h, g):
    if cname == "MOBO":
        return mobo_session(ctx, eval_type, h, g)
    if cname == "MultiAcquisitionBO":
        return ask_session(ctx, cname, acq, eval_type, h, g, n_point=mk("sym", "n_point"))
    return ask_session(ctx, cname, acq, eval_type, h, g)


def evaluate(ctx, cname, acq, eval_type, fixed, n, fitted, script, H, h=True, g=True):
    s, r = get(ctx, cname, acq, eval_type, h, g)
    script = dict(script)
    if "search" in script:  # None: a fresh point
        script["search"] = [x for x in script["search"]]
    d = ask_dom(ctx, s, mixed(ORDER, 3), n=n, fixed=dict(fixed) if fixed is not None else None, history=H, fitted=fitted, script=script, n_job=script.get("n_job", 1), **{k: v for k, v in script.items() if k in ("iter_count", "eval_count")})
    if cname == "NoisyBO":
        d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
    out = d.ev(r)
    if eval_type == "dict":
        out = [[x[nm] for nm in ORDER] for x in out]
    return d, [list(x) for x in out]


def check(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        for eval_type in ("list", "dict") if cname in ("BO", "ParallelBO") else ("list",):
            for j, fixed in enumerate(FIXED):
                for name, n, fitted, script, H in situations(cname, fixed):
                    tag = f"{cname}/{eval_type}/{name}/{'+'.join(fixed)}"

                    memo = []

                    def run(memo=memo):
                        if not memo:
                            try:
                                memo.append(evaluate(ctx, cname, acq, eval_type, fixed, n, fitted, script, H))
                            except (Unknown, Raised) as e:
                                memo.append(e)
                        if isinstance(memo[0], Exception):
                            raise memo[0]
                        return memo[0]

                    def kept():
                        try:
                            d, X = run()
                        except Raised as e:
                            if "broadcast" in str(e):  # the values and the columns they are written to do not fit
                                return False, f"ask(fixed={fixed}) fails: {e}"
                            raise
                        for x in X:
                            for k, v in fixed.items():
                                got = x[ORDER.index(k)]
                                if got != v or type(got) is not type(v):
                                    return False, f"{k} was fixed to {v!r} but a proposed point has {got!r}: {x}"
                        return True
                    ctx.ob("kept:" + tag, w, "every proposed point carries exactly the requested values", kept)

                    def others():
                        d, X = run()
                        src = [tuple(r) for r in produced(d, script, fixed)]
                        for x in X:
                            y = tuple(x[i] for i, nm in enumerate(ORDER) if nm not in fixed)
                            if y not in src:
                                return False, f"the free variables {free(fixed)} of {x} are {y}, which neither the search nor the sampler produced"
                        return True
                    ctx.ob("free:" + tag, w, "the other variables are those found by the search / sampler, each in its own column", others)

                    def reduced():
                        d, X = run()
                        if not d.searches and not d.samples:
                            raise Unknown("no proposal source")
                        for sp in [b["search_space"] for b in d.searches] + [sp for sp, _ in d.samples]:
                            if list(sp.var_name) != free(fixed):
                                return False, f"variables {list(sp.var_name)} are searched / sampled although {sorted(fixed)} are fixed"
                        return True
                    ctx.ob("space:" + tag, w, "the search and the sampler range over exactly the remaining variables", reduced)
                    if j >= 6 and name != "search":
                        continue

                    def completed(which, role):
                        d, X = run()
                        pt = d.point(Space([v for v in mixed(ORDER, 3).data if v.name not in fixed]), 3, 0)
                        want = [fixed.get(nm, None) if nm in fixed else pt[free(fixed).index(nm)] for nm in ORDER]
                        todo = [b for b in d.searches] if which == "search" else [b for _, b in d.samples]
                        if not todo:
                            return True
                        for b in todo:
                            fn = b.get({"criterion": "obj_func", "eq": "h", "ineq": "g"}[role])
                            if fn is None:
                                return (False, f"the user's {role} constraint is not handed over") if role != "criterion" else None
                            for arg in (pt, np.array(pt, dtype=object)):
                                d.evals.clear()
                                try:
                                    fn(arg)
                                except Raised as e:
                                    return False, f"{role} cannot be evaluated on a point of the searched variables {free(fixed)}: {e}"
                                hit = [e for e in d.evals if (e[0] in CRITERIA if role == "criterion" else e[0] == role)]
                                if not hit:
                                    if role != "criterion" and d.evals:
                                        return False, f"{d.evals[0][0]} is evaluated in place of {role}"
                                    raise Unknown("evaluation of " + role)
                                for _, Z in hit:
                                    Z = np.asarray(Z, dtype=object)
                                    Z = Z.reshape(-1, len(ORDER)) if Z.size == len(ORDER) else Z
                                    if Z.shape != (1, len(ORDER)):
                                        return False, f"{role} is evaluated on {Z.tolist()} instead of the completed point {want}"
                                    if [x for x in Z[0]] != want:
                                        return False, f"{role} is evaluated on {Z[0].tolist()} instead of the completed point {want}"
                            if role == "criterion":
                                # several points at once: each of them is completed
                                two = [d.point(Space([v for v in mixed(ORDER, 3).data if v.name not in fixed]), 3, k) for k in (0, 1)]
                                full = [[fixed[nm] if nm in fixed else q[free(fixed).index(nm)] for nm in ORDER] for q in two]
                                arr = np.empty((2, len(free(fixed))), dtype=object)
                                for k, q in enumerate(two):
                                    for m, x in enumerate(q):
                                        arr[k, m] = x
                                d.evals.clear()
                                try:
                                    fn(arr)
                                except (Raised, Unknown):
                                    continue
                                for e in d.evals:
                                    if e[0] in CRITERIA:
                                        Z = np.asarray(e[1], dtype=object)
                                        if Z.shape == (2, len(ORDER)) and Z.tolist() != full:
                                            return False, f"{role} is evaluated on {Z.tolist()} instead of the completed points {full}"
                        return True
                    ctx.ob("criterion:" + tag, w, "the acquisition function is evaluated on the point completed with the fixed values", lambda: completed("search", "criterion"))
                    for role in ("eq", "ineq"):
                        for which in ("search", "sample"):
                            ctx.ob(f"{role}-{which}:{tag}", w, "the user's constraints are evaluated on the point completed with the fixed values", lambda: completed(which, role))

        def unfixed():
            for fx in (None, {}):
                for name, n, fitted, script, H in situations(cname, {}):
                    try:
                        d, X = evaluate(ctx, cname, acq, "list", fx, n, fitted, script, H)
                    except Raised as e:
                        if "broadcast" in str(e):
                            return False, f"ask(fixed={fx}) fails: {e}"
                        raise
                    src = [tuple(r) for r in produced(d, script, {})]
                    for x in X:
                        if tuple(x) not in src:
                            return False, f"with fixed={fx}, {x} is proposed but neither the search nor the sampler produced it"
            return True
        ctx.ob("none:" + cname, w, "without fixed values the points are returned as found", unfixed)
        again(ctx, cname, acq, w)
    gradient(ctx)
    filters(ctx)
    refusal(ctx)
    conditional(ctx)


def again(ctx, cname, acq, w):
    """a later request is not affected by what an earlier one fixed"""
    def two():
        key = ("ask2", cname)
        if key not in ctx._sum:
            s, _ = get(ctx, cname, acq, "list", True, False)
            ctx._sum[key] = (s, s.call("ask", n_point=mk("sym", "n2"), fixed=mk("sym", "fixed2")))
        return ctx._sum[key]
    for first, second in (({"r1": 2.5, "c": "w"}, None), ({"k": 1}, {"o": 20}), ({"k": 1}, {"k": 5}), (None, {"r2": 1.5})):
        for n in (1, 3) if cname in BATCH and cname != "NoisyBO" else (1,):
            def go():
                s, r = two()
                fx = second or {}
                d = ask_dom(ctx, s, mixed(ORDER, 3), n=n, fixed=first, history=hist({})[0], n2=n, fixed2=second)
                d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
                X = [list(x) for x in d.ev(r)]
                mine = d.searches[-n:]
                pt = d.point(Space([v for v in mixed(ORDER, 3).data if v.name not in fx]), 3, 0)
                want = [fx[nm] if nm in fx else pt[free(fx).index(nm)] for nm in ORDER]
                for b in mine:
                    if list(b["search_space"].var_name) != free(fx):
                        return False, f"after ask(fixed={first}), ask(fixed={second}) searches {list(b['search_space'].var_name)}"
                    for fn, who in ((b["obj_func"], "the criterion"), (b.get("h"), "eq")):
                        if fn is None:
                            raise Unknown("function handed over")
                        d.evals.clear()
                        try:
                            fn(np.array(pt, dtype=object))
                        except Raised as e:
                            return False, f"after ask(fixed={first}), ask(fixed={second}) cannot evaluate {who} on {free(fx)}: {e}"
                        hit = [np.asarray(z, dtype=object).ravel().tolist() for nm, z in d.evals if nm == who or who == "the criterion" and nm in CRITERIA]
                        if not hit:
                            raise Unknown("evaluation of " + who)
                        if hit[-1] != want:
                            return False, f"after ask(fixed={first}), ask(fixed={second}) evaluates {who} on {hit[-1]} instead of {want}"
                for x in X:
                    for k, v in fx.items():
                        if x[ORDER.index(k)] != v:
                            return False, f"after ask(fixed={first}), ask(fixed={second}) proposes {x}"
                return True
            ctx.ob(f"again:{cname}/{sorted(first or {})}/{sorted(second or {})}/{n}", w, "a request is answered with its own fixed values, whatever was fixed before", go)


def produced(d, script, fixed):
    out = []
    for k, b in enumerate(d.searches):
        rows = script.get("search")
        x = rows[k] if rows and k < len(rows) and rows[k] is not None else d.point(b["search_space"], k, 0)
        if x:
            out.append([x[nm] for nm in b["search_space"].var_name] if isinstance(x, dict) else x)
    base = 0
    for k, (sp, b) in enumerate(d.samples):
        n = int(b.get("N", 1))
        rows = script.get("sample")
        if rows and k < len(rows):
            out += [[r[nm] for nm in sp.var_name] if isinstance(r, dict) else r for r in rows[k]]
        else:
            out += [d.point(sp, base + i, 1) for i in range(n)]
        base += n
    return out


def gradient(ctx):
    """the gradient handed to a gradient-based search has exactly the components of the remaining variables"""
    sp = [Var("Real", "x" + str(i), (0.0, 5.0)) for i in range(4)]
    f = ctx.cls("BO").method("ask")
    w = f"{f.module.rel}:{f.node.lineno} BO.ask"
    for fixed in ({"x1": 2.0}, {"x0": 1.0, "x3": 3.0}, {}):
        def go():
            key = ("askgrad",)
            if key not in ctx._sum:
                kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": True, "n_job": 1, "max_FEs": 100, "acquisition_fun": "EI",
                      "acquisition_optimization": {"optimizer": "BFGS"}}
                s = Session(ctx, "BO", kw, opaque=ASK_OPAQUE, opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
                ctx._sum[key] = (s, s.call("ask", n_point=mk("sym", "n"), fixed=mk("sym", "fixed")))
            s, r = ctx._sum[key]
            d = ask_dom(ctx, s, Space(sp), n=1, fixed=dict(fixed))
            d.ev(r)
            keep = [i for i in range(4) if f"x{i}" not in fixed]
            for b in d.searches:
                out = b["obj_func"]([0.5] * len(keep))
                if not isinstance(out, (tuple, list)) or len(out) != 2:
                    raise Unknown(f"criterion without gradient: {out}")
                g = np.asarray(out[1], dtype=float).ravel().tolist()
                if g != [float(i + 1) for i in keep]:
                    return False, f"with {sorted(fixed)} fixed the gradient has components {[int(v) - 1 for v in g]} of the full one instead of {keep}"
            return True
        ctx.ob("gradient:" + "+".join(fixed), w, "the gradient of the criterion is restricted to the remaining variables", go)


def filters(ctx):
    f = ctx.method("SearchSpace", "filter")
    w = ctx.where(f)
    sp = mixed(ORDER, 3)
    from ..spacemodel import state_val
    for keys in (["k"], ["o", "r1"], [], list(ORDER), ["missing"]):
        for invert in (True, False):
            def go():
                s = ctx.summ("SearchSpace", "filter", opaque=("Node",), opaque_funcs=("SearchSpace.__getitem__",))
                val = {**state_val(sp), "self": sp, "keys": list(keys), "invert": invert}
                d = SpaceDom(ctx, val)
                picked = []
                for e in s.events:
                    if e.name and e.name.endswith("__getitem__"):
                        picked.append(d.ev((list(e.args[1:]) + list(e.kw.values()))[0]))
                if not picked:
                    raise Unknown("selection")
                m = picked[-1]
                m = np.asarray(m)
                got = [n for i, n in enumerate(ORDER) if (m[i] if m.dtype == bool else i in m)]
                want = [n for n in ORDER if (n in keys) != invert]
                return got == want, f"filter({keys}, invert={invert}) keeps {got}"
            ctx.ob(f"filter:{'+'.join(keys)}/{invert}", w, "filter keeps exactly the named variables, or exactly the others", go)


def refusal(ctx):
    f = ctx.method("PCABO", "ask")

    def go():
        s = ctx.summ("PCABO", "ask", args=[mk("sym", "n_point"), mk("sym", "fixed")], opaque_funcs=("BaseBO.ask", "BO.ask"))
        d = Dom({"fixed": {"x1": 0.5}, "n_point": 1})
        for e in s.events:
            if e.kind == "raise" and d.tri(pcond(e)) is True:
                return True
        for e in s.events:
            if e.kind in ("enter", "call", "mcall") and e.name and e.name.endswith("ask") and live(d, e) and e.name != "PCABO.ask":
                r = e.kw if hasattr(e, "kw") else {}
                return False, "fixed values are accepted but the proposal is made in the reduced space, where they cannot be kept"
        raise Unknown("handling of fixed")
    ctx.ob("reduced:PCABO", ctx.where(f), "the dimension-reducing optimizer refuses fixed values it cannot keep", go)


def conditional(ctx):
    f = ctx.method("ConditionalBO", "ask")

    def go():
        s = ctx.summ("ConditionalBO", "ask", args=[mk("sym", "n_point"), mk("sym", "fixed")])
        for e in s.events:
            for t in list(e.args) + list(e.pc):
                if isinstance(t, T) and any(x.op == "sym" and x.a[0] == "fixed" for x in subterms(t)) and e.kind not in ("enter",):
                    raise Unknown("use of fixed")
        return False, "ask() accepts `fixed` but never uses it: the proposed points take arbitrary values in the fixed variables"
    ctx.ob("conditional-fixed", ctx.where(f), "conditional proposals keep the fixed values", go)
