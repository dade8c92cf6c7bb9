import itertools

from ..tellmodel import *  # noqa

TECHNIQUE = "counter-delta dataflow over tell() summaries in a row-token domain; effect counting along every path of run loops and internal optimizers"
RULE = ("Counter-delta analysis: the final value-flow summary of eval_count / iter_count after tell() is evaluated in the row-token domain for every optimizer "
        "class (warm start or not, with failed points, with and without history); the run loop, the stop test and the internal optimizers' counters are checked by "
        "effect counting along every path.")


def tell_counts(ctx):
    for c in optimizer_classes(ctx):
        mo = is_mo(ctx, c)
        s = None
        for warm in (False, True):
            for data in (True, False):
                for nfail in (0, 1, 3) if data else (0, 1):
                    vals = [[1.0, 2.0], [2.0, 3.0], [3.0, 1.0]] if mo else [1.0, 2.0, 3.0]
                    if nfail:
                        vals[1] = [NAN, 1.0] if mo else NAN
                    if nfail == 3:
                        vals = [[NAN, INF], vals[1], [1.0, -INF]] if mo else [INF, NAN, NAN]

                    def go(attr, more):
                        s = ctx.summ(c.name, "tell")
                        d = dom(mo, warm=warm, data=data, vals=vals)
                        got = d.ev(s.get(attr))
                        want = d.val["self." + attr] + more
                        return got == want, f"{c.name}.tell(3 points, {nfail} failed, warm_start={warm}, history={data}): {attr} goes {d.val['self.' + attr]} -> {got}, expected {want}"
                    tag = f"{c.name}.tell/warm={warm}/data={data}/fail={nfail}"
                    w = f"{c.method('tell').module.rel}:{c.method('tell').node.lineno} {c.name}.tell" if c.method("tell") else c.name
                    per = (2 if mo else 1) * 3
                    ctx.ob("eval_count:" + tag, w, "eval_count grows by one per told objective value outside warm starts, by nothing in warm starts",
                           lambda: go("eval_count", 0 if warm else per))
                    ctx.ob("iter_count:" + tag, w, "iter_count grows by exactly one per tell outside warm starts", lambda: go("iter_count", 0 if warm else 1))


def with_conversion(ctx, c, et):
    """tell() together with the conversion of told points that the constructor installs for this evaluation type"""
    import ast
    import copy as _copy
    from ..loader import Func

    def pre(I, o):
        I.st.heap[(o, "_eval_type")] = const(et)
        g = c.method("_set_aux_vars")
        if g is None:
            raise Gone("_set_aux_vars")
        I.call_func(g, [o], {}, g.node)
        for k in reversed(c.mro()):
            f = k.methods.get("__init__")
            for st in ast.walk(f.node) if f is not None else ():
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_to_geno" for t in st.targets) and any(b.name == "BaseBO" for b in k.mro()):
                    n = _copy.copy(f.node)
                    n.body, n.decorator_list = [st], []
                    n.args = ast.arguments(posonlyargs=[], args=f.node.args.args[:1], kwonlyargs=[], kw_defaults=[], defaults=[])
                    h = Func(f.name, f.qual, n, f.module, k)
                    I.call_func(h, [o], {}, n)
    return ctx.run(c.method("tell"), c, pre=pre)


def row_counts(ctx):
    for c in optimizer_classes(ctx):
        f = c.method("tell")
        mo = is_mo(ctx, c)
        for et in ("list", "dict"):
            for data, warm in itertools.product((False, True), (False, True)):
                def go():
                    key = ("c06-rows", c.name, et)
                    if key not in ctx._sum:
                        ctx._sum[key] = with_conversion(ctx, c, et)
                    s = ctx._sum[key]
                    if s.dead:
                        raise Unknown("no normal exit")
                    d = dom(mo, data=data, warm=warm)
                    got = d.ev(s.get("data"))
                    if not isinstance(got, Sol):
                        raise Unknown("history")
                    n = list(got.n_eval)
                    return all(x == 1 for x in n), f"{c.name}(eval_type={et!r}): points told once are recorded with n_eval = {n[-3:]}"
                if f is not None:
                    ctx.ob(f"rows:{c.name}/{et}/data={data}/warm={warm}", ctx.where(f), "a point told once is recorded with one evaluation", go)


def stop_and_run(ctx):
    classes = [ctx.cls("BaseOptimizer")] + optimizer_classes(ctx)
    seen = set()
    for c in classes:
        f = c.method("check_stop")
        if f is None or (f.qual, is_mo(ctx, c)) in seen:
            continue
        seen.add((f.qual, is_mo(ctx, c)))

        def stop(ev, mx, target=None, best=None, minimize=True, want=None):
            s = ctx.summ(c.name, "check_stop")
            val = {"self.eval_count": ev, "self.max_FEs": mx, "self.ftarget": target, "self.stop_dict": {}, "self.minimize": minimize, "hasattr:data": best is not None}
            if best is not None:
                val["self.data"] = Sol(["d0"], [best], names=["a"])
                if is_mo(ctx, c) and not hasattr(best, "__len__"):
                    val["self.data"] = Sol(["d0"], [[best, best]], names=["a"])
                    val["self.minimize"] = np.asarray([minimize, minimize])
            for k, v in SETTINGS.items():
                val.setdefault(k, v)
            d = Dom(val)
            got = truthy(d.ev(s.ret))
            return got == want, f"check_stop() with eval_count={ev}, max_FEs={mx}, ftarget={target}, best={best}, minimize={minimize} gives {got}, expected {want}"
        w = ctx.where(f)
        r1 = "the stop test holds exactly when the budget is used up or the target is reached"
        for ev, mx, want in ((9, 10, False), (10, 10, True), (12, 10, True), (0, 10, False), (0, INF, False), (10 ** 6, INF, False)):
            ctx.ob(f"check_stop:{f.qual}/{ev}/{mx}", w, r1, lambda: stop(ev, mx, want=want))
            ctx.ob(f"check_stop-hist:{f.qual}/{ev}/{mx}", w, r1, lambda: stop(ev, mx, best=3.0, want=want))
        if not is_mo(ctx, c):
            for mini, best, tgt, want in ((True, 1.0, 2.0, True), (True, 3.0, 2.0, False), (False, 3.0, 2.0, True), (False, 1.0, 2.0, False)):
                ctx.ob(f"check_stop-target:{f.qual}/{mini}/{best}", w, r1, lambda: stop(0, 10, tgt, best, mini, want))
            ctx.ob(f"check_stop-nodata:{f.qual}", w, r1, lambda: stop(0, 10, 2.0, None, True, False))
    seen = set()
    for c in optimizer_classes(ctx):
        f = c.method("run")
        st, cs = c.method("step"), c.method("check_stop")
        if f is None or st is None or cs is None or (f.qual, st.qual, cs.qual) in seen:
            continue
        seen.add((f.qual, st.qual, cs.qual))

        def run():
            s = ctx.summ(c.name, "run", opaque_funcs=(st.qual, cs.qual))
            steps = [e for e in s.events if e.name and e.name.split(".")[-1] == "step" and e.kind in ("call", "mcall")]
            if not steps:
                return None, "run() makes no recognisable step call"
            for e in steps:
                tests = [x for p in e.pc for x in subterms(p) if x.op == "call" and x.a[0].endswith("check_stop")]
                if not tests:
                    if any(x.op in ("rec", "mu") for p in e.pc for x in subterms(p)):
                        return None, "the guard of step() is a loop-carried value"
                    return False, f"step() at {e.where} is not guarded by check_stop()"
                env = {x: TRUE for x in tests}
                p = subst(pcond(e), env)
                tv = truth(p)
                if tv is not False:
                    return (False if tv is True else None), f"step() at {e.where} can start although check_stop() is true"
            return True
        ctx.ob(f"run:{c.name}", ctx.where(f), "run() starts a step only when check_stop() was just false", run)


def internal(ctx):
    """the internal optimizers: the same counting rules"""
    from ..optmodel import cma_obligations, mies_obligations
    for oid, w, rule, fn in cma_obligations(ctx):
        if oid.split("/")[0] in ("grow", "stop", "run-spent"):
            ctx.ob("internal-cma:" + oid, w, rule, fn)
    for oid, w, rule, fn in mies_obligations(ctx):
        ctx.ob("internal-mies:" + oid, w, rule, fn)


def check(ctx):
    tell_counts(ctx)
    row_counts(ctx)
    stop_and_run(ctx)
    internal(ctx)
