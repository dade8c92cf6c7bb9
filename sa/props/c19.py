import ast

from ..askmodel import *  # noqa
from .c02 import get, situations, hist, ORDER
from .c18 import Adv

TECHNIQUE = "override-compatibility and call-binding analysis over the class hierarchy; value-flow sessions of ask, step and construction evaluated in a finite abstract domain"

RULE = ("Behavioural subtyping of the optimizer classes: every override of ask / tell / step / evaluate / run / recommend must accept what the base declares (names, positions, defaults); every call self.m(...) or super().m(...) "
        "that the public entry points of a class can reach must bind to the method that class resolves it to; a step must evaluate what ask returned and tell those points with their values; warm-start data must reach tell "
        "with warm_start set and only after everything tell reads exists; ask must return as many points as requested (or, when nothing can be proposed, raise AskEmptyError, never an empty list).")

CLASSES = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "NoisyBO": "UCB", "MOBO": "EHVI", "MultiAcquisitionBO": "MGFI"}
PUBLIC = ("ask", "tell", "step", "evaluate", "run", "recommend")
ENTRY = PUBLIC + ("__init__", "check_stop", "save")


def check(ctx):
    overrides(ctx)
    binding(ctx)
    step(ctx)
    counts(ctx)
    conditional(ctx)
    reduced(ctx)
    conversion(ctx)
    criterion_exists(ctx)
    warm(ctx)


def conditional(ctx):
    from .c22 import ask_runs
    w = ctx.where(ctx.method("ConditionalBO", "ask"))
    for tag, n, chosen, run in ask_runs(ctx):
        def go():
            X = run()[0]
            return len(X) == n, f"{len(X)} points for a request of {n}"
        ctx.ob("count:ConditionalBO/" + tag, w, "ask returns the requested number of points", go)


def reduced(ctx):
    """the dimension-reducing optimizer answers in the form and with the variables of the declared space"""
    from .c03 import GDom
    c = ctx.prog.cls("PCABO", False)
    if c is None:
        return
    f = c.method("ask")
    names = ["u", "v", "w"]
    sp = Space([Var("Real", n, (-5.0, 5.0)) for n in names])
    for et in ("list", "dict"):
        for n in (1, 3):
            def go():
                key = ("c19-pca", et, n)
                if key not in ctx._sum:
                    kw = {"search_space": mk("sym", "search_space"), "minimize": True, "n_job": 1, "max_FEs": 100, "model": mk("sym", "model"), "eval_type": et}
                    s = Session(ctx, "PCABO", kw, opaque=ASK_OPAQUE + ("LinearTransform",), opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg"))
                    s.set("_search_space", mk("sym", "reduced"))
                    s.I.opaque_funcs = {"BaseBO.ask", "BO.ask"} | set(s.I.opaque_funcs)
                    ctx._sum[key] = s, s.call("ask", n_point=n)
                s, r = ctx._sum[key]
                rows = [[0.1 * k, 0.2 * k] for k in range(1, n + 1)]
                d = GDom(ctx, s.I, {"search_space": sp, "reduced": Space([Var("Real", "p0", (-9.0, 9.0)), Var("Real", "p1", (-9.0, 9.0))]), "len(search_space)": 3})
                d.fns["BaseBO.ask"] = d.fns["BO.ask"] = lambda *a, **k: [list(x) for x in rows] if et == "list" else [dict(zip(("p0", "p1"), x)) for x in rows]

                def back(D, t, recv, a):
                    Z = D.ev(a[0])
                    if any(isinstance(z, dict) for z in Z):
                        raise Fails("dictionaries are handed to the linear transformation")
                    Z = np.asarray(Z, dtype=float)
                    if Z.shape != (n, 2):
                        raise Unknown("shape of the reduced points")
                    return np.c_[Z, Z.sum(1)]
                d.fns["mcall:inverse_transform"] = back
                want = [[x[0], x[1], x[0] + x[1]] for x in rows]
                try:
                    out = d.ev(r)
                except Fails as e:
                    return False, f"PCABO(eval_type={et!r}).ask({n}): {e}"
                if len(out) != n:
                    return False, f"{len(out)} points for a request of {n}"
                for x, y in zip(out, want):
                    if isinstance(x, dict) != (et == "dict"):
                        return False, f"PCABO(eval_type={et!r}).ask returns a point as {type(x).__name__}"
                    if isinstance(x, dict):
                        if list(x) != names:
                            return False, f"PCABO(eval_type='dict').ask returns a point of {list(x)} instead of the declared variables {names}"
                        x = list(x.values())
                    if not np.allclose(np.asarray(x, dtype=float), y):
                        return False, f"the proposal {y} is returned as {x}"
                return True
            ctx.ob(f"reduced:PCABO/{et}/{n}", ctx.where(f), "ask answers in the declared form (lists or dictionaries of the declared variables)", go)


def conversion(ctx):
    """the conversion of told points installed by the constructor accepts how each tell calls it"""
    from .c06 import with_conversion
    for c in optimizer_classes(ctx):
        f = c.method("tell")
        for et in ("list", "dict") if f is not None else ():
            def go():
                s = with_conversion(ctx, c, et)
                for e in s.events:
                    if e.kind == "badcall" and "lambda" in str(e.name) and s.I.decide(build("and", *e.pc) if e.pc else TRUE) is not False:
                        return False, f"{c.name}(eval_type={et!r}): at {e.where} the conversion of the told points is called with {e.args[0].a[0]}"
                return True, f"{len(s.events)} events"
            ctx.ob(f"convert:{c.name}/{et}", ctx.where(f), "told points are accepted in either form", go)


def criterion_exists(ctx):
    """an optimizer class that insists on one criterion names one that exists"""
    m = next((m for m in ctx.prog.modules.values() if m.name.endswith("acquisition_fun")), None)
    for c in optimizer_classes(ctx):
        f, g = c.method("__init__"), c.method("_create_acquisition")
        if f is None or g is None or m is None:
            continue

        def uses(g, k):
            """g (or what it defers to) looks the name up in the module of criteria"""
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and n.args and isinstance(n.args[0], ast.Name) and str(g.module.imports.get(n.args[0].id, "")).endswith("acquisition_fun"):
                    return True
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and n.attr == g.name:
                    kind, h, owner = c.find(g.name, after=k)
                    if kind == "method" and uses(h, owner):
                        return True
            return False
        owner = next(k for k in c.mro() if k.methods.get("_create_acquisition") is g)
        names = sorted({n.value.value for k in c.mro() for h in [k.methods.get("__init__")] if h is not None for n in ast.walk(h.node)
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)
                        and any(isinstance(t, ast.Attribute) and t.attr == "_acquisition_fun" for t in n.targets)})
        if not names:
            continue

        def go():
            if not uses(g, owner):
                return True, "creates its criterion itself"
            for nm in names:
                if nm not in m.classes and nm not in m.functions and nm not in m.globals and nm not in m.imports:
                    return False, f"{c.name} sets its acquisition function to {nm!r}, which {m.rel} does not define: the first proposal after the initial design raises AttributeError"
            return True
        ctx.ob(f"criterion:{c.name}", ctx.where(f), "the criterion a class insists on exists", go)


# ------------------------------------------------------------------ signatures
class Sig:
    def __init__(self, f):
        a = f.node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.ponly = {x.arg for x in a.posonlyargs}
        self.nodef = set(self.pos[: len(self.pos) - len(a.defaults)])
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.var, self.kw = a.vararg is not None, a.kwarg is not None
        if f.kind != "staticmethod" and self.pos:
            self.nodef.discard(self.pos[0])
            self.pos = self.pos[1:]

    def bind(self, npos, kws, star=False, dstar=False):
        """-> reason why a call cannot bind, or None"""
        if npos > len(self.pos) and not self.var:
            return f"takes at most {len(self.pos)} positional arguments, {npos} given"
        got = set(self.pos[:npos])
        for k in kws:
            if k in got:
                return f"multiple values for {k!r}"
            if k not in self.pos and k not in self.kwonly and not self.kw:
                return f"no parameter {k!r}"
            got.add(k)
        if not star and not dstar:
            miss = [p for p in self.pos if p in self.nodef and p not in got] + [p for p in self.kwreq if p not in got]
            if miss:
                return f"missing {', '.join(map(repr, miss))}"
        return None


def overrides(ctx):
    base = ctx.cls("BaseOptimizer")
    for c in optimizer_classes(ctx):
        for m in PUBLIC:
            bf, f = base.method(m), c.method(m)
            if bf is None or f is None:
                continue

            def go():
                b, s = Sig(bf), Sig(f)
                for i, p in enumerate(b.pos):
                    if p not in s.pos and p not in s.kwonly and not s.kw:
                        return False, f"{f.qual} does not accept the argument {p!r} of {bf.qual}"
                    if not s.var and (i >= len(s.pos) or s.pos[i] != p):
                        return False, f"{f.qual} takes {s.pos[i:i + 1] or 'nothing'} where {bf.qual} takes {p!r}"
                for p in s.pos:
                    if p in s.nodef and (p not in b.pos or p not in b.nodef):
                        return False, f"{f.qual} requires {p!r}, which callers of {bf.qual} need not give"
                extra = s.kwreq - set(b.kwonly)
                if extra:
                    return False, f"{f.qual} requires {sorted(extra)}"
                return True
            ctx.ob(f"override:{c.name}.{m}", ctx.where(f), "an override accepts every call the base interface accepts", go)


# ------------------------------------------------------------------ every reachable self-call binds
def super_method(c, owner, name):
    mro = c.mro()
    if owner not in mro:
        return None
    for k in mro[mro.index(owner) + 1:]:
        if name in k.methods:
            return k.methods[name]
    return None


def self_calls(c, f):
    """(call node, callee, text) of calls through self / super in one method"""
    me = f.node.args.args[0].arg if f.node.args.args and f.kind == "method" else None
    nested = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node and me and any(a.arg == me for a in n.args.args):
            nested |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) or id(n) in nested:
            continue
        v, a = n.func.value, n.func.attr
        if isinstance(v, ast.Name) and v.id == me:
            if a.startswith("__") and not a.endswith("__"):
                yield n, (f.cls.methods.get(a) if f.cls else None), f"self.{a}"
                continue
            kind, g, _ = c.find(a)
            yield n, (g if kind == "method" else None), f"self.{a}"
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and not v.args:
            yield n, super_method(c, f.cls, a), f"super().{a}"


def stores_of(c):
    out = set()
    for k in c.mro():
        for f in list(k.methods.values()) + list(k.setters.values()):
            me = f.node.args.args[0].arg if f.node.args.args else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
    return out


def binding(ctx):
    for c in optimizer_classes(ctx):
        todo = [c.method(m) for m in ENTRY if c.method(m) is not None]
        seen = set()
        inst = stores_of(c)
        while todo:
            f = todo.pop()
            if f.qual in seen:
                continue
            seen.add(f.qual)
            for n, g, text in self_calls(c, f):
                if g is None or text.startswith("self.") and text[5:] in inst:
                    continue
                if g.kind == "staticmethod" and g.name == "__init__":
                    continue
                todo.append(g)
                kws = [k.arg for k in n.keywords if k.arg is not None]
                star = any(isinstance(x, ast.Starred) for x in n.args)
                dstar = any(k.arg is None for k in n.keywords)
                npos = sum(not isinstance(x, ast.Starred) for x in n.args)

                def go():
                    why = Sig(g).bind(npos, kws, star, dstar)
                    if why is None:
                        return True
                    return False, f"{c.name}: the call {ast.unparse(n)[:80]} in {f.qual} (line {n.lineno}) reaches {g.qual}, which {why}"
                ctx.ob(f"bind:{c.name}/{f.qual}->{text}#{n.lineno - f.node.lineno}", f"{f.module.rel}:{n.lineno} {f.qual}", "a call made by the shared driver binds to the method each optimizer class resolves it to", go)
        ctx.analysed |= seen


# ------------------------------------------------------------------ a step
def step(ctx):
    for c in optimizer_classes(ctx):
        f = c.method("step")
        if f is None:
            continue

        def go():
            qs = tuple(c.method(m).qual for m in ("ask", "evaluate", "tell") if c.method(m) is not None)
            s = ctx.summ(c.name, "step", opaque_funcs=qs)
            by = {m: [e for e in s.events if e.kind in ("call", "mcall") and e.name in (c.method(m).qual, m)] for m in ("ask", "evaluate", "tell")}
            if not all(by.values()):
                return None, "step does not call ask, evaluate and tell in a recognised way"
            if any(len(v) > 1 for v in by.values()):
                return None, "several calls per step"
            d = Dom({}, {c.method("ask").qual: lambda *a, **k: ["p", "q", "r"], c.method("evaluate").qual: lambda *a, **k: [("value of", x) for x in (list(a[1:]) + list(k.values()))[0]]})
            for e in (by["ask"] + by["evaluate"] + by["tell"]):
                if e.loop or truth(pcond(e)) is not True:
                    return None, "conditional"
            e = by["evaluate"][0]
            X = d.ev(e.args[1] if len(e.args) > 1 else e.kw[c.method("evaluate").args()[1]])
            if list(X) != ["p", "q", "r"]:
                return False, f"{f.qual} evaluates {X} after asking for ['p', 'q', 'r']"
            e = by["tell"][0]
            names = c.method("tell").args()[1:]
            got = {n: v for n, v in zip(names, e.args[1:])}
            got.update(e.kw)
            X, y = d.ev(got[names[0]]), d.ev(got[names[1]])
            if list(X) != ["p", "q", "r"] or list(y) != [("value of", x) for x in X]:
                return False, f"{f.qual} tells points {X} with values {y}"
            ws = got.get("warm_start")
            if ws is not None and truthy(d.ev(ws)):
                return False, f"{f.qual} tells its points as warm-start data"
            return True
        ctx.ob(f"step:{c.name}", ctx.where(f), "a step evaluates the points it asked for and tells those points with their values", go)


# ------------------------------------------------------------------ how many points
def session(ctx, cname, acq, et):
    if cname == "MultiAcquisitionBO":
        return ask_session(ctx, cname, acq, et, n_point=mk("sym", "n_point"))
    return get(ctx, cname, acq, et, False, False)


def counts(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        batch = cname not in ("BO", "MOBO")
        for et in ("list", "dict"):
            for fixed in ({}, {"k": 7}):
                H, reduced = hist(fixed)
                full = [dict(zip(ORDER, r)) for r in H]
                worlds = []
                for n in (1, 2, 3, 5, 8):
                    worlds.append((f"design-{n}", n, False, {}, None, n))
                    if n <= 3:
                        worlds.append((f"design-hist-{n}", n, False, {}, H, n))
                    if batch or n == 1:
                        worlds.append((f"search-{n}", n, True, {}, H, n))
                        worlds.append((f"failed-{n}", n, True, {"search": [[]] * n}, H, n))
                        if n > 1:
                            worlds.append((f"half-{n}", n, True, {"search": [[]] + [None] * (n - 1)}, H, n))
                            worlds.append((f"jobs-{n}", n, True, {"n_job": 2}, H, n))
                        if cname != "NoisyBO":
                            worlds.append((f"recorded-{n}", n, True, {"search": [reduced[0]] * n}, H, n))
                            worlds.append((f"resampled-{n}", n, False, {"sample": [(full * n)[:n]]}, H, n))
                worlds.append(("design-default", None, False, {}, None, 4))
                for name, n, fitted, script, hh, want in worlds:
                    tag = f"{cname}/{et}/{name}/{'fixed' if fixed else 'free'}"

                    def go():
                        s, r = session(ctx, cname, acq, et)
                        sc = dict(script)
                        d = ask_dom(ctx, s, mixed(ORDER), n=n, fixed=dict(fixed) if fixed else None, history=hh, fitted=fitted, script=sc, n_job=sc.pop("n_job", 1), n_point=3)
                        d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
                        try:
                            out = d.ev(r)
                        except Raised as e:
                            return (False if isinstance(e, Fails) else None), f"{cname}.ask({n}) ({name}, {et}) raises: {e}"
                        got = len(out)
                        return got == want, f"{cname}.ask({n}) ({name}, {et}) returns {got} points, expected {want}"
                    ctx.ob("count:" + tag, w, "ask returns the requested number of points", go)
                for fitted in (False, True):
                    for n in (1, 3) if batch or not fitted else (1,):
                        def go():
                            s, r = session(ctx, cname, acq, et)
                            base = ask_dom(ctx, s, mixed(ORDER), n=n, fixed=dict(fixed) if fixed else None, history=H, fitted=fitted, script={"search": [[]] * 9} if fitted else {}, n_job=1, n_point=3)
                            d = Adv(ctx, s.I, base.val, base.script)
                            d.script["always"] = lambda n, k: []
                            d.fns["mcall:predict"] = lambda D, t, rc, a: np.array([0.1, 0.2])
                            try:
                                out = d.ev(r)
                            except Raised:
                                return True
                            rs = [e for e in s.I.events if e.kind == "raise" and "AskEmptyError" in str(e.name) + show(e.args[0] if e.args else NONE, 4)]
                            for e in rs:
                                for tv in instances(d, e):
                                    if tv:
                                        return True
                                    if tv is None:
                                        return None, "whether the error is raised"
                            return (False, f"{cname}.ask({n}) returns an empty list instead of raising AskEmptyError when nothing can be proposed") if len(out) == 0 else (False, f"{cname}.ask({n}) returns {len(out)} points although nothing could be proposed")
                        ctx.ob(f"empty:{cname}/{et}/{'search' if fitted else 'design'}/{n}/{'fixed' if fixed else 'free'}", w, "ask raises AskEmptyError when no point can be proposed", go)


# ------------------------------------------------------------------ warm starts
def reads_of(c, f):
    """attributes of self that a method and what it calls on self read for certain (outside conditions and after no own store), syntactically over-approximated by `unguarded`"""
    seen, out, stored, guarded = set(), {}, set(), set()
    todo = [f]
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        me = g.node.args.args[0].arg if g.node.args.args and g.kind == "method" else None
        lams = {id(x) for n in ast.walk(g.node) if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not g.node for x in ast.walk(n)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                guarded.add(n.args[1].value)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and id(n) not in lams:
                a = n.attr
                if a.startswith("__") and not a.endswith("__") and g.cls:
                    a = f"_{g.cls.name.lstrip('_')}{a}"
                if isinstance(n.ctx, ast.Load):
                    out.setdefault(a, (g, n))
                    kind, h, _ = c.find(n.attr)
                    if kind in ("method", "property") and h is not None:
                        todo.append(h)
                else:
                    stored.add(a)
        for n, h, _ in self_calls(c, g):
            if h is not None:
                todo.append(h)
    return {a: v for a, v in out.items() if a not in guarded and a not in stored}


def warm(ctx):
    for c in optimizer_classes(ctx):
        f, ft = c.method("__init__"), c.method("tell")
        if f is None or ft is None:
            continue

        def events():
            key = ("warm", c.name)
            if key not in ctx._sum:
                kw = {"search_space": mk("sym", "search_space"), "model": mk("sym", "model"), "minimize": True, "n_job": 1, "max_FEs": 100, "eval_type": "list", "DoE_size": 3, "obj_fun": NONE,
                      "warm_data": mk("tuple", mk("sym", "WX"), mk("sym", "wy"))}
                if c.issub(ctx.cls("BaseMOBO")):
                    kw["n_obj"] = 2
                elif c.issub(ctx.cls("ParallelBO")):
                    kw.update(acquisition_fun="MGFI", n_point=3)
                if c.name == "ConditionalBO":
                    kw.pop("model")
                s = Session(ctx, c.name, kw, opaque=ASK_OPAQUE + ("LinearTransform",), opaque_funcs=("argmax_restart", "get_logger", "func_with_list_arg", ft.qual, "BO.tell", "BaseBO.tell"), init=False)
                snaps = []
                I = s.I

                def watch(e):
                    if e.kind in ("call", "mcall", "enter") and e.name and str(e.name).split(".")[-1] == "tell":
                        snaps.append((e, {k[1]: v for k, v in I.st.heap.items() if isinstance(k, tuple) and k[0] is s.obj} if I.st is not None else {}))
                I.watch = watch
                try:
                    s.call("__init__", **kw)
                    err = None
                except (Unknown, Raised, Gone) as ex:
                    err = ex
                ctx._sum[key] = (s, snaps, err)
            s, snaps, err = ctx._sum[key]
            if err is not None and not snaps:
                raise err
            return s, snaps

        def told():
            s, snaps = events()
            mine = [(e, h) for e, h in snaps if e.name == ft.qual and e.args and e.args[0] is s.obj]
            if not mine:
                if f.node.args.kwarg is None and "warm_data" not in f.args():
                    return None, "no warm_data argument"
                return False, f"{c.name}(warm_data=...) never tells the warm-start data"
            for e, _ in mine:
                names = ft.args()[1:]
                got = dict(zip(names, e.args[1:]))
                got.update(e.kw)
                ws = got.get("warm_start")
                if ws is None or truth(ws) is False:
                    return False, f"{c.name}: warm-start data are told at {e.where} without warm_start=True"
                if truth(ws) is not True:
                    return None, "warm_start is not constant"
                X, y = got.get(names[0]), got.get(names[1])
                y, X = s.I.deep(y), s.I.deep(X)
                if not any(x.op == "sym" and x.a[0] == "wy" for x in subterms(y)):
                    return False, f"{c.name}: the values told at {e.where} are not those of the warm-start data"
                if not any(x.op == "sym" and x.a[0] == "WX" for x in subterms(X)):
                    return False, f"{c.name}: the points told at {e.where} are not those of the warm-start data"
            return True
        ctx.ob(f"warm:{c.name}", ctx.where(f), "warm-start data given to the constructor are told, with their values, as a warm start", told)

        def admitted(rows, et):
            s, snaps = events()
            sp = mixed(("r1", "k", "c", "r2", "o", "b")) if len(rows[0]) == 6 else reals(3)
            d = ask_dom(ctx, s, sp, WX=[list(r) for r in rows], wy=[1.0, 2.0][: len(rows)])
            for e in s.I.events:
                if e.kind == "assert" and e.func is not None and e.func.name in ("warm_data", "__init__"):
                    for tv in instances(d, e):
                        if tv is None:
                            return None, f"whether the assertion at {e.where} is reached"
                        if tv and not truthy(d.ev(e.args[0])):
                            return False, f"{c.name}: the assertion at {e.where} refuses the valid warm-start points {rows}"
            return True
        for tag, rows in (("real", [(0.5, 1.5, 2.5), (0.0, 5.0, 1.0)]),) if c.name == "PCABO" else () if c.name == "ConditionalBO" else (("mixed", [(1.5, 3, "u", 2.5, 20, True), (0.5, 0, "w", 0.25, 10, False)]), ("single", [(1.5, 3, "v", 2.5, 30, False)])):
            ctx.ob(f"warm-admitted:{c.name}/{tag}", ctx.where(f), "warm-start points of the declared domain are accepted", lambda: admitted(rows, "list"))

        def ready():
            s, snaps = events()
            mine = [(e, h) for e, h in snaps if e.name == ft.qual and e.args and e.args[0] is s.obj]
            if not mine:
                return None, "no tell"
            e, have = mine[0]
            made = stores_of(c) | {f"_{k.name.lstrip('_')}{a}" for k in c.mro() for a in stores_of(k) if a.startswith("__")}
            props = {a for k in c.mro() for a in list(k.methods) + list(k.getters) + list(k.attrs)}
            bad = []
            for a, (g, n) in reads_of(c, ft).items():
                if a in props or a in have or a.lstrip("_") in have and a in props:
                    continue
                raw = a
                for k in c.mro():
                    p = f"_{k.name.lstrip('_')}__"
                    if a.startswith(p):
                        raw = "__" + a[len(p):]
                if raw in have or a not in made and raw not in made:
                    continue
                bad.append(f"{raw} (read at {g.module.rel}:{n.lineno} in {g.qual})")
            late = []
            for a, (g, n) in reads_of(c, ft).items():
                raw = a if a in have else next(("__" + a[len(p):] for p in (f"_{k.name.lstrip('_')}__" for k in c.mro()) if a.startswith(p)), a)
                if raw in have and s.I.st is not None:
                    end = s.I.st.heap.get((s.obj, raw))
                    if end is not None and end is not have[raw] and s.I.deep(end) is not s.I.deep(have[raw]):
                        late.append(f"{raw} (read at {g.module.rel}:{n.lineno} in {g.qual})")
            if late:
                return False, f"{c.name}(warm_data=...) tells at {e.where} while {', '.join(sorted(late))} still has a provisional value that the constructor replaces afterwards"
            if bad:
                return False, f"{c.name}(warm_data=...) tells at {e.where} before the constructor has set {', '.join(sorted(bad))}"
            return True
        ctx.ob(f"warm-ready:{c.name}", ctx.where(f), "warm-start data are told only after everything tell uses exists", ready)
