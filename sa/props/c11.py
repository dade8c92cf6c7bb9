"""Randomness is governed by the user's seed alone."""
import ast

from ..session import *  # noqa
from ..taint import Flow
from ..loader import Cls, Func

TECHNIQUE = "provenance analysis of every re-seeding site over value-flow summaries, and label-flow analysis (unordered collections, clock, process identity, private generators) to branches, draws, state and results"
RULE = ("Provenance: every value that reaches a seeding call, a seed parameter of a constructor or the seed property must be the enclosing function's own seed parameter and be absent when that is None; constructors "
        "given a seed (0 included) seed the generator with it before anything is drawn, and do not touch it otherwise. Label flow: no value that depends on the iteration order of a set, the clock, the process or "
        "a generator outside the seed reaches a branch, a draw, state or a result.")

SEEDERS = {"numpy.random.seed", "random.seed", "torch.manual_seed", "numpy.random.set_state", "numpy.random.mtrand.seed"}
PARAMS = ("seed", "random_seed", "random_state")
SKIP = ("_daemon", "cma_es.", "hypervolume")
CORE_SKIP_METHODS = ("__repr__", "__str__", "__hash__", "__del__")


def takes_seed(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg in PARAMS]


def check(ctx):
    sites(ctx)
    defaults(ctx)
    constructors(ctx)
    flow(ctx)


# ------------------------------------------------------------------ provenance of seeds
def seed_users(ctx):
    """functions with a seeding site: (Func, Cls or None)"""
    prog = ctx.prog
    seedcls = {c.name for c in prog.all_classes() if c.method("__init__") is not None and takes_seed(c.method("__init__"))}
    seedfun = {f.name for f in prog.all_funcs() if takes_seed(f) and f.name != "__init__"}
    out = []
    for m in prog.modules.values():
        if any(k in m.name for k in SKIP):
            continue
        fs = [(f, None) for f in m.functions.values()] + [(f, c) for c in m.classes.values() for d in (c.methods, c.getters, c.setters) for f in d.values()]
        for f, c in fs:
            hit = False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    r = prog.resolve_expr(m, x.func)
                    hit |= isinstance(r, str) and (r in SEEDERS or r.split(".")[-1] in ("seed", "manual_seed", "set_state"))
                    hit |= isinstance(r, Cls) and r.name in seedcls or isinstance(r, Func) and r.name in seedfun
                    hit |= isinstance(x.func, ast.Name) and x.func.id in ("setattr",) and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value in PARAMS
                    hit |= any(k.arg in PARAMS for k in x.keywords)
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        hit |= any(isinstance(y, ast.Attribute) and y.attr in ("random_seed", "seed") for y in ast.walk(t))
            if hit:
                out.append((f, c))
    return out, seedcls


class PDom(Dom):
    def o_attr(self, t, o, name):
        if name in ("random_seed", "_random_seed"):
            return 1234567
        return super().o_attr(t, o, name)


def sites(ctx):
    users, seedcls = seed_users(ctx)
    n = [0]
    for f, c in users:
        w = ctx.where(f)
        what = (c.name + "." if c else "") + f.name

        def go():
            others = [k.name for k in ctx.prog.all_classes()]
            mine = {k.name for k in c.mro()} if c else set()
            s = ctx.run(f, c, opaque=[k for k in others if k not in mine], opaque_funcs=[g.qual for g in ctx.prog.all_funcs() if g.node is not f.node and g.name not in ("random_seed", "seed")], budget=200000)
            own = [p for p in takes_seed(f)] + ([x for x in f.args()[1:]] if c is not None and f in c.setters.values() else [])
            kinds = 0
            for e in s.events:
                vals = seeded(e, seedcls, ctx)
                for v in vals:
                    kinds += 1
                    r = judge(ctx, s, e, v, own)
                    if r is not None:
                        return False, r
            return True, f"{kinds} seeding sites"
        ctx.ob(f"site:{what}", w, "what is passed on as a seed is the caller's own seed, and nothing is when there is none", go)


def seeded(e, seedcls, ctx):
    """terms used as a seed by an event"""
    if e.kind in ("call", "mcall") and e.name in SEEDERS:
        return [e.args[0] if e.args else (list(e.kw.values()) or [None])[0]]
    if e.kind == "new" and e.name in seedcls:
        init = ctx.prog.cls(e.name).method("__init__")
        b = dict(zip(init.args()[1:], e.args))
        b.update(e.kw)
        return [b[p] for p in PARAMS if p in b]
    if e.kind in ("call", "mcall"):
        return [e.kw[p] for p in PARAMS if p in e.kw]
    if e.kind == "mut" and e.name == "setattr" and len(e.args) > 1 and any(getattr(x, "op", "") == "pattr" and x.a[0] == "random_seed" for x in e.args):
        return [e.kw.get("value")]
    return []


def leaves(t, enter=True):
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ("sym", "ref"):
            out.add(str(x.a[0]))
        if enter or x.op not in ("call", "mcall", "acall", "ucall", "obj", "attr") or "int" in x.a[:1]:
            st += [y for y in x.a if isinstance(y, T)]
    return out


def judge(ctx, s, e, v, own):
    where = e.where
    if v is None:
        return f"{where}: the generator is re-seeded from entropy"
    v = v if isinstance(v, T) else None
    if v is None:
        raise Unknown("seed")
    if v.op == "const" and v.a[0] is None and e.name not in SEEDERS:
        return None
    if v.op == "const":
        return f"{where}: the generator is re-seeded with {v.a[0]!r}, whatever the user asked for"
    ls = leaves(v)
    if any("random_seed" in l and l.startswith(("self.", "space.", "other.")) or "." in l and l.split(".")[-1] in ("random_seed", "_random_seed") for l in ls):
        return f"{where}: the generator is re-seeded with the stored seed of an existing object ({', '.join(sorted(ls))})"
    params = [p for p in own if p in ls]
    if not params:
        if not ls and v.op == "attr" and v.a[-1] in ("random_seed", "_random_seed"):
            return f"{where}: the generator is re-seeded with the stored seed of an existing object"
        if not ls:
            raise Unknown("seed " + show(v, 3)[:80])
        if all(l in s.I.argcells for l in ls) or any(l in ("kwargs", "kwargv") for l in ls):
            raise Unknown("seed from " + ", ".join(sorted(ls)))
        return f"{where}: the generator is re-seeded with a value that is not the caller's seed ({', '.join(sorted(ls))})"
    p = params[0]
    pc = pcond(e)
    none = PDom({p: None})
    tv = none.tri(pc)
    if tv is not False:
        try:
            x = none.ev(v)
            if x is not None and e.name not in SEEDERS or e.name in SEEDERS and tv is True:
                return f"{where}: without a seed, the generator is re-seeded with {x!r}"
            if e.name in SEEDERS:
                raise Unknown("condition of the seeding call")
        except Raised:
            return f"{where}: fails without a seed"
    for k in (7, 0):
        d = PDom({p: k})
        if d.tri(pc) is False:
            return f"{where}: a seed of {k} is ignored" if len(own) == 1 and e.name in SEEDERS else None
        x = d.ev(v)
        if x != k:
            return f"{where}: the seed {k} becomes {x!r}"
    return None


def defaults(ctx):
    _, seedcls = seed_users(ctx)
    for m in ctx.prog.modules.values():
        for f in m.functions.values():
            ps = [p for p in takes_seed(f) if p != "random_state"]
            if not ps or any(k in m.name for k in SKIP):
                continue

            def reach():
                s = ctx.run(f, opaque=[k.name for k in ctx.prog.all_classes()], opaque_funcs=[g.qual for g in ctx.prog.all_funcs() if g.node is not f.node], budget=200000)
                for e in s.events:
                    if e.kind == "new" and e.name in seedcls and "random_seed" not in takes_seed(ctx.prog.cls(e.name).method("__init__")) and "seed" not in takes_seed(ctx.prog.cls(e.name).method("__init__")):
                        continue
                    if any(isinstance(v, T) and ps[0] in leaves(v) for v in seeded(e, seedcls, ctx)):
                        return True
                unclear = False
                for e in s.events:
                    if any(p in e.kw and isinstance(e.kw[p], T) and ps[0] in leaves(e.kw[p]) for p in ("random_seed", "seed")):
                        return True
                    if e.kind in ("new", "call", "acall", "mcall"):
                        unclear = unclear or next((f"{e.kind} {e.name}" for v in list(e.args)[e.kind == "new":] + [x for k, x in e.kw.items() if k != "random_state"] if isinstance(v, T) and ps[0] in leaves(v, enter=False)), None)
                if unclear:
                    raise Unknown(f"{ps[0]} is passed to a call that is not modelled ({unclear})")
                return False, f"the {ps[0]} given to {f.name} never seeds the generator"
            ctx.ob(f"reaches:{f.qual}", ctx.where(f), "a seed given to a function governs what it draws", reach)
    for f in ctx.prog.all_funcs():
        if any(k in f.module.name for k in SKIP):
            continue
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x.arg in PARAMS:
                def go(d=d):
                    if isinstance(d, ast.Constant):
                        return d.value is None, f"without a seed, {x.arg} is {ast.unparse(d)}"
                    raise Unknown("default " + ast.unparse(d))
                ctx.ob(f"default:{f.qual}:{x.arg}", ctx.where(f), "no seed is assumed when none is given", go)


# ------------------------------------------------------------------ constructors
def constructors(ctx):
    opts = optimizer_classes(ctx)
    cases = [(c.name, {"search_space": mk("sym", "space"), "obj_fun": mk("sym", "f"), "model": mk("sym", "model"), "max_FEs": 100, "n_job": 1, "DoE_size": 3, "n_point": 2}) for c in opts if c.name in ("BO", "ParallelBO", "NoisyBO", "PCABO", "SelfAdaptiveBO", "MOBO", "MultiAcquisitionBO")]
    cases += [(n, {"search_space": mk("sym", "space"), "obj_fun": mk("sym", "f"), "x0": None}) for n in ("OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA")]
    cases += [("SearchSpace", {"data": mk("list")})]
    for cname, kw in cases:
        c = ctx.prog.cls(cname, False)
        if c is None or c.method("__init__") is None:
            continue
        w = ctx.where(c.method("__init__"))

        def build(seed):
            key = ("c11", cname, seed)
            if key not in ctx._sum:
                space = cname == "SearchSpace"
                s = Session(ctx, cname, {**kw, "random_seed": seed}, opaque=("Solution", "GaussianProcess", "RandomForest", "Node") + (() if space else ("SearchSpace",)),
                            opaque_funcs=("get_logger", "func_with_list_arg", "partial_argument", "argmax_restart"))
                ctx._sum[key] = s
            return ctx._sum[key]

        def seeds(s):
            return [e for e in s.I.events if e.kind in ("call", "mcall") and e.name in SEEDERS]

        def drawn(s):
            return [e for e in s.I.events if e.kind in ("call", "mcall") and e.name and (e.name.startswith("numpy.random.") and e.name not in SEEDERS or e.name in ("sample", "_sample") or e.name.endswith(".lhs"))]

        def without():
            s = build(None)
            for e in seeds(s):
                if Dom({}).tri(pcond(e)) is not False:
                    return False, f"{e.where}: the generator is re-seeded although no seed is given"
            return True, f"{len(s.I.events)} events"
        ctx.ob(f"constructor:without/{cname}", w, "constructing an object without a seed leaves the generator alone", without)
        for k in (0, 7):
            def given():
                s = build(k)
                es = seeds(s)
                d = Dom({"space": Obj("space")})
                live_ = [e for e in es if d.tri(pcond(e)) is not False]
                if not live_:
                    return False, f"a seed of {k} is given and the generator is not seeded"
                for e in live_:
                    v = d.ev(e.args[0]) if e.args else None
                    if v != k:
                        return False, f"{e.where}: the generator is seeded with {v!r} instead of {k}"
                first = min(e.seq for e in live_)
                for e in drawn(s):
                    if e.seq < first and d.tri(pcond(e)) is not False:
                        return False, f"{e.where}: something is drawn before the generator is seeded"
                if len(live_) and any(e.seq > first and any(x.seq < e.seq for x in drawn(s)) for e in live_):
                    return False, "the generator is re-seeded after something has been drawn"
                return True
            ctx.ob(f"constructor:seed{k}/{cname}", w, "a given seed, 0 included, seeds the generator before anything is drawn", given)


# ------------------------------------------------------------------ label flow
def flow(ctx):
    F = Flow(ctx.prog, SKIP)
    by = {}
    for f, c, node, kind, l in F.sinks:
        by.setdefault(f.node, []).append((f, c, node, kind, l))
    for f, c in F.funcs:
        def go():
            for _, _, node, kind, l in by.get(f.node, []):
                if kind == "return":
                    if f.name in CORE_SKIP_METHODS or f.name.startswith("_") and not f.name.startswith("__"):
                        continue
                    if c is None and ".utils" in f.module.name:
                        continue  # followed into the callers
                return False, f"{f.module.rel}:{getattr(node, 'lineno', '?')} {f.qual}: {dict(branch='a decision', draw='a random draw', attribute='state', generator='a draw')[kind] if kind != 'return' else 'the result'} depends on {l[1]}"
            return True
        ctx.analysed.add((f.module.rel, f.qual))
        ctx.ob(f"flow:{f.module.rel.split('/', 1)[-1]}:{f.qual}:{f.node.lineno if f.kind == 'x' else ('set' if c is not None and f in c.setters.values() else '')}", ctx.where(f), "no decision, draw, state or result depends on set order, clock, process or a foreign generator", go)
