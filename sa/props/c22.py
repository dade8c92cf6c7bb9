import ast as _ast
import itertools

from ..loader import THOROUGH
from ..dom import fv
from ..spacemodel import *  # noqa

TECHNIQUE = "structural analysis of condition-tree and sub-space summaries on token trees; position-by-position value flow of conditional ask/tell"
RULE = ("Structure analysis of conditional optimisation: the summaries of Node.remove / deepcopy / get_all_name / get_all_path / to_dict and of the decomposition into unconditional "
        "sub-spaces are evaluated on token trees against reference tree functions; ConditionalBO.ask / tell / the construction of the sub-space optimizers are evaluated on "
        "token points and compared, position by position, with the sub-space each point came from.")


class NodeTok(Obj):
    def __init__(self, name, data=None, children=None, branches=None, is_root=True):
        super().__init__(name, name=name, data=data, children=list(children or []), branches=list(branches or []), is_root=is_root)
        for c in self.children:
            c.__dict__["is_root"] = False

    def sig(self):
        return (self.name, self.data, self.is_root, tuple((b, c.sig() if isinstance(c, NodeTok) else c) for b, c in zip(self.branches, self.children)), len(self.branches) == len(self.children))

    def nodes(self):
        return [self] + [y for c in self.children if isinstance(c, NodeTok) for y in c.nodes()]

    def __repr__(self):
        return self.name + ("" if not self.children else "(" + ", ".join(f"{b!r}: {c!r}" for b, c in itertools.zip_longest(self.branches, self.children)) + ")")


def t_remove(n, names, invert=False, root=True):
    if (n.name in names) != invert:
        return None
    keep = [(b, t_remove(c, names, invert, False)) for b, c in zip(n.branches, n.children)]
    keep = [(b, c) for b, c in keep if c is not None]
    return NodeTok(n.name, n.data, [c for _, c in keep], [b for b, _ in keep], root)


def t_names(n):
    return [n.name] + [x for c in n.children for x in t_names(c)]


def t_dict(n):
    out = {}
    for b, c in zip(n.branches, n.children):
        out.setdefault(n.name, []).append({"name": c.name, "condition": b})
        out.update(t_dict(c))
    return out


def t_paths(n):
    """chain of conditions -> leaves reached"""
    if not n.children:
        return {(): [n.name]}
    out = {}
    for b in dict.fromkeys(n.branches):
        for bb, c in zip(n.branches, n.children):
            if bb == b:
                for p, v in t_paths(c).items():
                    out.setdefault((b,) + p, []).extend(v)
    return out


def _trees():
    N = NodeTok

    def leafs(*a, pre=""):
        return dict(children=[N(x) for x, _ in a], branches=[b for _, b in a])
    return {
        "leaf": lambda: N("p", data=[1]),
        "flat": lambda: N("p", [1], **leafs(("a", "p == 0"), ("b", "p == 1"), ("c", "p == 1"))),
        "same": lambda: N("p", None, **leafs(("a", "p == 'x'"), ("b", "p == 'x'"))),
        "interleaved": lambda: N("p", None, **leafs(("a", "p == 0"), ("b", "p == 1"), ("c", "p == 0"))),
        "deep": lambda: N("p", [1], [N("q", [2], **leafs(("a", "q == 0"), ("b", "q == 1"))), N("r", [3], **leafs(("c", "r == 'u'"), ("d", "r == 'v'"), ("e", "r == 'u'")))], ["p == 0", "p == 1"]),
        "three": lambda: N("p", [1], [N("q", [2], [N("r", [3], **leafs(("a", "r == 0"), ("b", "r == 1")))], ["q == 5"]), N("c")], ["p == 0", "p == 1"]),
        "samecond": lambda: N("p", None, [N("q", None, **leafs(("a", "q == 0"))), N("r", None, **leafs(("b", "r == 0"), ("c", "r == 1")))], ["p == 0", "p == 0"]),
    }


TREES = _trees()


class NodeDom(SpaceDom):
    def o_call(self, t, name, *a):
        short = name.split(".")[-1]
        if name == "@node":
            pos, _ = self.args(a)
            return self.mknode(*pos)
        if name.split(".")[-2:-1] == ["Node"]:
            pos, kw = self.args(a)
            if pos and isinstance(pos[0], NodeTok):
                return self.tokmethod(pos[0], short, pos[1:], kw)
        return super().o_call(t, name, *a)

    def mknode(self, name, data, children, branches, is_root):
        n = NodeTok(name, data)
        n.__dict__.update(children=list(children), branches=list(branches), is_root=is_root)
        return n

    def tokmethod(self, v, name, pos, kw):
        if not isinstance(v, NodeTok):
            return super().tokmethod(v, name, pos, kw)
        return run_node(self, v, name, pos, kw)

    def setp(self, v, path, x):
        if path and path[0].op == "pattr" and isinstance(v, NodeTok):
            v.__dict__[path[0].a[0]] = self.setp(v.__dict__[path[0].a[0]] if len(path) > 1 else None, path[1:], x)
            return v
        return super().setp(v, path, x)

    def c_copy_copy(self, x, *a):
        if isinstance(x, NodeTok):
            n = NodeTok(x.name, x.data)
            n.__dict__.update(x.__dict__)
            return n
        return super().c_copy_copy(x)

    def c_copy_deepcopy(self, x, *a):
        return t_remove(x, []) if isinstance(x, NodeTok) else super().c_copy_deepcopy(x)

    def isinst(self, v, k):
        if isinstance(v, NodeTok):
            return k.op in ("cls", "mod") and str(k.a[0]).split(".")[-1] == "Node"
        return super().isinst(v, k)


def expand(s, t, memo=None):
    """objects created by the function become explicit constructor terms over their final attributes"""
    memo = {} if memo is None else memo

    def f(x):
        if x.op == "obj" and x is not s.obj:
            if x in memo:
                return memo[x]
            memo[x] = x
            h = s.I.st.heap
            if x.a[1] == "Node":
                at = []
                for k in ("name", "data", "children", "branches", "is_root"):
                    v = h.get((x, k))
                    if v is None:
                        raise Unknown("attribute " + k)
                    at.append(expand(s, s.I.deep(v), memo))
                memo[x] = mk("call", "@node", *at)
            return memo[x]
        return None
    return rewrite(t, f)


def run_node(d, v, name, pos, kw):
    ctx = d.ctx
    f = ctx.method("Node", name)
    key = ("node", name)
    if key not in ctx._sum:
        s = ctx.run(f, ctx.cls("Node"), opaque=())
        ctx._sum[key] = (s, expand(s, s.ret))
    s, ret = ctx._sum[key]
    if d.depth > 12:
        raise Unknown("depth")
    val = {"self." + k: x for k, x in v.__dict__.items() if k != "_name"}
    val["self"] = v
    args = f.args()[1:]
    dflt = f.node.args.defaults
    for n, x in zip(args[len(args) - len(dflt):], dflt):
        if isinstance(x, _ast.Constant):
            val[n] = x.value
    val.update(zip(args, pos))
    val.update(kw)
    e = type(d)(ctx, val)
    e.fns, e.depth = d.fns, d.depth + 1
    return e.ev(ret)


def trees(ctx):
    f0 = ctx.cls("Node")
    w = f"{f0.module.rel}:{f0.node.lineno} Node"
    d = NodeDom(ctx)

    def call(v, m, *a):
        return run_node(NodeDom(ctx), v, m, a, {})
    for tn, mk_ in TREES.items():
        t = mk_()
        names = t_names(t)
        subs = [[], ["zz"]] + [[x] for x in names] + [names[1:], names[:2], names[:1] + names[-1:]] + ([list(x) for k in (2, 3) for x in itertools.combinations(names, k)] if THOROUGH else [[x, y] for x, y in itertools.combinations(names, 2)][:6])
        for inv in (False, True):
            def rem():
                for S in subs + [names, names[:-1]]:
                    o = mk_()
                    got, want = call(o, "remove", list(S), inv), t_remove(o, S, inv)
                    if (got is None) != (want is None) or got is not None and (not isinstance(got, NodeTok) or got.sig() != want.sig()):
                        return False, f"remove({S}, invert={inv}) of {o!r} is {got!r}, expected {want!r}"
                    if got is not None and {id(x) for x in got.nodes()} & {id(x) for x in o.nodes()}:
                        return False, f"remove({S}) shares nodes with the original tree"
                    if o.sig() != mk_().sig():
                        return False, f"remove({S}, invert={inv}) changes the original tree to {o!r}"
                return True
            ctx.ob(f"remove:{tn}/invert={inv}", w, "pruning keeps exactly the requested nodes and their own branch conditions in a new tree", rem)

        def dc():
            o = mk_()
            got = call(o, "deepcopy")
            if not isinstance(got, NodeTok):
                raise Unknown("result")
            if got.sig() != o.sig():
                return False, f"deepcopy of {o!r} is {got!r}"
            if {id(x) for x in got.nodes()} & {id(x) for x in o.nodes()}:
                return False, "the copied tree shares nodes"
            return True
        ctx.ob(f"deepcopy:{tn}", w, "copying keeps every node and branch condition", dc)

        def nm():
            got = call(mk_(), "get_all_name")
            return list(got) == names, f"names {got}, expected {names}"
        ctx.ob(f"names:{tn}", w, "all node names are listed in pre-order", nm)

        def td():
            got, want = call(mk_(), "to_dict"), t_dict(mk_())
            return got == want, f"to_dict {got}, expected {want}"
        ctx.ob(f"to_dict:{tn}", w, "the description lists every child with its own condition", td)
        if tn != "leaf":
            def pa():
                got, want = call(mk_(), "get_all_path"), t_paths(mk_())
                return got == want and all(sorted(got[k]) == sorted(want[k]) for k in want), f"paths of {mk_()!r}: {got}, expected {want}"
            ctx.ob(f"paths:{tn}", w, "every chain of conditions to leaves maps to exactly the leaves it activates", pa)

    def ac():
        for kids in ([], ["a"]):
            s = ctx.run(ctx.method("Node", "add_child"), ctx.cls("Node"), opaque=())
            base = NodeTok("p", None, [NodeTok(k) for k in kids], [f"c{k}" for k in kids])
            val = {"self." + k: x for k, x in base.__dict__.items() if k != "_name"}
            new = NodeTok("n")
            val.update({"node": new, "branch": "p == 1"})
            e = NodeDom(ctx, val)
            ch, br = e.ev(s.get("children")), e.ev(s.get("branches"))
            if [c.name for c in ch] != kids + ["n"] or br != [f"c{k}" for k in kids] + ["p == 1"]:
                return False, f"adding a child gives children {ch} branches {br}"
            if ch[-1].is_root:
                return False, "an added child still claims to be a root"
        return True
    ctx.ob("add_child", w, "an added child comes last together with its own branch condition", ac)


def condval(c):
    n = _ast.parse(c).body[0].value
    return n.left.id, n.comparators[0].value


def subspaces(ctx):
    c = ctx.cls("SearchSpace")
    f = ctx.method("SearchSpace", "get_unconditional_subspace")
    w = ctx.where(f)
    s = {}

    def run():
        if "s" not in s:
            s["s"] = ctx.run(f, c, opaque=("Node",))
        return s["s"]
    extra = ["i0", "i1"]
    cases = {k: [k] for k in TREES if k != "leaf"}
    cases.update({"two": ["flat", "other"], "twodeep": ["deep", "other"], "one-option": ["same", "other"], "none": []})
    N = NodeTok
    mkt = dict(TREES, other=lambda: N("z", None, [N("y0"), N("y1")], ["z == 'on'", "z == 'off'"]))
    for k, roots in cases.items():
        def go():
            rs = [mkt[r]() for r in roots]
            vs = {}
            for n in [extra[0]] + [x for r in rs for x in t_names(r)] + [extra[1]]:
                vs[n] = Var("Real", n, (len(vs), len(vs) + 1))
            sp = Space(list(vs.values()), structure=rs)
            d = NodeDom(ctx, {**state_val(sp), "self": sp, "self.structure": rs})

            def newspace(data, *a, **kw):
                return ("space", [v.name for v in data], list(data))
            d.fns["SearchSpace"] = newspace
            d.fns["bayes_optim.search_space.search_space.SearchSpace"] = newspace

            def getvar(D, t, recv, a):
                if recv.op == "mcall" and recv.a[0] == "parse":
                    return [condval(D.ev(recv.a[2]))[0]]
                return NotImplemented
            d.fns["mcall:variables"] = getvar
            d.fns["ast.parse"] = lambda x, *a: Obj("ast", body=[Obj("stmt", value=Obj("cmp", left=Obj("l", id=condval(x)[0]), comparators=[Obj("c", n=condval(x)[1], s=condval(x)[1], value=condval(x)[1])]))])
            got = d.ev(expand_spaces(run()))
            if not roots:
                ok = len(got) == 1 and got[0][0] == {}
                return ok, f"a space without conditions decomposes into {len(got)} sub-spaces conditioned on {[x[0] for x in got]}"
            want = []
            cond_vars = {x for r in rs for x in t_names(r)}
            iso = [n for n in vs if n not in cond_vars]
            for combo in itertools.product(*[list(t_paths(r).items()) for r in rs]):
                key = {}
                for conds, _ in combo:
                    for cc in conds:
                        a, b = condval(cc)
                        key[a] = b
                want.append((key, sorted(iso + [v for _, l in combo for v in l])))
            res = []
            for key, spc in got:
                if not (isinstance(spc, tuple) and spc[0] == "space"):
                    raise Unknown("sub-space value")
                if any(v.sig() != vs[v.name].sig() for v in spc[2]):
                    return False, "a sub-space holds a variable with another range than the declared one"
                res.append((key, sorted(spc[1])))
            srt = lambda L: sorted(((sorted(map(str, a.items())), b) for a, b in L))
            return srt(res) == srt(want) and all(any(a == x and list(map(type, a.values())) == [type(x[q]) for q in a] for x, _ in want) for a, _ in res), \
                f"structure {rs}: sub-spaces {res}, expected {want}"
        ctx.ob(f"subspaces:{k}", w, "the sub-spaces are exactly the combinations of condition paths, each with its conditioning values and active variables", go)


def expand_spaces(s):
    def f(x):
        if x.op == "obj" and x is not s.obj and x.a[1] == "SearchSpace":
            a = next((e for e in s.events if e.kind == "new" and e.res is x), None)
            if a is None:
                raise Unknown("construction of a sub-space")
            return mk("call", "SearchSpace", *a.args, *[mk("kw", k, v) for k, v in a.kw.items()])
        if x is s.obj:
            return mk("sym", "self")
        return None
    return rewrite(s.ret, f)


# ------------------------------------------------------------------ ConditionalBO
FIX = [{"m": 0}, {"m": 1, "q": "x"}, {"m": False, "q": 0.0}]
NAMES = ["m", "q", "a", "b", "c", "fl"]


def bopoint(i, k):
    return dict([{"a": 10.0 + k if k != 1 else 0.0, "fl": False}, {"b": 0, "c": f"c{k}"}, {"c": "", "fl": True, "b": k}][i])


class CDom(Dom):
    """the generator of still unvisited sub-spaces is consumed once per iteration and then exhausted"""

    def __init__(self, val, visit):
        super().__init__(val, volatile=("next",))
        self.visit = visit

    def nuntil(self, t):
        if t.a[1].op != "exc":
            raise Unknown("loop exit")
        return min(len(list(self.iters(t.a[0]))), len(self.visit))

    def o_until(self, t, *a):
        return self.nuntil(t)

    def iters(self, dom):
        if dom.op == "until" and dom.a[1].op == "exc":
            return range(self.nuntil(dom))
        return super().iters(dom)

    def o_call(self, t, name, *a):
        if name == "next" and a and a[0].op in ("sym", "attr", "ref") and "_init_gen" in show(a[0], 4):
            at = [x.a[1].a[1:] for x in a if x.op == "kw" and x.a[0] == "@"]
            a = [x for x in a if x.op != "kw"]
            if not at or not at[0]:
                raise Unknown("next outside a loop")
            k = self.ev(at[0][-1])
            if k < len(self.visit):
                return self.visit[k]
            if len(a) > 1:
                return self.ev(a[1])
            raise Raised("StopIteration")
        if name == "itertools.islice" and len(a) == 2 and "_init_gen" in show(a[0], 4):
            return self.visit[:self.ev(a[1])]
        return super().o_call(t, name, *a)


def occurrences(d, e, k=0):
    """runs over the abstract occurrences of an event, in order, with the loop indices bound"""
    if k == len(e.loop):
        tv = d.tri(pcond(e))
        if tv is None:
            raise Unknown("path condition")
        if tv:
            yield True
        return
    dm, b = e.loop[k]
    for i in list(d.iters(dm)):
        with d.bind(b, i):
            yield from occurrences(d, e, k + 1)


def base_val(n):
    return {"fixed": None, "self.n_point": n, "self.n_subspace": 3, "self._fixed_vars": [dict(x) for x in FIX], "self.var_names": list(NAMES),
            "self._bo": [Obj(f"bo{i}", id=i) for i in range(3)], "self.verbose": False, "self._init_gen": Obj("gen")}


def ask_runs(ctx):
    """ConditionalBO.ask on token sub-space optimizers: (tag, points requested, scripted choices, outcome)"""
    cases = [(3, [], 3, True), (3, [], 2, False), (1, [2, 0, 1], 4, True), (0, [1, 1, 2], 3, False), (0, [2], 1, True), (2, [0], 3, True), (0, [0, 2, 1, 0], 4, True), (0, [2], 1, False)]
    for nleft, chosen, n, explicit in cases:
        box = {}

        def run():
            if "r" in box:
                return box["r"]
            s = ctx.summ("ConditionalBO", "ask")
            first = list(range(3 - nleft, 3))[:n]
            exp = first + chosen[:n - len(first)]
            d = CDom({**base_val(n if not explicit else 7), "n_point": n if explicit else None}, list(range(3 - nleft, 3)))
            wrong = []

            def choice(a_, size=None, **k):
                if not (isinstance(a_, (int, np.integer)) and a_ == 3 or not isinstance(a_, (int, np.integer, Obj)) and sorted(a_) == [0, 1, 2]):
                    wrong.append(a_)
                return np.array(chosen[:size], dtype=int) if size is not None else chosen[0]

            def ask(D, t, recv, a):
                v = D.ev(recv)
                if not (isinstance(v, Obj) and v._name.startswith("bo")):
                    return NotImplemented
                b = [x for x in fv(t) if isinstance(x, int)]
                if not b:
                    raise Unknown("proposal outside the loop")
                return [bopoint(v.id, D.bvs[min(b)])]
            d.fns["mcall:ask"] = ask
            d.fns["numpy.random.choice"] = choice
            d.fns["numpy.random.randint"] = lambda lo, hi=None, size=None, **k: choice(hi if hi is not None else lo, size)
            X, idx = d.ev(s.ret), d.ev(s.get("_bo_idx"))
            box["r"] = X, [int(i) for i in idx], exp, wrong
            return box["r"]
        yield f"{nleft}left/{''.join(map(str, chosen))}/n={n}/{explicit}", n, chosen, run


def asks(ctx):
    f = ctx.method("ConditionalBO", "ask")
    w = ctx.where(f)
    for tag, n, chosen, run in ask_runs(ctx):
        def points():
            X, idx, exp, wrong = run()
            if len(X) != n:
                return False, f"{len(X)} points for a request of {n}"
            for j, i in enumerate(exp):
                want = {k: None for k in NAMES}
                want.update(bopoint(i, j))
                want.update(FIX[i])
                if not isinstance(X[j], dict):
                    raise Unknown("point")
                if set(X[j]) != set(want) or any(type(X[j][k]) is not type(want[k]) or X[j][k] != want[k] for k in want):
                    return False, f"point {j} of sub-space {i} is {X[j]}, expected {want}"
            return True
        ctx.ob("ask:" + tag, w, "each point is its sub-space optimizer's proposal with that branch's conditioning values, and None for the rest", points)

        def route():
            X, idx, exp, wrong = run()
            return idx == exp, f"the sub-spaces recorded for the batch are {idx}, the points come from {exp}"
        ctx.ob("route:" + tag, w, "ask() records, in order, the sub-space each point comes from", route)
        if chosen:
            def sel():
                X, idx, exp, wrong = run()
                return not wrong, f"sub-spaces are chosen from {wrong[:1]}, not from all of them"
            ctx.ob("choice:" + tag, w, "every sub-space can be chosen", sel)


def tells(ctx):
    f = ctx.method("ConditionalBO", "tell")
    w = ctx.where(f)
    params = [x for x in ctx.method("BO", "tell").args() if x != "self"]
    for idx in ([0, 1, 2], [2, 0, 1, 1], [1], [2, 2, 0], [0, 0]):
        for warm in (False, True):
            def go():
                s = ctx.summ("ConditionalBO", "tell")
                X = []
                for j, i in enumerate(idx):
                    x = {k: None for k in NAMES}
                    x.update(bopoint(i, j))
                    x.update(FIX[i])
                    X.append(x)
                val = {**base_val(len(idx)), "X": X, "func_vals": [float(j) for j in range(len(idx))], "self._bo_idx": list(idx), "warm_start": warm, "h_vals": None, "g_vals": None, "index": None}
                d = Dom(val)
                got = {0: [], 1: [], 2: []}
                tl = [e for e in s.events if e.kind == "mcall" and e.name == "tell" and "_bo" in show(e.args[0], 4)]
                if not tl:
                    return False, "no value is told to a sub-space optimizer"
                told = lambda: (e for e in tl for _ in occurrences(d, e))
                for e in told():
                    r = d.ev(e.args[0])
                    a = dict(zip(params, e.args[1:]))
                    a.update(e.kw)
                    if not isinstance(r, Obj) or "X" not in a or "func_vals" not in a:
                        raise Unknown("call form")
                    try:
                        xs, ys = d.ev(a["X"]), d.ev(a["func_vals"])
                    except Raised as x:
                        if "KeyError" in str(x):
                            return False, f"telling the batch from sub-spaces {idx} fails with KeyError: a point does not match the sub-space it is told to, or one of its active values was dropped"
                        raise
                    ws = bool(d.ev(a["warm_start"])) if "warm_start" in a else False
                    if len(xs) != len(ys):
                        return False, f"{len(xs)} points told with {len(ys)} values"
                    got[r.id] += [(dict(x), y, ws) for x, y in zip(xs, ys)]
                want = {0: [], 1: [], 2: []}
                for j, i in enumerate(idx):
                    want[i].append((bopoint(i, j), float(j), warm))
                for i in want:
                    if len(got[i]) != len(want[i]):
                        return False, f"sub-space {i} is told {len(got[i])} points, expected {len(want[i])} (batch from {idx})"
                    for g, h in zip(got[i], want[i]):
                        if set(g[0]) != set(h[0]) or any(type(g[0][k]) is not type(h[0][k]) or g[0][k] != h[0][k] for k in h[0]):
                            return False, f"sub-space {i} is told {g[0]} instead of its own proposal {h[0]}"
                        if g[1] != h[1] or g[2] != h[2]:
                            return False, f"sub-space {i} is told value {g[1]} (warm_start={g[2]}) for {g[0]}, expected {h[1]} (warm_start={h[2]})"
                return True
            ctx.ob(f"tell:{''.join(map(str, idx))}/warm={warm}", w, "each value is told to the sub-space optimizer its point came from, with every active value intact", go)


def creation(ctx):
    f = ctx.method("ConditionalBO", "_create_optimizer")
    w = ctx.where(f)
    c = ctx.cls("ConditionalBO")
    PASS = ("minimize", "acquisition_fun", "acquisition_par", "obj_fun", "ftarget", "max_FEs")
    box = {}

    def run():
        if "s" not in box:
            kw = {k: mk("sym", k) for k in PASS + ("search_space", "DoE_size", "n_point", "eval_type")}
            box["s"] = ctx.run(f, c, args=[], kw=kw, opaque=("Solution", "SearchSpace", "GaussianProcess", "RandomForest", "BO"))
        s = box["s"]
        subs = [({"m": 0}, Obj("s0", levels="l0")), ({"m": 1, "q": "x"}, Obj("s1", levels="l1")), ({"m": 2}, Obj("s2", levels="l2"))]
        d = Dom({k: "user " + k for k in PASS})
        d.fns["mcall:get_unconditional_subspace"] = lambda D, t, r, a: list(subs)
        d.fns["iter"] = lambda x: list(x)
        d.fns["RandomForest"] = lambda *a, levels=None, **k: ("RF", levels)
        return s, d, subs

    def bos():
        s, d, subs = run()
        news = [e for e in s.events if e.kind == "new" and e.name == "BO"]
        got = []
        for e in news:
            for _ in occurrences(d, e):
                got.append({k: e.kw[k] for k in e.kw} | {"@": (d.ev(e.kw["search_space"]) if "search_space" in e.kw else None, {k: d.ev(e.kw[k]) for k in PASS if k in e.kw}, "**" in e.kw)})
        sp = [g["@"][0] for g in got]
        if any(x is None for x in sp):
            raise Unknown("search space argument")
        if [x._name for x in sp] != ["s0", "s1", "s2"]:
            return False, f"the sub-space optimizers are built on {sp}, expected one per sub-space in order"
        for g in got:
            if not g["@"][2]:
                for k in PASS:
                    if g["@"][1].get(k) != "user " + k:
                        return False, f"the user's {k} is not passed to the sub-space optimizers"
        return True
    def models():
        s, d, subs = run()
        got = []
        for e in s.events:
            if e.kind == "new" and e.name == "BO":
                for _ in occurrences(d, e):
                    m = e.kw.get("model") if "model" in e.kw else (e.args[0] if len(e.args) == 1 else None)
                    if m is None:
                        raise Unknown("model argument")
                    got.append(d.ev(m))
        if not got or not all(isinstance(g, tuple) and g[:1] == ("RF",) for g in got):
            raise Unknown("surrogates of the sub-spaces")
        return [g[1] for g in got] == ["l0", "l1", "l2"], f"the surrogates of the sub-spaces are built for the levels {[g[1] for g in got]}, expected each sub-space's own"
    ctx.ob("create:models", w, "each sub-space's surrogate is built for the categorical levels of that sub-space", models)
    ctx.ob("create:optimizers", w, "one optimizer per sub-space, on that sub-space, with the user's settings", bos)

    def fixed():
        s, d, subs = run()
        got = d.ev(s.get("_fixed_vars"))
        n, g = d.ev(s.get("n_subspace")), d.ev(s.get("_init_gen"))
        if [dict(x) for x in got] != [x for x, _ in subs]:
            return False, f"conditioning values {got}, expected {[x for x, _ in subs]}"
        if n != 3 or list(g) != [0, 1, 2]:
            return False, f"{n} sub-spaces, initial visits {g}"
        return True
    ctx.ob("create:conditions", w, "the i-th conditioning values belong to the i-th optimizer and every sub-space is visited initially", fixed)


def check(ctx):
    trees(ctx)
    subspaces(ctx)
    asks(ctx)
    tells(ctx)
    creation(ctx)
