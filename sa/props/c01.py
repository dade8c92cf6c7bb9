import itertools

from ..loader import THOROUGH
from ..askmodel import *  # noqa
from .c02 import get, produced

TECHNIQUE = "abstract interpretation of constructor+ask sessions (value-flow summaries) in a domain of recorded/duplicate/fresh points; screening obligations on every returned row"
RULE = ("End-to-end screening: construction followed by ask() is one value-flow session per optimizer class that assumes noise-free objectives; it is evaluated on small spaces (mixed and single-type) with "
        "a recorded history and scripted outcomes of the search and the sampler that contain recorded points, points equal up to rounding error, points equal in all but one variable and pairs of equal "
        "candidates, for every way a point can be proposed. No returned point may equal a recorded one, no two candidates screened together may be equal, and every returned point must be one that the "
        "search or the sampler produced, unaltered.")

CLASSES = {"BO": "EI", "ParallelBO": "MGFI", "AnnealingBO": "MGFI", "SelfAdaptiveBO": "MGFI", "MOBO": "EHVI", "MultiAcquisitionBO": "MGFI"}
SPACES = {"mixed": ("r1", "k", "c", "r2", "o"), "swapped": ("o", "r2", "k", "b", "r1"), "real": ("r1", "r2"), "integer": ("k",), "categorical": ("c", "o"), "bool": ("b", "k")}
if THOROUGH:  # every ordered pair of variable kinds
    SPACES.update({"+".join(p): p for p in itertools.permutations(("r1", "k", "c", "o", "b"), 2)})
VAL = {"r1": (3.1, 3.3, 0.5), "r2": (3.2, 3.4, 0.7), "k": (50, 51, 7), "c": ("u", "v", "w"), "o": (10, 20, 30), "b": (True, False, True)}
EPS = 1e-9


def rows(order):
    """two recorded points and one of its variations per variable: equal to the first one except there"""
    H = [[VAL[n][0] for n in order], [VAL[n][1] for n in order]]
    V = []
    for i, n in enumerate(order):
        v = list(H[0])
        v[i] = VAL[n][2] if VAL[n][2] != v[i] else VAL[n][1]
        if v not in H and v not in V:
            V.append(v)
    near = [[x + EPS * (1 if i % 2 else -1) if isinstance(x, float) else x for i, x in enumerate(H[1])]] if any(n[0] == "r" for n in order) else []
    return H, V, near


def equal(a, b):
    return all((abs(x - y) <= 1e-8 if isinstance(x, float) or isinstance(y, float) else x == y) if not isinstance(x, str) and not isinstance(y, str) and not isinstance(x, tuple) else x == y
               for x, y in zip(a, b))


def situations(cname, order):
    """(name, n, fitted, script): the script names what search k and sampling k give"""
    H, V, near = rows(order)
    fresh = None
    batch = cname in ("ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "MultiAcquisitionBO")
    yield "search-recorded-first", 1, True, {"search": [H[0]]}
    yield "search-recorded-last", 1, True, {"search": [H[1]]}
    for i, v in enumerate(V):
        yield f"search-variation{i}", 1, True, {"search": [v]}
    if near:
        yield "search-near", 1, True, {"search": near}
        yield "design-near", 2, False, {"sample": [near + [H[0]], near]}
    for i in (0, 1, 2, 10, 57):
        yield f"search-recorded-iteration{i}", 1, True, {"search": [H[i % 2]], "iter_count": i, "eval_count": i + 5}
        yield f"design-recorded-iteration{i}", 2, False, {"sample": [[H[i % 2], V[0]]], "iter_count": i, "eval_count": i + 5}
    if cname in ("BO", "ParallelBO") and order == SPACES["mixed"]:
        for at in (0, 1, 150, 299):
            yield f"long-history{at}", 1, True, {"search": [H[0]], "long": at}
            yield f"long-history-design{at}", 2, False, {"sample": [[H[0], H[1]]], "long": at}
    yield "search-fresh", 1, True, {"search": [fresh]}
    yield "topup-recorded", 1, True, {"search": [H[0]], "sample": [[H[1]]]}
    yield "topup-recorded-twice", 1, True, {"search": [H[0]], "sample": [[H[1]], [H[0]] * 5 + [H[1]] * 5]}
    yield "topup-never", 1, True, {"search": [H[0]], "sample": [[H[1]], [H[0]] * 10, [H[1]] * 10, [H[1]] * 10]}
    yield "failed-topup-recorded", 1, True, {"search": [[]], "sample": [[H[0]]]}
    yield "design-recorded", 3, False, {"sample": [[H[0], V[0], H[1]]]}
    yield "design-pair", 3, False, {"sample": [[V[0], V[0], H[1]]]}
    yield "design-repeat", 2, False, {"sample": [[V[0], H[0]], [V[0], H[1]] * 5]}
    yield "design-one", 1, False, {"sample": [[H[0]]]}
    yield "design-default", None, False, {"sample": [[H[0], V[0], H[1], V[-1]]]}
    if batch:
        yield "batch-recorded", 3, True, {"search": [H[0], fresh, H[1]]}
        yield "batch-pair", 3, True, {"search": [V[0], fresh, V[0]]}
        yield "batch-all", 3, True, {"search": [H[0], H[1], H[0]]}
        yield "batch-topup", 3, True, {"search": [H[0], H[1], fresh], "sample": [[H[0], H[1]], [H[1]] * 4]}
        yield "batch-mixed", 4, True, {"search": [V[0], H[1], [], H[0]], "sample": [[H[0], V[-1], H[1]]]}
        if near:
            yield "batch-near", 3, True, {"search": [near[0], fresh, H[1]]}


def check(ctx):
    names = [c.name for c in optimizer_classes(ctx)]
    for cname, acq in CLASSES.items():
        if cname not in names:
            continue
        f = ctx.cls(cname).method("ask")
        w = f"{f.module.rel}:{f.node.lineno} {cname}.ask"
        for sname, order in SPACES.items():
            for eval_type in ("list", "dict") if cname == "BO" else ("list",):
                if cname not in ("BO", "ParallelBO") and sname not in ("mixed", "real"):
                    continue
                for name, n, fitted, script in situations(cname, order):
                    for history in ("recorded", "none") if "pair" in name else ("recorded",):
                        tag = f"{cname}/{sname}/{eval_type}/{name}/{history}"
                        H = rows(order)[0] if history == "recorded" else None
                        if "long" in script:
                            base = [[v + 0.01 * (i + 1) if isinstance(v, float) else v + i % 7 + 1 if isinstance(v, int) and nm == "k" else v for v, nm in zip(H[1], order)] for i in range(300)]
                            base[script["long"]], base[(script["long"] + 149) % 300] = H[0], H[1]
                            H = base
                        memo = []

                        def run(memo=memo, H=H):
                            if not memo:
                                try:
                                    s, r = get(ctx, cname, acq, eval_type, False, False)
                                    d = ask_dom(ctx, s, mixed(order), n=n, history=H, fitted=fitted, script=script, **{k: v for k, v in script.items() if k in ("iter_count", "eval_count")})
                                    X = d.ev(r)
                                    memo.append((d, [[x[nm] for nm in order] for x in X] if eval_type == "dict" else [list(x) for x in X]))
                                except (Unknown, Raised) as e:
                                    memo.append(e)
                            if isinstance(memo[0], Exception):
                                raise memo[0]
                            return memo[0]

                        def recorded(H=H):
                            d, X = run()
                            for x in X:
                                for h in H or ():
                                    if equal(x, h):
                                        return False, f"{x} is proposed although {h} is already recorded"
                            return True
                        ctx.ob("new:" + tag, w, "no proposed point equals a recorded one", recorded)

                        def distinct():
                            d, X = run()
                            src = sources(d, script)
                            for x in X:
                                if sum(equal(x, y) for y in X) > max(1, sum(any(equal(x, z) for z in g) for g in src)):
                                    return False, f"{x} is proposed twice in one batch"
                            return True
                        ctx.ob("pair:" + tag, w, "candidates screened together are distinct", distinct)

                        def same_():
                            d, X = run()
                            src = [list(y) for y in produced(d, script, {})]
                            for x in X:
                                if x not in src:
                                    return False, f"{x} is returned although neither the search nor the sampler produced it: the point is altered after it was found"
                            return True
                        ctx.ob("unaltered:" + tag, w, "a point is returned as it was screened", same_)


def sources(d, script):
    """groups of points that are screened together"""
    out = [[]]
    for k, b in enumerate(d.searches):
        rs = script.get("search")
        x = rs[k] if rs and k < len(rs) and rs[k] is not None else d.point(b["search_space"], k, 0)
        if x:
            out[0].append(x)
    base = 0
    for k, (sp, b) in enumerate(d.samples):
        n = int(b.get("N", 1))
        rs = script.get("sample")
        out.append([list(r) for r in rs[k]][:n] if rs and k < len(rs) else [d.point(sp, base + i, 1) for i in range(n)])
        base += n
    return out
