import ast

from ..spacemodel import *  # noqa
from ..loader import Cls
from .c13 import objval, spaces

TECHNIQUE = "interprocedural effect and escape analysis over value-flow summaries: writes reaching caller-owned cells, retained references written later, mutable defaults, shared variable tokens"
RULE = ("Effect and escape analysis: in the value-flow summary of every public operation no write may reach the cell of an argument (directly, through an alias or an aliasing array view), an argument kept in an "
        "attribute must not be written in place by any method of the class or its subclasses, mutable defaults and class-level containers count as caller-owned, and the abstract result of every space operation "
        "must not hold a variable object of its operands; operators and queries must leave the attributes of their operands unchanged.")

VARS = ("Real", "Integer", "Discrete", "Ordinal", "Bool", "Subset")
ALIAS = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.transpose", "numpy.asanyarray", "numpy.ascontiguousarray"}
MALIAS = {"reshape", "ravel", "view", "squeeze", "transpose"}
INTERNAL = {"MIES": ("__init__", "optimize"), "SCMC": ("__init__", "sample"), "Node": ("deepcopy", "remove", "from_dict", "get_all_name", "get_all_path", "to_dict"),
            "GaussianProcess": ("__init__", "fit", "update", "predict", "gradient", "Hessian"),
            "OnePlusOne_CMA": ("__init__", "ask", "tell", "run", "evaluate"), "OnePlusOne_Cholesky_CMA": ("__init__", "ask", "tell", "run", "evaluate")}
SKIPMOD = ("cma_es", "hypervolume", "box_decomposition", "daemon", "_sampling", "boundary")
SCALAR = ("int", "float", "bool", "str", "Callable", "callable")
HEAVY = {"GaussianProcess": ("fit", "update", "_optimize_hyperparameter"), "SearchSpace": ("_sample",)}


def annotation(f, n):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == n:
            return ast.unparse(x.annotation) if x.annotation is not None else None
    return None


def star(f):
    a = f.node.args
    return {x.arg for x in (a.vararg, a.kwarg) if x is not None}


def arrayish(ann):
    return ann is not None and any(k in ann for k in ("ndarray", "List", "list", "Solution", "Dict", "dict"))


def containers(ann):
    return ann is None or not all(p.strip() in SCALAR + ("None", "Any") for p in ann.replace("Optional[", "").replace("Union[", "").replace("]", "").split(","))


def elemroot(t, depth=0):
    """name of the input an element expression reads from: x[i], or an element of [x[j] for j ...]"""
    if depth > 8 or not isinstance(t, T):
        return None
    if t.op in ("sym", "ref"):
        return str(t.a[0])
    if t.op in ("item", "view") and isinstance(t.a[0], T):
        b = t.a[0]
        if b.op == "map":
            return elemroot(b.a[1], depth + 1)
        if b.op == "flatmap":
            x = b.a[1]
            if x.op == "phi":
                x = x.a[1] if x.a[1].op == "list" and len(x.a[1].a) == 1 else x.a[2]
            return elemroot(x.a[0], depth + 1) if x.op == "list" and len(x.a) == 1 else None
        return elemroot(b, depth + 1)
    return None


def aliased(I, r, cells, depth=0):
    """parameter whose memory the cell r may denote"""
    if r in cells:
        return cells[r]
    if r.op == "item":
        n = elemroot(r)
        return n if n in cells.values() else None
    c = I.init.get(r)
    while isinstance(c, T) and depth < 6:
        depth += 1
        if c.op == "sym":
            return c.a[0] if c.a[0] in cells.values() else None
        if c.op in ("new",):
            return aliased(I, c, cells, depth)
        if c.op == "call" and c.a[0] in ALIAS and len(c.a) > 1:
            c = c.a[1]
        elif c.op == "mcall" and c.a[0] in MALIAS:
            c = c.a[1]
        elif c.op == "attr" and c.a[1] == "T":
            c = c.a[0]
        else:
            return None
    return None


def listlike(t):
    return isinstance(t, T) and t.op in ("list", "map", "cat", "flatmap")


NESTED = ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "iadd")
SHALLOW = ("dict", "copy.copy", "list", "OrderedDict", "collections.OrderedDict")


def shallow(I, r, cells):
    """parameter of which the cell r is a shallow copy: its elements are still the caller's"""
    c = I.init.get(r)
    if isinstance(c, T) and (c.op == "call" and c.a[0] in SHALLOW and len(c.a) == 2 or c.op == "mcall" and c.a[0] == "copy" and len(c.a) == 2):
        c = c.a[1]
        if c.op == "sym" and c.a[0] in cells.values():
            return c.a[0]
        if c in cells:
            return cells[c]
    return None


def writes(s):
    """(parameter, event) of every write reaching memory of an argument"""
    cells = {v: k for k, v in s.I.argcells.items() if isinstance(v, T) and v.op == "new"}
    st = star(s.func)
    out, rewritten = [], set()
    for e in s.events:
        if not isinstance(e.raw, T) or e.kind not in ("mut", "inplace"):
            continue
        p = aliased(s.I, e.raw, cells)
        if p is None and e.raw.op == "new" and e.kind == "mut":
            t = e.args[0] if e.args else None
            nested = isinstance(t, T) and t is not e.raw and t.op in ("view", "item")
            if nested and e.name in NESTED and e.raw not in rewritten:
                p = shallow(s.I, e.raw, cells)
            elif e.name != "setdefault":
                rewritten.add(e.raw)  # its elements may have been replaced by copies
        if p is not None and e.raw not in cells and e.raw.op != "item" and e.name == "setattr":
            continue  # an attribute of a view is not memory of the array
        if p is None or p in st or s.I.decide(pcond(e)) is False:
            continue
        if e.kind == "inplace" and not arrayish(annotation(s.func, p)):
            continue
        out.append((p, e))
    return out


def opaque_for(c):
    base = ["Node", "SCMC", "GaussianProcess", "RandomForest", "OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA", "MIES", "Solution"] + list(VARS)
    base += ["SearchSpace", "RealSpace", "IntegerSpace", "OrdinalSpace", "DiscreteSpace", "BoolSpace", "SubsetSpace"]
    if c is None:
        return base
    mine = {k.name for k in c.mro()}
    space = "SearchSpace" in mine
    return [x for x in base if x not in mine and not (space and x.endswith("Space"))]


def check(ctx):
    prog = ctx.prog

    def skipped(m):
        return any(k in m.name for k in SKIPMOD)

    def run(f, c, et="list"):
        key = ("c12", c.name if c else None, f.qual, f.kind, f.node.lineno, et)
        if key not in ctx._sum:
            ofs = ()
            if c is not None and any(f.name in HEAVY.get(k.name, ()) and k.methods.get(f.name) is f for k in c.mro()):
                ofs = tuple(n for k in c.mro() for n in k.methods if n != f.name)
            elif c is not None and c.method("sample") is f:
                ofs = ("_sample",)
            names = f.args()[1:] if c is not None and f.kind != "staticmethod" else f.args()
            args = [mk("const", et) if n == "eval_type" else mk("sym", n) for n in names] if "eval_type" in names else None
            try:
                ctx._sum[key] = ctx.run(f, c, args=args, opaque=opaque_for(c), opaque_funcs=ofs, budget=120000)
            except Exception as e:  # reported by the obligation that needs it
                ctx._sum[key] = e
        s = ctx._sum[key]
        if isinstance(s, Exception):
            raise Unknown(f"summary: {type(s).__name__}: {s}")
        if s.dead:
            raise Unknown("no normal exit")
        return s

    opts = ctx.cls("BaseOptimizer")
    spacec, varc = ctx.cls("SearchSpace"), ctx.cls("Variable")
    named = ("Solution", "AcquisitionFunction", "Node", "SCMC", "MIES", "OnePlusOne_CMA", "OnePlusOne_Cholesky_CMA", "RandomForest", "GaussianProcess", "SurrogateAggregation", "LinearTransform")
    roots = [opts, spacec, varc] + [c for n in named for c in [prog.cls(n, False)] if c is not None]
    classes = [c for c in prog.all_classes() if not skipped(c.module) and any(c.issub(r) for r in roots)]

    # ---------------------------------------------------------------- A: direct writes to arguments
    def direct(f, c, what):
        def go():
            for et in ("list", "dict") if "eval_type" in f.args() else ("list",):
                s = run(f, c, et)
                w = writes(s)
                if w:
                    p, e = w[0]
                    return False, f"{what} writes to its argument {p!r} ({e.name}) at {e.where}"
            return True, f"{len(s.I.argcells)} arguments, {len(s.events)} events"
        nargs = [n for n in f.args() if n not in ("self", "cls")]
        if nargs:
            ctx.ob(f"argument:{what}", ctx.where(f), "a public operation does not write to what the caller passed in", go)

    for c in classes:
        own = list(c.methods.items()) + [("set:" + n, f) for n, f in c.setters.items()]
        for n, f in own:
            b = n.split(":")[-1]
            if c.name in INTERNAL and n not in INTERNAL[c.name]:
                continue
            if b.startswith("_") and not (b.startswith("__") and b.endswith("__")) or b in ("__setattr__", "__array_finalize__", "__setstate__"):
                continue
            direct(f, c, f"{c.name}.{n}")
    for n in ("fmin", "argmax_restart", "fillin_fixed_value", "partial_argument", "dynamic_penalty", "non_dominated_set_2d", "arg_to_int", "set_bounds"):
        f = prog.func(n, False)
        if f is not None:
            direct(f, None, n)

    # ---------------------------------------------------------------- mutable defaults anywhere
    def mutable_default(f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set"):
                yield x.arg
    allf = [(f, None) for m in prog.modules.values() if not skipped(m) for f in m.functions.values()] + \
           [(f, c) for c in prog.all_classes() if not skipped(c.module) for f in list(c.methods.values())]
    for f, c in allf:
        for p in mutable_default(f):
            def dflt():
                s = run(f, c)
                for q, e in writes(s):
                    if q == p:
                        return False, f"the shared default of {p!r} in {f.qual} is written ({e.name}) at {e.where}"
                return True, p
            ctx.ob(f"default:{f.qual}:{p}", ctx.where(f), "a mutable default value is never written", dflt)

    # ---------------------------------------------------------------- B: retained references written later
    def retained(c):
        """attribute -> (parameter, annotation) kept without a copy by the constructors c may run"""
        out = {}
        for k in c.mro():
            f = k.methods.get("__init__")
            if f is None:
                continue
            s = run(f, k)
            cells = {v: n for n, v in s.I.argcells.items() if isinstance(v, T) and v.op == "new"}
            st = star(f)
            for key, v in s.I.st.heap.items():
                if not isinstance(key, tuple) or key[0] is not s.obj:
                    continue
                todo, seen = [v], set()
                while todo:
                    x = todo.pop()
                    if not isinstance(x, T) or x in seen:
                        continue
                    seen.add(x)
                    if x.op == "new":
                        p = aliased(s.I, x, cells)
                        if p is not None and p not in st and containers(annotation(f, p)):
                            out.setdefault(key[1], (p, annotation(f, p), f))
                    elif x.op == "phi":
                        todo += [x.a[1], x.a[2]]
        return out

    def written(c):
        """attribute -> event of an in-place write by a method of c"""
        out = {}
        for n in sorted({n for k in c.mro() for n in k.methods}):
            f = c.method(n)
            if n in ("__init__", "__new__", "__array_finalize__"):
                continue
            try:
                s = run(f, c)
            except Unknown:
                continue
            for e in s.events:
                if e.kind in ("mut", "inplace") and isinstance(e.raw, T) and e.raw.op in ("ref", "sym") and str(e.raw.a[0]).startswith("self."):
                    out.setdefault(str(e.raw.a[0])[5:], []).append(e)
        return out

    for c in classes:
        if c.method("__init__") is None:
            continue

        def keep():
            r, w = retained(c), written(c)
            for a in sorted(set(r) & set(w)):
                p, ann, f = r[a]
                for e in w[a]:
                    if e.kind == "inplace" and not arrayish(ann):
                        continue
                    return False, f"{c.name} keeps the caller's {p!r} in self.{a} without a copy ({f.qual}) and writes it in place ({e.name}) at {e.where}"
            return True, f"{len(r)} retained, {len(w)} written attributes"
        ctx.ob(f"retained:{c.name}", f"{c.module.rel} {c.name}", "a reference kept from the caller is never written in place", keep)

        def shared():
            w = None
            for k in c.mro():
                for a, v in k.attrs.items():
                    if isinstance(v, (ast.List, ast.Dict, ast.Set)):
                        w = written(c) if w is None else w
                        if a in w and not any(assigns(k2, a) for k2 in c.mro()):
                            return False, f"{c.name}.{a} is a container shared by all instances and is written ({w[a][0].name}) at {w[a][0].where}"
            return True, "none"

        def assigns(k, a):
            f = k.methods.get("__init__")
            if f is None:
                return False
            s = run(f, k)
            return (s.obj, a) in s.I.st.heap
        if any(isinstance(v, (ast.List, ast.Dict, ast.Set)) for k in c.mro() for v in k.attrs.values()):
            ctx.ob(f"class-level:{c.name}", f"{c.module.rel} {c.name}", "instances do not share a container through the class", shared)

    # ---------------------------------------------------------------- C: operands stay unchanged
    PURE = {"SearchSpace": ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__getitem__", "__contains__", "__len__", "__iter__", "__eq__", "__ne__", "__str__", "filter", "concat", "round", "to_linear_scale",
                            "to_dict", "get_unconditional_subspace", "var_name", "var_type", "bounds", "random_seed", "sample"),
            "RealSpace": ("round", "to_linear_scale", "_sample"), "_DiscreteSpace": ("_sample",),
            "Solution": ("__add__", "__mul__", "__rmul__", "__getitem__", "__str__", "unique", "to_list", "to_dict"),
            "Node": ("deepcopy", "remove", "to_dict", "get_all_name", "get_all_path"),
            "Real": ("__eq__", "__hash__", "__contains__", "round", "to_linear_scale", "sample", "__str__"), "Integer": ("__eq__", "__hash__", "__contains__", "sample", "__str__"), "Discrete": ("__eq__", "__hash__", "__contains__", "sample", "__str__")}
    for cn, ms in PURE.items():
        c = prog.cls(cn, False)
        for m in ms if c is not None else ():
            f = c.method(m)
            if f is None:
                continue

            def pure():
                s = run(f, c)
                for k, v in s.I.st.heap.items():
                    if isinstance(k, tuple) and k[0] is s.obj:
                        dv, n = s.I.deep(v), k[1]
                    elif isinstance(k, T) and k.op in ("ref", "sym") and str(k.a[0]).startswith("self."):
                        dv, n = s.I.deep(k), str(k.a[0])[5:]
                    else:
                        continue
                    if not (dv.op in ("sym", "ref") and str(dv.a[0]) == "self." + n):
                        ev = next((e for e in s.events if e.kind == "mut" and isinstance(e.raw, T) and e.raw is k), None)
                        return False, f"{cn}.{m} changes its operand: {n}" + (f" at {ev.where}" if ev else "")
                for e in s.events:
                    if e.kind == "inplace" and isinstance(e.raw, T) and e.raw.op in ("ref", "sym") and str(e.raw.a[0]).startswith("self.") and listlike(e.args[1]) and s.I.decide(pcond(e)) is not False:
                        return False, f"{cn}.{m} extends {e.raw.a[0]} of its operand in place at {e.where}"
                    if e.kind == "mut" and isinstance(e.raw, T) and e.raw.op == "item" and str(elemroot(e.raw)).startswith("self."):
                        return False, f"{cn}.{m} changes an element of its operand's {elemroot(e.raw)} ({e.name}) at {e.where}"
                return True, "no attribute of the operand changes"
            ctx.ob(f"operand:{cn}.{m}", ctx.where(f), "an operator or query leaves its operand unchanged", pure)

    # functions that take several operands
    f = spacec.method("concat")
    for n in (2, 3) if f is not None else ():
        def several():
            ops, rest = [], []

            def pre(I, o):
                for k in range(n):
                    x = I.new_obj(spacec, f"space{k}")
                    ops.append(x)
                    rest.append(x)
            s = ctx.run(f, spacec, args=rest, pre=pre, opaque=("Node",))
            if s.dead:
                raise Unknown("no normal exit")
            for k, v in s.I.st.heap.items():
                if isinstance(k, tuple) and k[0] in ops:
                    dv, nm = s.I.deep(v), f"space{ops.index(k[0])}.{k[1]}"
                elif isinstance(k, T) and k.op in ("ref", "sym") and str(k.a[0]).startswith("space"):
                    dv, nm = s.I.deep(k), str(k.a[0])
                else:
                    continue
                if not (dv.op in ("sym", "ref") and str(dv.a[0]) == nm):
                    return False, f"combining {n} spaces changes an operand: {nm}"
            for e in s.events:
                if e.kind in ("mut", "inplace") and isinstance(e.raw, T) and e.raw.op in ("ref", "sym") and str(e.raw.a[0]).startswith("space"):
                    return False, f"combining {n} spaces changes {e.raw.a[0]} of an operand in place at {e.where}"
            return True, f"{len(s.events)} events"
        ctx.ob(f"operands:SearchSpace.concat/{n}", ctx.where(f), "an operator or query leaves its operands unchanged", several)

    # ---------------------------------------------------------------- D: results own their variables
    S = spaces()

    def summ(m, sp):
        cc = prog.cls(sp.klass, False) or spacec if sp is not None else spacec
        f = cc.method(m)
        if f is None:
            raise Gone(m)
        key = ("sp", m, cc.name)
        if key not in ctx._sum:
            ctx._sum[key] = ctx.run(f, cc, opaque=("Node",))
        return ctx._sum[key]

    def owns(tag, m, sp, ops, result=True, **val):
        def go():
            s = summ(m, sp)
            v = {"hasattr:structure": True}
            if sp is not None:
                v.update(state_val(sp))
                v["self.__class__"] = Klass(sp.klass)
            v.update(val)
            d = SpaceDom(ctx, v)
            before = [x.sig() for x in ops]
            data = objval(d, s, s.ret if result else s.obj)("data")
            if not isinstance(data, list) or not all(isinstance(x, Var) for x in data):
                raise Unknown("variables")
            sh = [x for x in data if any(x is y for y in ops)]
            if sh:
                return False, f"{m} with {val} holds the variable object {sh[0]} of its operand: renaming one changes the other"
            if [x.sig() for x in ops] != before:
                return False, f"{m} with {val} changes the variables of its operand"
            return True, m
        f = spacec.method(m)
        ctx.ob(f"shares:{m}:{tag}", ctx.where(f) if f else m, "a space never holds a variable object of its operands", go)

    for n in ("mixed", "reals", "real+cat", "int+bool"):
        vs = S[n]
        sp = Space(vs)
        other = Space([Var("Discrete", "b", ("p", "q")), Var("Real", "rr")])
        owns(n, "__init__", None, vs, False, data=vs, random_seed=None, structure=None)
        owns(n, "__add__", sp, vs + other.data, space=other)
        owns(n, "__sub__", sp, vs + other.data, space=other)
        for N in (1, 3):
            owns(f"{n}/{N}", "__mul__", sp, vs, N=N)
        owns(n + "/ints", "__getitem__", sp, vs, index=[len(vs) - 1, 0])
        owns(n + "/slice", "__getitem__", sp, vs, index=slice(0, 2))
        owns(n + "/names", "__getitem__", sp, vs, index=["a", "b"])
        owns(n + "/keep", "filter", sp, vs, keys=["a", "b"], invert=False)
        owns(n + "/drop", "filter", sp, vs, keys=["a"], invert=True)
        owns(n, "__iadd__", sp, other.data, False, space=other)
        owns(n + "/replace", "update", sp, other.data, False, space=other)
        owns(n + "/append", "update", sp, other.data, False, space=Space(other.data[1:]))
