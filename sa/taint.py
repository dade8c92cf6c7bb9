"""Flow of unordered and process-dependent values: labels on expressions, propagated through variables, attributes and returns.

Labels: ("set",) a set of elements without a fixed order; ("unord", src) a sequence in the order of a set; ("nd", src) a value that depends on that
order, on the clock, on the process or on a generator the user's seed does not govern."""
import ast

from .loader import Cls, Func

CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "time.perf_counter_ns", "time.monotonic_ns", "datetime.datetime.now", "datetime.datetime.utcnow",
         "datetime.now", "time.clock_gettime", "time.localtime", "time.ctime"}
PROCESS = {"os.getpid", "builtins.id", "uuid.uuid1", "uuid.uuid4", "os.urandom", "builtins.hash", "threading.get_ident", "os.times", "socket.gethostname", "secrets.token_bytes", "secrets.randbits", "secrets.choice"}
PRIVATE = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random", "random.SystemRandom", "numpy.random.PCG64", "numpy.random.SeedSequence", "numpy.random.MT19937"}
UNORDERED = {"os.listdir", "glob.glob", "os.scandir", "concurrent.futures.as_completed", "joblib.as_completed"}
SETOPS = {"union", "difference", "intersection", "symmetric_difference", "copy"}
SAFE = {"builtins." + n for n in ("len", "sorted", "sum", "min", "max", "any", "all", "set", "frozenset", "isinstance", "bool", "type", "print", "repr", "str")} | \
       {"numpy.sort", "numpy.unique", "numpy.sum", "numpy.max", "numpy.min", "numpy.any", "numpy.all", "numpy.isin", "numpy.in1d", "numpy.setdiff1d", "numpy.intersect1d", "numpy.mean", "numpy.std"}
ORDERING = {"builtins." + n for n in ("list", "tuple", "enumerate", "zip", "map", "filter", "reversed", "iter", "dict")} | {"numpy.array", "numpy.asarray", "numpy.fromiter", "builtins.dict.fromkeys", "copy.copy", "copy.deepcopy", "numpy.r_", "itertools.chain", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.concatenate"}
LOGS = {"debug", "info", "warning", "error", "critical", "log", "exception", "warn"}
DRAW = ("numpy.random.",)
SET = ("set",)


def nd(src):
    return ("nd", src)


class Flow:
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.ret = {}       # Func -> labels
        self.attr = {}      # (class name, attribute) -> labels
        self.param = {}     # (Func node, name) -> labels passed by callers
        self.sinks = []     # (func, node, kind, label)
        self.funcs = []
        for m in prog.modules.values():
            if any(k in m.name for k in skip):
                continue
            for f in m.functions.values():
                self.funcs.append((f, None))
            for c in m.classes.values():
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        self.funcs.append((f, c))
        for i in range(6):
            before = ({k: set(v) for k, v in self.ret.items()}, {k: set(v) for k, v in self.attr.items()}, {k: set(v) for k, v in self.param.items()})
            self.sinks = []
            for f, c in self.funcs:
                One(self, f, c).run()
            if before == (self.ret, self.attr, self.param):
                break


class One:
    def __init__(self, flow, f, c):
        self.F, self.f, self.c, self.m = flow, f, c, f.module
        self.env = {x: set(flow.param.get((f.node, x), ())) for x in f.args() if (f.node, x) in flow.param}
        self.limports = {}
        self.locals = {}
        self.outer = None
        self.loops = 0   # nesting in loops over unordered collections

    def run(self):
        first = {k: set(v) for k, v in self.env.items()}
        for q in (True, True, True, False):
            self.final, self.env = self.env, {k: set(v) for k, v in first.items()}
            self.body(self.f.node.body, quiet=q)

    def arms(self, *bodies):
        """alternative continuations of one state: their results are joined"""
        start, outs = {k: set(v) for k, v in self.env.items()}, []
        for b in bodies:
            self.env = {k: set(v) for k, v in start.items()}
            self.body(b)
            outs.append(self.env)
        self.env = {}
        for o in outs:
            for k, v in o.items():
                self.env.setdefault(k, set()).update(v)

    def sink(self, node, kind, labels):
        if self.quiet or self.outer is not None and kind == "return":
            return
        for l in sorted(labels, key=str):
            if l != SET:
                self.F.sinks.append((self.outer or self.f, self.c, node, kind, l))

    def body(self, stmts, quiet=None):
        if quiet is not None:
            self.quiet = quiet
        for s in stmts:
            self.stmt(s)

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            old = self.ev(_load(s.target))
            if self.loops and isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)):
                v = v | {("unord", "order of a set")}
            if SET in old:
                v = v | {SET}
            self.assign(s.target, v | old, s.value)   # old labels included
        elif isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else set()
            if self.loops:
                v = v | {nd("which element of a set comes first")}
            self.F.ret.setdefault(self.f, set()).update(v)
            self.sink(s, "return", v)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, (ast.If, ast.While)):
            v = self.ev(s.test)
            self.sink(s, "branch", {l for l in v if l[0] == "nd"})
            if isinstance(s, ast.If):
                self.arms(s.body, s.orelse)
            else:
                self.arms(s.body, [])
                self.arms(s.body, [])
                self.body(s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter)
            un = v & {SET} or {l for l in v if l[0] == "unord"}
            self.assign(s.target, {l for l in v if l[0] == "nd"}, s.iter)
            if un:
                self.loops += 1
            self.arms(s.body, [])
            self.arms(s.body, [])
            if un:
                if any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)) and not isinstance(s.iter, ast.Constant):
                    for x in ast.walk(s.target):
                        if isinstance(x, ast.Name):
                            self.env[x.id] = self.env.get(x.id, set()) | {nd("which element of a set comes first")}
                self.loops -= 1
            self.body(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, it.context_expr)
            self.body(s.body)
        elif isinstance(s, ast.Try):
            start = {k: set(v) for k, v in self.env.items()}
            self.body(s.body)
            for k, v in start.items():   # an exception can leave anywhere inside
                self.env.setdefault(k, set()).update(v)
            self.arms(s.orelse, *[h.body for h in s.handlers])
            self.body(s.finalbody)
        elif isinstance(s, ast.FunctionDef):
            self.locals[s.name] = s
            g = Func(s.name, self.f.qual + "." + s.name, s, self.m)
            o = One(self.F, g, self.c)
            o.env, o.quiet, o.locals, o.outer = {k: self.env.get(k, set()) | getattr(self, "final", {}).get(k, set()) for k in set(self.env) | set(getattr(self, "final", {})) if k not in g.args()}, self.quiet, self.locals, self.outer or self.f
            o.body(s.body)
            self.env[s.name] = {l for l in self.F.ret.pop(g, set()) if l[0] == "nd"}
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.limports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom) and not s.level:
            for a in s.names:
                self.limports[a.asname or a.name] = (s.module or "") + "." + a.name

    def hand(self, g, e, skip):
        """labels of the arguments reach the parameters of the callee"""
        names = g.args()[skip:]
        for n, a in list(zip(names, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            v = {l for l in self.ev(a) if l[0] == "unord" or l == SET}
            if v:
                self.F.param.setdefault((g.node, n), set()).update(v)

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            w = {nd(l[1]) for l in v if l[0] == "unord"} | ({nd("order of a set")} if SET in v else set()) | {l for l in v if l[0] == "nd"}
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self.assign(a, self.ev(b), b)
                return
            for x in t.elts:
                self.assign(x, w, value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, value)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            if isinstance(t.value, ast.Name) and t.value.id == "self" and self.c is not None:
                self.F.attr.setdefault((self.c.name, t.attr), set()).update(v)
            if t.attr != "instance_id":
                self.sink(t, "attribute", {l for l in v if l[0] == "unord" or l[0] == "nd" and "set" in l[1]})
        elif isinstance(t, ast.Subscript):
            i = self.ev(t.slice)
            if self.loops and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice):
                v = v | {("unord", "order of a set")}
            self.assign_into(t.value, v)

    def assign_into(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = self.env.get(t.id, set()) | {l for l in v if l[0] != "set"}
        elif isinstance(t, ast.Attribute):
            self.assign(t, {l for l in v if l[0] != "set"}, None)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return set()
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            return set(m(e))
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ev(c)
        return {l for l in out if l != SET}

    def x_Name(self, e):
        return self.env.get(e.id, set())

    def x_Constant(self, e):
        return set()

    def x_Lambda(self, e):
        return {l for l in self.ev(e.body) if l[0] == "nd"}

    def x_Attribute(self, e):
        v = {l for l in self.ev(e.value) if l[0] == "nd"}
        if isinstance(e.value, ast.Name) and e.value.id == "self" and self.c is not None:
            for k in self.c.mro():
                v |= self.F.attr.get((k.name, e.attr), set())
                if e.attr in k.getters:
                    v |= self.F.ret.get(k.getters[e.attr], set())
        return v

    def x_Set(self, e):
        v = set()
        for x in e.elts:
            v |= {l for l in self.ev(x) if l[0] == "nd"}
        return v | ({SET} if not all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts) else set())

    def x_SetComp(self, e):
        v = self.comp(e, e.elt)
        return {l for l in v if l[0] == "nd"} | (set() if self.ints(e) else {SET})

    def x_ListComp(self, e):
        return self.comp(e, e.elt)

    x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self.comp(e, e.value)

    def comp(self, e, elt):
        saved = dict(self.env)
        out = set()
        for g in e.generators:
            v = self.ev(g.iter)
            if SET in v:
                out.add(("unord", "order of a set"))
            out |= {l for l in v if l[0] in ("unord", "nd")}
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    self.env[x.id] = {l for l in v if l[0] == "nd"}
            for c in g.ifs:
                self.sink(c, "branch", {l for l in self.ev(c) if l[0] == "nd"})
        out |= {l for l in self.ev(elt) if l[0] == "nd"}
        self.env = saved
        return out

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        out = {l for l in a | b if l != SET}
        if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and SET in a | b:
            out.add(SET)
        return out

    def x_BoolOp(self, e):
        out = set()
        for x in e.values:
            out |= self.ev(x)
        return out

    def x_IfExp(self, e):
        t = self.ev(e.test)
        self.sink(e, "branch", {l for l in t if l[0] == "nd"})
        return self.ev(e.body) | self.ev(e.orelse)

    def x_Compare(self, e):
        vs = [self.ev(x) for x in [e.left] + e.comparators]
        if all(isinstance(o, (ast.In, ast.NotIn)) for o in e.ops):
            return {l for l in vs[0] if l[0] == "nd"}
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return set()
        if all(isinstance(o, (ast.Eq, ast.NotEq)) for o in e.ops) and all(_isid(x) for x in [e.left] + e.comparators):
            return set()
        out = set()
        for v in vs:
            out |= {l if l[0] == "nd" else nd(l[1]) for l in v if l != SET}
        return out

    def x_Subscript(self, e):
        v = self.ev(e.value)
        i = self.ev(e.slice) if not isinstance(e.slice, ast.Slice) else set()
        out = {l for l in v if l[0] == "nd"} | {l for l in i if l[0] == "nd" and "identity" not in l[1]}
        if any(l[0] == "unord" for l in v):
            out |= {nd(l[1]) for l in v if l[0] == "unord"} if not isinstance(e.slice, ast.Slice) else {l for l in v if l[0] == "unord"}
        return out

    def x_JoinedStr(self, e):
        return {l for x in e.values for l in self.ev(x) if l[0] == "nd" or l[0] == "unord"}

    def x_FormattedValue(self, e):
        return self.ev(e.value)

    def x_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else set()
        if self.loops:
            v = v | {("unord", "order of a set")}
        self.F.ret.setdefault(self.f, set()).update(v)
        self.sink(e, "return", v)
        return set()

    def x_Starred(self, e):
        v = self.ev(e.value)
        return {l for l in v if l != SET} | ({("unord", "order of a set")} if SET in v else set())

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def ints(self, e):
        """elements are integers: such sets have one order in every process"""
        if isinstance(e, ast.Call):
            n = self.name(e.func)
            return n in ("builtins.range", "numpy.arange", "builtins.len", "numpy.nonzero", "numpy.flatnonzero", "numpy.argsort", "builtins.int", "builtins.enumerate") or n in ("builtins.list", "builtins.set") and e.args and self.ints(e.args[0])
        if isinstance(e, (ast.SetComp, ast.ListComp, ast.GeneratorExp)):
            t = e.generators[0]
            return isinstance(e.elt, ast.Name) and isinstance(t.target, ast.Name) and t.target.id == e.elt.id and self.ints(t.iter)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
        return False

    def name(self, fn):
        base = fn
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name) and base.id in self.limports:
            return ast.unparse(fn).replace(base.id, self.limports[base.id], 1)
        if isinstance(fn, ast.Name) and (fn.id in self.env and fn.id not in self.m.imports):
            return None
        r = self.F.prog.resolve_expr(self.m, fn)
        if isinstance(r, str):
            return r.replace("numpy.random.mtrand.", "numpy.random.")
        return r

    def x_Call(self, e):
        fn = e.func
        if isinstance(fn, ast.Attribute) and (fn.attr in LOGS or fn.attr == "set_printoptions"):
            for a in e.args:
                self.ev(a)
            return set()
        n = self.name(fn)
        args = list(e.args) + [k.value for k in e.keywords]
        vs = [self.ev(a) for a in args]
        allv = set().union(*vs) if vs else set()
        nds = {l for l in allv if l[0] == "nd"}
        un = {l for l in allv if l[0] == "unord"}
        if isinstance(n, str):
            if n in ("builtins.set", "builtins.frozenset"):
                return nds | (set() if e.args and self.ints(e.args[0]) else {SET})
            if n in CLOCK:
                return {nd("the clock: " + n)}
            if n in PROCESS:
                return set() if n == "builtins.hash" and self.f.name == "__hash__" else {nd(("object identity: " if n == "builtins.id" else "the process: ") + n.replace("builtins.", ""))}
            if n in PRIVATE:
                if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
                    self.sink(e, "generator", {nd("an unseeded private generator: " + n)})
                    return {nd("an unseeded private generator: " + n)}
                return nds
            if n.startswith("random.") and n.split(".")[1] in ("random", "choice", "choices", "shuffle", "sample", "randint", "uniform", "gauss", "randrange", "normalvariate", "betavariate", "triangular"):
                return {nd("a generator not governed by the seed: " + n)}
            if n.startswith("torch.") and n.split(".")[-1] in ("rand", "randn", "randint", "randperm", "rand_like", "randn_like", "normal", "multinomial", "bernoulli", "draw_sobol_samples"):
                return {nd("a generator not governed by the seed: " + n)}
            if n in UNORDERED:
                return {("unord", n)}
            if n.startswith("numpy.random."):
                self.sink(e, "draw", nds | {nd(l[1]) for l in un})
                if self.loops:
                    return {nd("random draws in the order of a set")} | nds
                return nds | {nd(l[1]) for l in un}
            if n in SAFE:
                if n == "builtins.print":
                    return set()
                if n in ("builtins.str", "builtins.repr"):
                    return nds | {nd(l[1]) for l in un} | ({nd("order of a set")} if SET in allv else set())
                if n == "builtins.sorted":
                    key = next((k.value for k in e.keywords if k.arg == "key"), None)
                    if isinstance(key, ast.Name) and key.id in ("id", "hash"):
                        return {("unord", "object identity")}
                return nds
            if n in ORDERING:
                return nds | un | ({("unord", "order of a set")} if SET in allv else set())
            if n == "builtins.next":
                return nds | {nd(l[1]) for l in un} | ({nd("order of a set")} if SET in allv else set())
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
            if SET in recv:
                if fn.attr in SETOPS:
                    return nds | {SET}
                if fn.attr == "pop":
                    return {nd("order of a set")}
                if fn.attr in ("add", "update", "discard", "remove", "issubset", "issuperset", "isdisjoint"):
                    return nds
            if fn.attr in ("append", "extend", "insert", "appendleft"):
                v = nds | un
                if self.loops or SET in allv and fn.attr == "extend":
                    v = v | {("unord", "order of a set")}
                self.assign_into(fn.value, v)
                return set()
            if fn.attr in ("update", "setdefault") and (self.loops or un):
                self.assign_into(fn.value, nds | un | {("unord", "order of a set")})
                return set()
            if fn.attr == "sort" and not e.args and isinstance(fn.value, ast.Name):
                self.env[fn.value.id] = {l for l in self.env.get(fn.value.id, set()) if l[0] != "unord"}
                return set()
            if fn.attr == "join":
                return nds | un | ({("unord", "order of a set")} if SET in allv else set())
            if fn.attr in ("index", "count"):
                return {nd(l[1]) for l in recv if l[0] == "unord" and fn.attr == "index"} | nds
            out = nds | {nd(l[1]) for l in un} | {l for l in recv if l[0] in ("nd", "unord")}
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and self.c is not None:
                g = self.c.method(fn.attr)
                if g is not None:
                    self.hand(g, e, 1)
                    return nds | {l for l in recv if l[0] == "nd"} | self.F.ret.get(g, set())
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.c is not None:
                k = self.c.mro()
                g = next((x.methods[fn.attr] for x in k[1:] if hasattr(x, "methods") and fn.attr in x.methods), None)
                if g is not None:
                    self.hand(g, e, 1)
                    return nds | self.F.ret.get(g, set())
            if isinstance(n, Func):
                if "logger" in n.name:
                    return set()
                return out | self.F.ret.get(n, set())
            return out
        if isinstance(n, Cls) and n.method("__init__") is not None:
            self.hand(n.method("__init__"), e, 1)
            return nds
        if isinstance(n, Func):
            if "logger" in n.name:
                return set()
            self.hand(n, e, 0)
            return nds | self.F.ret.get(n, set())
        if isinstance(fn, ast.Name):
            nds |= {l for l in self.env.get(fn.id, set()) if l[0] == "nd"}
        return nds | {nd(l[1]) for l in un}


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return t


def _isid(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "id"
