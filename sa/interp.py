"""Value-flow analysis of Python source: a gated-SSA style abstract interpreter.

Every function is evaluated once per calling context over an abstract state (environment + heap of value-flow
terms).  Branches are joined with gated phi terms, loops are summarised (map / sum / update-all / mu), repo calls are
inlined, everything external stays an uninterpreted application.  Nothing of the analysed program is executed."""
import ast

from .loader import AnalysisBroken, Cls, Func, Module, Program
from .term import *  # noqa
from . import term as _t

MAXDEPTH = 40

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

# receiver methods that are the same operation as a numpy function
NPMETH = {"sum", "mean", "std", "min", "max", "argmin", "argmax", "argsort", "any", "all", "dot", "cumsum",
          "prod", "clip", "var", "round", "repeat"}
# operations yielding a value of the same rows/length as their first argument
WRITES0 = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle"}
SAMELEN = {"list", "tuple", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", "copy", "tolist", "astype",
           "numpy.isnan", "numpy.isinf", "enumerate", "to_dict", "Solution", "reversed", "sorted", "numpy.sort",
           "numpy.argsort", "items", "keys", "values", "to_list", "numpy.abs"}
SCALAR = {"len", "isinstance", "int", "float", "bool", "str", "hasattr", "abs", "max", "min", "any", "all", "id", "repr",
          "hash", "type", "issubclass", "callable", "next", "getattr", "sum", "numpy.any", "numpy.all",
          "numpy.isclose", "round", "format"}
IGNORED_CALLS = {"print", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter"}
LOG_METHODS = {"info", "warning", "debug", "error", "critical", "exception", "log"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Ev:
    __slots__ = ("kind", "name", "args", "kw", "pc", "node", "func", "raw", "loop", "res", "heap", "seq", "stack", "tries")

    def __init__(self, kind, name, args, kw, pc, node, func, raw=None, loop=(), res=None, stack=()):
        self.kind, self.name, self.args, self.kw, self.pc = kind, name, args, kw, pc
        self.node, self.func, self.raw, self.loop, self.res, self.stack = node, func, raw, loop, res, stack

    @property
    def where(self):
        if self.func is None:
            return "?"
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', 0)} in {self.func.qual}"

    def __repr__(self):
        return f"<{self.kind} {self.name}({', '.join(map(show, self.args))}, {self.kw}) @{self.where} pc={list(self.pc)}>"


class St:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def fork(self, *conds):
        return St(dict(self.env), dict(self.heap), self.pc + tuple(c for c in conds if c is not TRUE))


def _callables(c):
    if c.op == "phi":
        return _callables(c.a[1]) and _callables(c.a[2])
    return c.op in ("partial", "closure", "func", "bound", "cls", "obj", "mod", "const")


class Frame:
    def __init__(self, func, cls=None):
        self.func, self.cls = func, cls
        self.exits = []
        self.tries = 0


class Interp:
    def __init__(self, prog, opaque=(), opaque_funcs=(), types=None, budget=400000):
        self.prog = prog
        self.crash, self.withs, self.hooks, self.watch = None, [], {}, None
        self.opaque = set(opaque)            # class names whose construction / methods stay uninterpreted
        self.opaque_funcs = set(opaque_funcs)  # qualified function names that stay uninterpreted
        self.types = types or {}             # sym/attr term text -> class name
        self.events = []
        self.trying = []
        self.quiet = 0
        self.n = 0
        self.frames = []
        self.loops = []
        self.init = {}
        self.closures, self.closure_home = {}, {}
        self.objs = {}
        self.funcs = {}
        self.st = St({}, {}, ())
        self.steps = 0
        self.budget = budget
        self.mod_cache = {}
        self.notes = []
        self.analysed = set()
        self.listrecs = set()

    # ------------------------------------------------------------------ basics
    def fresh(self, content):
        self.n += 1
        r = mk("new", self.n)
        self.st.heap[r] = self.init[r] = content
        return r

    def new_obj(self, cls, closed):
        self.n += 1
        o = mk("obj", self.n, cls.name if isinstance(cls, Cls) else cls)
        self.objs[o] = (cls, closed)
        return o

    def fterm(self, f, recv=None):
        key = (f.module.name, f.qual, f.node.lineno)
        self.funcs[key] = f
        if recv is not None:
            return mk("bound", recv, mk("func", *key))
        return mk("func", *key)

    def cterm(self, c):
        self.funcs[("cls", c.qual)] = c
        return mk("cls", c.qual)

    def ev(self, kind, name=None, args=(), kw=None, node=None, raw=None, res=None):
        if self.quiet:
            return
        f = self.frames[-1].func if self.frames else None
        e = Ev(kind, name, tuple(args), kw or {}, self.st.pc, node, f, raw, tuple(self.loops), res,
               tuple(fr.func.qual for fr in self.frames))
        e.seq = len(self.events)
        e.tries = tuple(self.trying)
        self.events.append(e)
        if self.watch is not None:
            self.watch(e)
        if self.crash is not None and kind in ("call", "mcall", "acall", "new"):
            if self.crash(e):
                raise _Crash(e)

    # ------------------------------------------------------------------ heap
    def content(self, r, heap=None):
        heap = self.st.heap if heap is None else heap
        if r in heap:
            return heap[r]
        return mk("sym", r.a[0]) if r.op == "ref" else r

    def dflt(self, k):
        """content of a heap key nothing was stored under"""
        if isinstance(k, tuple):
            return self.default_attr(*k)
        return mk("sym", k.a[0]) if k.op == "ref" else k

    def rd(self, t):
        if t.op in ("new", "sym", "ref"):
            return self.content(t)
        if t.op == "view":
            return read_path(self.rd(t.a[0]), t.a[1:])
        if t.op == "phi":
            a, b = self.rd(t.a[1]), self.rd(t.a[2])
            return t if (a is t.a[1] and b is t.a[2]) else phi(t.a[0], a, b, True)
        return t

    def deep(self, t, heap=None):
        if heap is not None:
            old, self.st.heap = self.st.heap, heap
            try:
                return self.deep(t)
            finally:
                self.st.heap = old
        busy = set()
        h = self.st.heap
        memo = {}

        def f(x):
            if x.op in ("const", "bv", "obj", "cls", "func", "mod", "rec"):
                return x
            if x.op in ("new", "sym", "ref"):
                if x in busy:
                    return x
                c = h.get(x)
                if c is None or c is x:
                    return mk("sym", x.a[0]) if x.op == "ref" else x
                busy.add(x)
                r = go(c)
                busy.discard(x)
                return r
            if x.op == "view":
                return read_path(go(x.a[0]), [go(p) for p in x.a[1:]])
            return None

        def clean(x):
            if x.hasview:
                return False
            r = x.refs
            if not r:
                return True
            if len(r) < len(h):
                for y in r:
                    if y.op == "ref" or (y in h and h[y] is not y):
                        return False
                return True
            return False

        def go(x):
            if not isinstance(x, T):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if clean(x):
                memo[x] = x
                return x
            r = f(x)
            if r is None:
                a = tuple([go(y) for y in x.a])
                r = x
                for p, q in zip(a, x.a):
                    if p is not q:
                        r = build(x.op, *a)
                        break
            memo[x] = r
            return r
        return go(t)

    def root(self, t):
        """-> (root ref, path) of an lvalue-capable term, or None"""
        if t.op in ("new", "sym", "ref"):
            return t, ()
        if t.op == "view":
            return t.a[0], t.a[1:]
        if t.op in ("attr", "item"):
            r = self.root(t.a[0])
            if r:
                return r[0], r[1] + ((pattr(t.a[1]) if t.op == "attr" else pitem(t.a[1])),)
        return None

    def view(self, t, p):
        """read step p of reference t, keeping aliasing"""
        if t.op == "phi":
            return phi(t.a[0], self.view(t.a[1], p), self.view(t.a[2], p), True)
        c = self.rd(t)
        if c.op == "phi" and t.op in ("new", "sym", "ref"):
            # references stored inside both alternatives
            x, y = self._peek(c.a[1], p), self._peek(c.a[2], p)
            if x is not None and y is not None:
                return phi(c.a[0], x, y, True)
        v = self._peek(c, p)
        r = self.root(t)
        if v is not None:
            # an element made by a call is an object of its own: keep the alias so that writes reach the container
            if c.op in ("map", "cat") and v.op in ("call", "mcall", "acall") and r and p.op == "pitem":
                return mk("view", r[0], *(r[1] + (p,)))
            return v
        if r and (p.op == "pattr" or c.op not in ("list", "tuple", "dict", "const")):
            return mk("view", r[0], *(r[1] + (p,)))
        return step(c, p)

    def _peek(self, c, p):
        """value of step p when the container itself stores it (list, dict, updated path)"""
        if c.op in ("list", "tuple", "dict", "map", "cat", "zipT"):
            v = step(c, p)
            return None if (v.op in ("item", "attr") and v.a[0] is c) else v
        if c.op == "updp":
            q = c.a[1].a
            if q[0] is p and len(q) == 1:
                return c.a[2]
            if disjoint(q[0], p):
                return self._peek(c.a[0], p)
        return None

    def store(self, t, path, v, node=None, how="store"):
        """write v at path below reference t"""
        if t.op == "phi":
            h0 = dict(self.st.heap)
            self.store(t.a[1], path, v, node, how)
            h1 = self.st.heap
            self.st.heap = h0
            h0 = dict(h0)
            self.store(t.a[2], path, v, node, how)
            h2 = self.st.heap
            for k in set(h1) | set(h2):
                x, y = h1.get(k), h2.get(k)
                if x is y:
                    continue
                if x is None or y is None:
                    d = self.dflt(k)
                    x, y = d if x is None else x, d if y is None else y
                h2[k] = phi(t.a[0], x, y)
            return
        if t.op == "obj":
            if len(path) == 1 and path[0].op == "pattr":
                self.st.heap[(t, path[0].a[0])] = v
            elif path and path[0].op == "pattr":
                self.store(self.getattr(t, path[0].a[0], node), path[1:], v, node, how)
            return
        r = self.root(t)
        self.ev("mut", how, (t,) + tuple(path), {"value": self.deep(v)}, node, raw=r[0] if r else t)
        if r is None:
            return
        base, pre = r
        full = tuple(self.deep(p) for p in pre + tuple(path))
        c = self.content(base)
        # writing through a container that holds a reference
        for k in range(len(full) - 1, 0, -1):
            sub = read_path(c, full[:k]) if k else c
            if isinstance(sub, T) and sub.op in ("new", "sym", "ref") and sub is not base:
                self.store(sub, full[k:], v, node, how)
                return
        if self.reaches(v, base):  # storing a part of the object into the object itself: keep the part as it is now
            v = self.deep(v)
        self.st.heap[base] = upd(c, full, v)

    def reaches(self, v, base, depth=4):
        if not isinstance(v, T):
            return False
        seen, st = set(), [(v, 0)]
        while st:
            x, k = st.pop()
            for y in x.refs or ():
                if y is base:
                    return True
                if y not in seen and k < depth:
                    seen.add(y)
                    c = self.st.heap.get(y)
                    if c is not None and c is not y:
                        st.append((c, k + 1))
        return False

    def setcontent(self, t, c, node=None, how="mut", args=()):
        if t.op == "phi":
            for x, cond in ((t.a[1], t.a[0]), (t.a[2], neg(t.a[0]))):
                if x.op in ("new", "sym", "ref", "view", "phi"):
                    old = self.rd(x)
                    self.setcontent(x, phi(cond, c, old), node, how, args)
            return
        r = self.root(t)
        self.ev("mut", how, (t,) + tuple(args), {}, node, raw=r[0] if r else t)
        if r is None:
            return
        if not r[1]:
            self.st.heap[r[0]] = c
        else:
            self.st.heap[r[0]] = upd(self.content(r[0]), tuple(self.deep(p) for p in r[1]), c)

    # ------------------------------------------------------------------ objects
    def objinfo(self, t):
        return self.objs.get(t)

    def typed(self, t):
        """class of a symbolic value, from the type hints"""
        k = show(t)
        n = self.types.get(k)
        if n is None and t.op == "view":
            n = self.types.get(show(self.deep(t)))
        return self.prog.cls(n) if n else None

    def default_attr(self, o, name):
        cls, closed = self.objs[o]
        if closed is True:
            return UNDEF
        return mk("ref", f"{'self' if closed is False else closed}.{name}")

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            for fr in reversed(self.frames[-1:]):
                c = fr.func.cls
                if c is not None:
                    return "_" + c.name.lstrip("_") + name
        return name

    def getattr(self, o, name, node=None):
        if o.op == "phi":
            return phi(o.a[0], self.getattr(o.a[1], name, node), self.getattr(o.a[2], name, node), True)
        if o.op == "obj":
            key = (o, name)
            cls, closed = self.objs[o]
            k, f, owner = cls.find(name) if isinstance(cls, Cls) else (None, None, None)
            if k == "getter":
                return self.call_func(f, [o], {}, node)
            if key in self.st.heap:
                v = self.st.heap[key]
                if v is UNDEF or (v.op == "phi" and contains(v, UNDEF)):
                    self.ev("undef", name, (o, v), {}, node)
                return v
            if name == "__class__":
                return self.cterm(cls)
            if name == "__dict__":
                return mk("dictof", o)
            if k == "method":
                if name.startswith("__") and not name.endswith("__"):
                    pass
                return self.bind(f, o)
            if k == "attr":
                return self.eval_in_module(f, owner.module)
            v = self.default_attr(o, name)
            if v is UNDEF:
                if any(isinstance(b, str) and b not in ("abc.ABC", "object", "builtins.object") for b in cls.ext_bases()):
                    return mk("attr", o, name)
                self.ev("undef", name, (o, v), {}, node)
            else:
                self.st.heap[key] = v
                if name == "logger":
                    pass
            return v
        if o.op == "superv":
            return mk("attr", o, name)
        if o.op == "super":
            self_, cname = o.a
            cls = self.objs[self_][0] if self_.op == "obj" else self.funcs[("cls", self_.a[0])]
            here = self.funcs[("cls", cname)]
            k, f, owner = cls.find(name, after=here)
            if k == "method":
                return self.bind(f, self_)
            if k == "getter":
                return self.call_func(f, [self_], {}, node)
            if k == "attr":
                return self.eval_in_module(f, owner.module)
            return mk("attr", o, name)
        if o.op == "cls":
            c = self.funcs[("cls", o.a[0])]
            if name == "__name__":
                return const(c.name)
            k, f, owner = c.find(name)
            if k == "method":
                if f.kind == "classmethod":
                    return self.bind(f, o)
                return self.fterm(f)
            if k == "attr":
                return self.eval_in_module(f, owner.module)
            if k == "getter":
                return mk("attr", o, name)
            return mk("attr", o, name)
        if o.op == "mod":
            return self.mod_attr(o.a[0], name)
        if o.op in ("func", "closure", "bound", "partial"):
            if name == "__name__":
                return mk("sym", "__name__")
            return mk("attr", o, name)
        tc = self.typed(o)
        if tc is not None:
            k, f, owner = tc.find(name)
            if k == "method":
                return self.bind(f, o)
            if k == "getter" and tc.name not in self.opaque:
                return self.call_func(f, [o], {}, node)
        if o.op in ("new", "sym", "ref", "view"):
            return self.view(o, pattr(name))
        return attr(o, name)

    def bind(self, f, o):
        if f.kind == "staticmethod":
            return self.fterm(f)
        if f.kind == "classmethod" and o.op == "obj":
            o = self.cterm(self.objs[o][0])
        return self.fterm(f, o)

    def setattr(self, o, name, v, node=None):
        if o.op == "phi":
            h0 = dict(self.st.heap)
            self.setattr(o.a[1], name, v, node)
            h1 = self.st.heap
            self.st.heap = dict(h0)
            self.setattr(o.a[2], name, v, node)
            self.st.heap = self.join_heap(o.a[0], h1, self.st.heap)
            return
        if o.op == "obj":
            cls, closed = self.objs[o]
            s = cls.find_setter(name) if isinstance(cls, Cls) else None
            if s is not None:
                self.call_func(s, [o, v], {}, node)
                return
            self.ev("setattr", name, (o, v), {"old": self.st.heap.get((o, name))}, node)
            self.st.heap[(o, name)] = v
            return
        self.ev("setattr", name, (o, v), {}, node)
        self.store(o, (pattr(name),), v, node, "setattr")

    def rawset(self, o, name, v, node):
        """attribute store that bypasses the class's own __setattr__"""
        if o.op == "obj":
            self.ev("setattr", name, (o, v), {"old": self.st.heap.get((o, name))}, node)
            self.st.heap[(o, name)] = v
        else:
            self.setattr(o, name, v, node)

    def hasattr_(self, o, name):
        if o.op == "obj":
            cls, closed = self.objs[o]
            k, _, _ = cls.find(name) if isinstance(cls, Cls) else (None, None, None)
            if k:
                return TRUE
            if (o, name) in self.st.heap:
                return self._has(o, name, self.st.heap[(o, name)])
            if closed is True and not any(isinstance(b, str) and b not in ("abc.ABC", "object", "builtins.object") for b in cls.ext_bases()):
                return FALSE
            return mk("hasattr", o, name)
        if o.op in ("cls",):
            c = self.funcs[("cls", o.a[0])]
            k, _, _ = c.find(name)
            return TRUE if k else FALSE
        if o.op in ("func", "closure", "bound", "partial") and name == "__call__":
            return TRUE
        d = self.deep(o)
        if d.op in ("list", "tuple", "map", "set", "dict", "cat") and name == "__iter__":
            return TRUE
        if d.op == "const" and name == "__iter__":
            return const(hasattr(d.a[0], "__iter__"))
        return mk("hasattr", d, name)

    def _has(self, o, name, v):
        if v is UNDEF:
            return FALSE
        if v.op == "phi":
            return phi(v.a[0], self._has(o, name, v.a[1]), self._has(o, name, v.a[2]))
        if v is self.default_attr(o, name):
            return mk("hasattr", o, name)
        return TRUE

    # ------------------------------------------------------------------ modules
    def mod_attr(self, mname, name):
        m = self.prog.modules.get(mname)
        if m is None:
            return self.ext(f"{mname}.{name}")
        r = self.prog.lookup_name(m, name)
        return self.from_resolved(r, f"{mname}.{name}")

    def ext(self, dotted):
        if dotted.startswith("np."):
            dotted = "numpy." + dotted[3:]
        return mk("mod", dotted)

    def from_resolved(self, r, dotted):
        if isinstance(r, Func):
            return self.fterm(r)
        if isinstance(r, Cls):
            return self.cterm(r)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if isinstance(r, tuple):
            _, m, n = r
            return self.eval_in_module(m.globals[n], m, n)
        if isinstance(r, str):
            return self.ext(r)
        return self.ext(dotted)

    def eval_in_module(self, expr, m, name=None):
        key = (m.name, id(expr))
        if key in self.mod_cache:
            c = self.mod_cache[key]
            if isinstance(c, tuple):
                r, content = c
                if r not in self.st.heap:
                    self.st.heap.update(content)
                return r
            return c
        f = Func.__new__(Func)
        f.name, f.qual, f.node, f.module, f.cls, f.kind, f.decorators = "<module>", f"<module {m.name}>", expr, m, None, "function", []
        self.frames.append(Frame(f))
        old = self.st
        self.st = St({}, dict(old.heap), old.pc)
        self.quiet += 1
        before = set(self.st.heap)
        try:
            v = self.eval(expr)
            if name and v.op == "new":
                pass
        finally:
            self.quiet -= 1
            self.frames.pop()
            added = {k: x for k, x in self.st.heap.items() if k not in before}
            self.st = old
        self.st.heap.update(added)
        self.mod_cache[key] = (v, added)
        return v

    def lookup(self, name, node=None):
        env = self.st.env
        if name in env:
            v = env[name]
            if v is UNDEF or (v.op == "phi" and contains_light(v, UNDEF)):
                self.ev("undefvar", name, (v,), {}, node)
            return v
        fr = self.frames[-1]
        clo = getattr(fr, "closure_env", None)
        if clo is not None and name in clo:
            return clo[name]
        m = fr.func.module
        r = self.prog.lookup_name(m, name)
        if r is None:
            if name in BUILTINS:
                return mk("mod", name)
            return mk("sym", name)
        return self.from_resolved(r, name)

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("analysis budget exceeded")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("unk", type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return mk("ellipsis")
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                self.quiet += 1
                parts.append(self.deep(self.eval(v.value)))
                self.quiet -= 1
        if all(p.op == "const" for p in parts):
            return const("".join(str(p.a[0]) for p in parts))
        return mk("fstr", *parts)

    def e_Starred(self, e):
        return mk("star", self.eval(e.value))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def seq(self, elts):
        out = []
        for x in elts:
            v = self.eval(x)
            if v.op == "star":
                c = self.rd(v.a[0])
                if c.op in ("list", "tuple"):
                    out.extend(c.a)
                    continue
                v = mk("star", self.deep(v.a[0]))
            out.append(v)
        return out

    def e_List(self, e):
        els = self.seq(e.elts)
        if any(x.op == "star" for x in els):
            c = mk("list")
            for x in els:
                c = cat(c, x.a[0] if x.op == "star" else mk("list", x))
            return self.fresh(c)
        return self.fresh(mk("list", *els))

    def e_Tuple(self, e):
        return mk("tuple", *self.seq(e.elts))

    def e_Set(self, e):
        return self.fresh(mk("set", *self.seq(e.elts)))

    def e_Dict(self, e):
        kvs = []
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.deep(self.eval(v))
                if c.op == "dict":
                    for kv in c.a:
                        kvs = [x for x in kvs if x.a[0] is not kv.a[0]] + [kv]
                else:
                    base = mk("dictupd", mk("dict", *kvs) if base is None else (mk("dictupd", base, mk("dict", *kvs)) if kvs else base), c)
                    kvs = []
            else:
                kk = self.deep(self.eval(k))
                vv = self.eval(v)
                kvs = [x for x in kvs if x.a[0] is not kk] + [mk("kv", kk, vv)]
        c = mk("dict", *kvs)
        if base is not None:
            c = mk("dictupd", base, c) if kvs else base
        return self.fresh(c)

    def e_Lambda(self, e):
        return self.mkclosure(e, "<lambda>")

    def mkclosure(self, node, name):
        fr = self.frames[-1]
        f = Func.__new__(Func)
        f.name, f.node, f.module, f.cls, f.kind = name, node, fr.func.module, fr.func.cls, "function"
        f.qual = fr.func.qual + "." + name
        f.decorators = []
        if isinstance(node, ast.FunctionDef):
            f.decorators = list(node.decorator_list)
        self.n += 1
        t = mk("closure", self.n, name, *[mk("bv", d) for _, d in self.loops])
        env = dict(getattr(fr, "closure_env", None) or {})
        env.update(self.st.env)
        defaults = [self.eval(d) for d in node.args.defaults]
        kwd = [self.eval(d) if d is not None else None for d in node.args.kw_defaults]
        self.closures[t.a[0]] = (f, env, defaults, kwd, fr)
        self.closure_home[t.a[0]] = (t, list(self.loops))
        return t

    def e_BoolOp(self, e):
        vals = []
        op = "and" if isinstance(e.op, ast.And) else "or"
        pc0 = self.st.pc
        for v in e.values:
            x = self.eval(v)
            vals.append(x)
            d = self.deep(x)
            tv = self.decide(d)
            if (op == "and" and tv is False) or (op == "or" and tv is True):
                break
            c = d if op == "and" else neg(d)
            if c is not TRUE:
                self.st.pc = self.st.pc + (c,)
        self.st.pc = pc0
        # drop decided operands
        keep = []
        for i, x in enumerate(vals):
            tv = self.decide(self.deep(x))
            if i < len(vals) - 1 and ((op == "and" and tv is True) or (op == "or" and tv is False)):
                continue
            keep.append(x)
        r = keep[-1]
        for x in reversed(keep[:-1]):
            dx = self.deep(x)
            if _boolish(dx):
                r = build(op, dx, self.deep(r)) if _boolish(self.deep(r)) else (phi(dx, r, FALSE) if op == "and" else phi(dx, TRUE, r))
            else:
                r = phi(dx, r, x) if op == "and" else phi(dx, x, r)
        return r

    def decide(self, c):
        tv = truth(c)
        if tv is not None:
            return tv
        pcs = self.st.pc
        return decide_under(c, pcs)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            d = self.deep(v)
            tv = self.decide(d)
            return const(not tv) if tv is not None else neg(d)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        d = self.deep(v)
        return self.fresh_if_array(un(op, d))

    def fresh_if_array(self, t):
        return t

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        return self.binop(BINOPS[type(e.op)], a, b, e)

    def binop(self, op, a, b, node):
        dun = {"+": "__add__", "-": "__sub__", "*": "__mul__"}.get(op)
        if dun and a.op == "obj":
            k, f, _ = self.objs[a][0].find(dun)
            if k == "method":
                return self.call_func(f, [a, b], {}, node)
        da, db = self.deep(a), self.deep(b)
        ra, rb = self.rd(a), self.rd(b)
        SEQ = ("list", "map", "cat", "flatmap")
        if op == "+" and ra.op in SEQ and rb.op in SEQ:
            return self.fresh(binop("+", ra, rb))
        if op == "+" and (ra.op in SEQ) != (rb.op in SEQ) and (ra.op == "phi" or rb.op == "phi"):
            return self.fresh(cat2(listarg(ra), listarg(rb)))
        r = binop(op, da, db)
        if r.op == "list":
            return self.fresh(r)
        return r

    def e_Compare(self, e):
        vals = [self.eval(e.left)]
        parts = []
        for o, r in zip(e.ops, e.comparators):
            y = self.eval(r)
            x = vals[-1]
            vals.append(y)
            op = CMPOPS[type(o)]
            if op in ("==", "!=") and x.op == "obj":
                k, f, _ = self.objs[x][0].find("__eq__" if op == "==" else "__ne__")
                if k == "method":
                    parts.append(self.deep(self.call_func(f, [x, y], {}, e)))
                    continue
            parts.append(self.cmp(op, x, y))
        if len(parts) == 1:
            return parts[0]
        return build("and", *parts)

    def cmp(self, op, x, y):
        if op in ("is", "is not") and x.op in ("new", "obj") and isc(y, None):
            dx = self.deep(x)
            if dx.op in ("call", "mcall", "acall") and _maybe_none(dx):
                return cmp_(op, dx, y)
            if dx.op in ("phi", "sym"):
                return cmp_(op, dx, y)
            return const(op == "is not")
        r = cmp_(op, self.deep(x), self.deep(y))
        return r

    def e_IfExp(self, e):
        c = self.eval_cond(e.test)
        tv = self.decide(c)
        if tv is True:
            return self.eval(e.body)
        if tv is False:
            return self.eval(e.orelse)
        base = self.st
        s1 = base.fork(c)
        self.st = s1
        a = self.eval(e.body)
        s1 = self.st
        self.st = base.fork(neg(c))
        b = self.eval(e.orelse)
        s2 = self.st
        self.st = self.join(c, s1, s2, base.pc)
        return phi(c, a, b)

    def eval_cond(self, e):
        return self.deep(self.eval(e))

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, self.mangle(e.attr), e)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        i = self.index(e.slice)
        return self.getitem(b, i, e)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.deep(self.eval(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.index(x) for x in s.elts])
        return self.deep(self.eval(s))

    def getitem(self, b, i, node=None):
        if b.op == "phi":
            return phi(b.a[0], self.getitem(b.a[1], i, node), self.getitem(b.a[2], i, node), True)
        if b.op == "obj":
            k, f, _ = self.objs[b][0].find("__getitem__")
            if k == "method" and self.objs[b][0].name not in self.opaque:
                return self.call_func(f, [b, i], {}, node)
            return item(b, i)
        if b.op == "dictof" and i.op == "const":
            return self.getattr(b.a[0], i.a[0], node)
        if b.op in ("new", "sym", "ref", "view"):
            if self.rd(b).op == "mod":
                return item(self.rd(b), i)
            return self.view(b, pitem(i))
        if b.op == "mod":
            return mk("call", b.a[0] + "[]", i)
        return item(b, i)

    # ------------------------------------------------------------------ comprehensions
    def comp(self, gens, elt, kind):
        """-> content term"""
        env0 = dict(self.st.env)
        t = self._comp(gens, 0, elt, kind)
        self.st.env = env0
        return t

    def _comp(self, gens, k, elt, kind):
        g = gens[k]
        it = self.eval(g.iter)
        lits = self.literal_iter(it)
        if lits is not None:
            out = mk("list") if kind != "dict" else mk("dict")
            for x in lits:
                self.assign(g.target, x)
                c = TRUE
                for i in g.ifs:
                    c = build("and", c, self.eval_cond(i))
                tv = self.decide(c)
                if tv is False:
                    continue
                if k + 1 < len(gens):
                    sub = self._comp(gens, k + 1, elt, kind)
                else:
                    if kind == "dict":
                        kk, vv = self.deep(self.eval(elt[0])), self.eval(elt[1])
                        sub = mk("dict", mk("kv", kk, vv))
                    else:
                        sub = mk("list", self.eval(elt))
                if tv is None:
                    sub = phi(c, sub, mk("list") if kind != "dict" else mk("dict"))
                if kind == "dict":
                    out = dict_update(out, sub)
                else:
                    out = cat2(out, sub)
            return out
        d = len(self.loops)
        dom, el = self.iter_elem(it, d)
        self.loops.append((dom, d))
        try:
            self.assign(g.target, el)
            c = TRUE
            pc0 = self.st.pc
            for i in g.ifs:
                x = self.eval_cond(i)
                c = build("and", c, x)
                self.st.pc = self.st.pc + (x,)
            if k + 1 < len(gens):
                sub = self._comp(gens, k + 1, elt, kind)
                r = mk("flatmap", dom, sub, c, d) if kind != "dict" else mk("dictflat", dom, sub, c, d)
            elif kind == "dict":
                kk, vv = self.deep(self.eval(elt[0])), self.deep(self.eval(elt[1]))
                r = mk("dictmap", dom, kk, vv, c, d)
            else:
                v = self.eval(elt)
                v = v if v.op in ("closure", "partial", "bound", "obj") else self.deep(v)
                r = mkmap(dom, v, c, d)
            self.st.pc = pc0
        finally:
            self.loops.pop()
        return r

    def e_ListComp(self, e):
        return self.fresh(self.comp(e.generators, e.elt, "list"))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return self.fresh(mk("call", "set", self.comp(e.generators, e.elt, "list")))

    def e_DictComp(self, e):
        return self.fresh(self.comp(e.generators, (e.key, e.value), "dict"))

    def literal_iter(self, it):
        """elements of a short literal iterable"""
        c = self.rd(it)
        if c.op in ("list", "tuple", "set") and len(c.a) <= 12 and not any(x.op == "star" for x in c.a):
            return list(c.a)
        if c.op == "dict" and len(c.a) <= 12 and all(x.op == "kv" for x in c.a):
            return [x.a[0] for x in c.a]
        if c.op == "call" and c.a[0] in ("enumerate", "zip", "range", "items", "keys", "values", "list", "tuple", "reversed"):
            args = [x for x in c.a[1:] if x.op != "kw"]
            if c.a[0] == "range":
                if all(isc(x) and isinstance(x.a[0], int) for x in args) and args:
                    r = range(*[x.a[0] for x in args])
                    return [const(i) for i in r] if len(r) <= 12 else None
                return None
            ls = [self.literal_iter(x) for x in args]
            if not ls or any(x is None for x in ls):
                return None
            if c.a[0] == "enumerate":
                return [mk("tuple", const(i), x) for i, x in enumerate(ls[0])]
            if c.a[0] == "zip":
                return [mk("tuple", *x) for x in zip(*ls)]
            if c.a[0] == "reversed":
                return ls[0][::-1]
            if c.a[0] in ("list", "tuple"):
                return ls[0]
        if c.op == "mcall" and c.a[0] in ("items", "keys", "values"):
            d = self.rd(c.a[1])
            if d.op == "dict" and all(x.op == "kv" for x in d.a) and len(d.a) <= 12:
                return [mk("tuple", x.a[0], x.a[1]) if c.a[0] == "items" else x.a[0 if c.a[0] == "keys" else 1] for x in d.a]
        return None

    def iter_elem(self, it, d):
        """-> (number-of-iterations term, element term at bv(d))"""
        bv = mk("bv", d)
        c = self.rd(it)
        if c.op == "call":
            args = [x for x in c.a[1:] if x.op != "kw"]
            if c.a[0] == "enumerate" and args:
                dom, el = self.iter_elem(args[0], d)
                idx = bv if len(args) == 1 else binop("+", args[1], bv)
                return dom, mk("tuple", idx, el)
            if c.a[0] == "zip" and args and not any(a.op == "star" for a in args):
                pr = [self.iter_elem(a, d) for a in args]
                doms = []
                for x in pr:
                    if x[0] not in doms:
                        doms.append(x[0])
                dom = doms[0] if len(doms) == 1 else mk("mindom", *doms)
                return dom, mk("tuple", *[x[1] for x in pr])
            if c.a[0] == "range":
                if len(args) == 1:
                    return args[0], bv
                if len(args) == 2:
                    return binop("-", args[1], args[0]), binop("+", args[0], bv)
            if c.a[0] in ("list", "tuple", "iter") and len(args) == 1:
                return self.iter_elem(args[0], d)
            if c.a[0] == "numpy.arange" and len(args) == 1:
                return args[0], bv
            if c.a[0] == "reversed" and len(args) == 1:
                dom, el = self.iter_elem(args[0], d)
                return dom, subst_bv(el, d, binop("-", binop("-", dom, const(1)), bv))
        if c.op == "mcall" and c.a[0] == "items" and len(c.a) == 2:
            k = mk("keyat", self.deep(c.a[1]), bv)
            return lenof(self.deep(c.a[1])), mk("tuple", k, self.getitem(c.a[1], k))
        if c.op == "mcall" and c.a[0] == "keys" and len(c.a) == 2:
            return lenof(self.deep(c.a[1])), mk("keyat", self.deep(c.a[1]), bv)
        if dictlike(c):
            return lenof(self.deep(it)), mk("keyat", self.deep(it), bv)
        dd = self.deep(it)
        dom = lenof(dd)
        if dd.op == "map" and dd.a[2] is TRUE:
            return dom, subst_bv(dd.a[1], dd.a[3], bv)
        if dd.op == "map":
            return mk("call", "len", dd), item(dd, bv)
        return dom, self.getitem(it, bv)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        fn = e.func
        # super()
        if isinstance(fn, ast.Name) and fn.id == "super":
            fr = self.frames[-1]
            cls = fr.func.cls
            if e.args:
                self_ = self.eval(e.args[1])
            else:
                names = fr.func.args() if isinstance(fr.func.node, ast.FunctionDef) else []
                self_ = self.st.env.get(names[0]) if names else None
                if self_ is None:
                    self_ = (getattr(fr, "closure_env", None) or {}).get("self", mk("sym", "self"))
            if cls is None or self_.op not in ("obj", "cls"):
                return mk("superv", self_)
            self.cterm(cls)
            return mk("super", self_, cls.qual)
        # logging calls and prints have no effect on any property
        if isinstance(fn, ast.Attribute) and fn.attr in LOG_METHODS and _looks_logger(fn.value):
            return NONE
        f = self.eval(fn)
        if f.op == "mod" and f.a[0] in IGNORED_CALLS:
            return NONE
        args, kw = [], {}
        stars = []
        for a in e.args:
            v = self.eval(a)
            if v.op == "star":
                c = self.rd(v.a[0])
                if c.op in ("tuple", "list"):
                    args.extend(c.a)
                else:
                    args.append(mk("star", v.a[0]))
            else:
                args.append(v)
        extra = None
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                c = self.rd(v)
                ok = self.flatten_kw(c)
                if ok is not None:
                    kvs, rest = ok
                    kw.update(kvs)
                    if rest is not None:
                        extra = rest
                else:
                    extra = self.deep(v)
            else:
                kw[k.arg] = v
        if extra is not None:
            kw["**"] = extra
        return self.call(f, args, kw, e)

    def flatten_kw(self, c):
        """dict content -> ({name: value}, residual | None)"""
        if c.op == "dict" and all(x.op == "kv" and x.a[0].op == "const" for x in c.a):
            return {x.a[0].a[0]: x.a[1] for x in c.a}, None
        if c.op == "dictupd":
            b, o = self.flatten_kw(c.a[0]), self.flatten_kw(c.a[1])
            if o is not None and o[1] is None:
                if b is None:
                    return o[0], self.deep(c.a[0])
                d = dict(b[0])
                d.update(o[0])
                return d, b[1]
        if c.op == "updp" and len(c.a[1].a) == 1 and c.a[1].a[0].op == "pitem" and isc(c.a[1].a[0].a[0]):
            b = self.flatten_kw(c.a[0])
            d, r = b if b is not None else ({}, self.deep(c.a[0]))
            d = dict(d)
            d[c.a[1].a[0].a[0].a[0]] = c.a[2]
            return d, r
        if c.op == "kwrest":
            return {}, c
        return None

    def call(self, f, args, kw, node):
        if f.op == "phi":
            base = self.st
            self.st = base.fork(f.a[0])
            a = self.call(f.a[1], args, kw, node)
            s1 = self.st
            self.st = base.fork(neg(f.a[0]))
            b = self.call(f.a[2], args, kw, node)
            s2 = self.st
            self.st = self.join(f.a[0], s1, s2, base.pc)
            return phi(f.a[0], a, b, True)
        if f.op in ("new", "view"):
            c = self.rd(f)
            if c.op in ("partial", "closure", "func", "bound", "cls") or c.op == "phi" and _callables(c):
                return self.call(c, args, kw, node)
            f_ = f
        if f.op == "func":
            fn = self.funcs[f.a]
            return self.call_func(fn, args, kw, node)
        if f.op == "bound":
            fn = self.funcs[f.a[1].a]
            return self.call_func(fn, [f.a[0]] + list(args), kw, node)
        if f.op == "closure" and f is self.closure_home[f.a[0]][0]:
            fn, env, defaults, kwd, fr = self.closures[f.a[0]]
            if fr in self.frames:
                # late binding: the defining frame is still active
                env = dict(env)
                if fr is self.frames[-1]:
                    env.update(self.st.env)
            return self.call_func(fn, args, kw, node, closure=env, defaults=defaults, kwd=kwd)
        if f.op == "partial":
            pf = f.a[0]
            pa = [x for x in f.a[1:] if x.op != "kw"]
            pk = {x.a[0]: x.a[1] for x in f.a[1:] if x.op == "kw"}
            pk.update(kw)
            return self.call(pf, pa + list(args), pk, node)
        if f.op == "cls":
            return self.construct(self.funcs[("cls", f.a[0])], args, kw, node)
        if f.op == "obj":
            k, fn, _ = self.objs[f][0].find("__call__")
            if k == "method":
                return self.call_func(fn, [f] + list(args), kw, node)
        if f.op == "mod":
            return self.call_ext(f.a[0], args, kw, node)
        if f.op == "attr" and f.a[0].op in ("super", "superv"):
            # method of an external base class
            if f.a[1] == "__setattr__" and len(args) == 2 and isc(args[0]):
                self.rawset(f.a[0].a[0], args[0].a[0], args[1], node)
                return NONE
            self.ev("call", "super." + f.a[1], [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}, node, raw=(f, args, kw))
            return self.fresh(self.callterm("super." + f.a[1], args, kw))
        r = self.root(f)
        if f.op == "view" and f.a[-1].op == "pattr" or f.op == "attr":
            if f.op == "view":
                recv = mk("view", *f.a[:-1]) if len(f.a) > 2 else f.a[0]
                name = f.a[-1].a[0]
            else:
                recv, name = f.a
            return self.call_method(recv, name, args, kw, node)
        # unknown callable
        df = self.deep(f)
        if df.op == "item" and df.a[0].op == "dict" and 0 < len(df.a[0].a) <= 8:
            # entry of a table of callables: one guarded call per entry, KeyError otherwise
            ents = df.a[0].a
            if all(isinstance(x, T) and x.op == "kv" and isc(x.a[0]) and x.a[1].op in ("closure", "func", "cls", "mod", "partial") for x in ents):
                g = None
                for x in reversed(ents):
                    g = x.a[1] if g is None else phi(cmp_("==", df.a[1], x.a[0]), x.a[1], g)
                known = build("or", *[cmp_("==", df.a[1], x.a[0]) for x in ents])
                return phi(known, self.call(g, args, kw, node), UNDEF, True)
        da, dk = [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}
        t = mk("acall", df, *self.argterms(args, kw))
        self.ev("acall", None, [df] + da, dk, node, raw=(f, args, kw), res=t)
        return self.fresh(t)

    def argterms(self, args, kw):
        return [self.deep(a) for a in args] + [mk("kw", k, self.deep(v)) for k, v in sorted(kw.items())]

    def callterm(self, name, args, kw):
        return mk("call", name, *self.argterms(args, kw))

    LISTY = ("list", "map", "cat", "flatmap", "phi", "rec", "mu", "sym")

    def call_method(self, recv, name, args, kw, node):
        if recv.op == "phi":
            base = self.st
            self.st = base.fork(recv.a[0])
            a = self.call_method(recv.a[1], name, args, kw, node) if recv.a[1].op != "obj" else self.call(self.getattr(recv.a[1], name), args, kw, node)
            s1 = self.st
            self.st = base.fork(neg(recv.a[0]))
            b = self.call_method(recv.a[2], name, args, kw, node) if recv.a[2].op != "obj" else self.call(self.getattr(recv.a[2], name), args, kw, node)
            s2 = self.st
            self.st = self.join(recv.a[0], s1, s2, base.pc)
            return phi(recv.a[0], a, b, True)
        c = self.rd(recv)
        da, dk = [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}
        # an element of a list of the program's own objects: its methods are not those of a container
        own = False
        if recv.op == "view" and recv.a[1:] and str(recv.a[0]).startswith("self.") and all(x.op == "pitem" for x in recv.a[1:]):
            own = any(k.method(name) is not None for k in self.prog.element_classes(str(recv.a[0])[5:]))
        # containers
        if own:
            t = mk("mcall", name, self.deep(recv), *self.argterms(args, kw))
            self.ev("mcall", name, [self.deep(recv)] + da, dk, node, raw=(recv, args, kw), res=t)
            return self.fresh(t)
        if name == "append" and len(args) == 1:
            self.setcontent(recv, cat2(c, mk("list", args[0])), node, "append", args)
            return NONE
        if name == "extend" and len(args) == 1:
            self.setcontent(recv, cat2(c, self.rd(args[0])), node, "extend", args)
            return NONE
        if name == "update" and (c.op in ("dict", "dictupd", "updp", "dictmap") or c.op in ("sym", "call", "rec", "item", "attr", "mcall", "phi", "acall", "mu")):
            o = self.rd(args[0]) if args else mk("dict")
            if kw:
                o = dict_update(o, mk("dict", *[mk("kv", const(k), v) for k, v in kw.items() if k != "**"]))
                if "**" in kw:
                    o = dict_update(o, kw["**"])
            self.setcontent(recv, dict_update(c, o), node, "update", args)
            return NONE
        if name == "copy" and not args:
            return self.fresh(c if c.op in ("list", "dict", "map", "cat", "dictupd", "dictmap", "set") else mk("call", "copy.copy", self.deep(recv)))
        if name == "get" and args and c.op == "dict" and args[0].op == "const" and all(x.op == "kv" and x.a[0].op == "const" for x in c.a):
            for x in c.a:
                if x.a[0] is args[0]:
                    return x.a[1]
            return args[1] if len(args) > 1 else NONE
        if name == "get" and args:
            k = da[0]
            return phi(cmp_("in", k, self.deep(recv)), self.getitem(recv, k), args[1] if len(args) > 1 else NONE)
        if name == "setdefault" and args:
            k = da[0]
            has = cmp_("in", k, self.deep(recv))
            dflt = args[1] if len(args) > 1 else NONE
            cur = self.getitem(recv, k)
            if c.op == "dict" and all(x.op == "kv" and x.a[0].op == "const" for x in c.a) and k.op == "const":
                v = phi(has, cur, dflt)
                self.setcontent(recv, upd(c, (pitem(k),), v), node, "setdefault", args)
                return v
            # the stored element is read back through the container, so that what is done to it shows there
            self.setcontent(recv, upd(c, (pitem(k),), phi(has, self.deep(cur), self.deep(dflt))), node, "setdefault", args)
            r = self.root(recv)
            return mk("view", r[0], *(r[1] + (pitem(k),))) if r else self.getitem(recv, k)
        if name in ("pop", "remove", "clear", "sort", "reverse", "insert", "add", "discard", "popitem", "fill", "resize", "put", "itemset", "setflags", "difference_update", "intersection_update") and not (name in ("add", "remove", "insert") and c.op in ("obj",)):
            dd = self.deep(recv)
            if name == "pop" and c.op == "dict" and da and da[0].op == "const" and all(x.op == "kv" and x.a[0].op == "const" for x in c.a):
                hit = [x.a[1] for x in c.a if x.a[0] is da[0]]
                self.setcontent(recv, mk("dict", *[x for x in c.a if x.a[0] is not da[0]]), node, "pop", args)
                return hit[0] if hit else (args[1] if len(args) > 1 else NONE)
            if name == "pop" and c.op == "dictupd" and da:
                # pop(k, default) on an extended dict
                self.setcontent(recv, mk("dictdel", c, da[0]), node, "pop", args)
                return self.fresh(mk("mcall", "pop", dd, *da))
            self.setcontent(recv, mk("mut", name, c, *self.argterms(args, kw)), node, name, args)
            return self.fresh(mk("mcall", name, dd, *self.argterms(args, kw)))
        if name.endswith("_") and not name.startswith("_") and name[:-1].isidentifier() and c.op not in ("obj", "mod", "cls"):
            # torch-style in-place operation
            t = mk("mut", name, self.deep(recv), *self.argterms(args, kw))
            self.setcontent(recv, t, node, name, args)
            return recv
        if name in ("keys", "items", "values") and not args:
            return mk("mcall", name, recv)
        if name == "tolist" and not args:
            dd = self.deep(recv)
            t = mk("call", "tolist", dd)
            self.ev("call", "tolist", [dd], {}, node, raw=(None, [recv], {}), res=t)
            return self.fresh(t)
        if name in ("ravel", "flatten", "reshape", "astype", "squeeze", "detach", "cpu", "numpy", "view", "copy"):
            t = mk("mcall", name, self.deep(recv), *self.argterms(args, kw))
            self.ev("call", "." + name, [self.deep(recv)] + da, dk, node, raw=(None, [recv] + list(args), kw), res=t)
            return self.fresh(t)
        if name in NPMETH:
            return self.call_ext("numpy." + name, [recv] + list(args), kw, node)
        if c.op in ("const",) and isinstance(c.a[0], str):
            if all(a.op == "const" for a in da) and not kw and name in ("lower", "upper", "strip", "startswith", "endswith", "split", "title", "capitalize"):
                try:
                    v = getattr(c.a[0], name)(*[a.a[0] for a in da])
                    return const(v) if not isinstance(v, list) else self.fresh(mk("list", *map(const, v)))
                except Exception:
                    pass
            if name == "join":
                return mk("call", "str.join", c, *da)
            if name == "format":
                return mk("call", "str.format", c, *self.argterms(args, kw))
        dd = self.deep(recv)
        t = mk("mcall", name, dd, *self.argterms(args, kw))
        if name in ("sample", "_sample"):
            site = f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
            t = mk("mcall", *t.a, mk("kw", "@", mk("tuple", const(site), *[mk("bv", d) for _, d in self.loops])))
        self.ev("mcall", name, [dd] + da, dk, node, raw=(recv, args, kw), res=t)
        return self.fresh(t)

    def call_ext(self, name, args, kw, node):
        if name.startswith("numpy.random.mtrand."):
            name = "numpy.random." + name.split(".")[-1]
        da = None
        if name in self.hooks:
            r = self.hooks[name](self, args, kw, node)
            if r is not None:
                return r
        if name.startswith("numpy.") and "out" in kw and kw["out"] is not NONE and self.root(kw["out"]) is not None:
            # numpy writes its result into the array it is given
            out = kw["out"]
            if "where" in kw:
                self.ev("mut", name, (out,), {}, node, raw=self.root(out)[0])
            else:
                r = self.call_ext(name, args, {k: v for k, v in kw.items() if k != "out"}, node)
                self.setcontent(out, self.deep(r), node, name, tuple(args))
                return out
        if name in WRITES0 and args and self.root(args[0]) is not None:
            t = mk("mut", name, self.deep(args[0]), *self.argterms(args[1:], kw))
            self.ev("call", name, [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}, node, raw=(None, list(args), dict(kw)), res=NONE)
            self.setcontent(args[0], t, node, name, tuple(args[1:]))
            return NONE
        if name == "len" and len(args) == 1:
            if args[0].op == "obj":
                k, f, _ = self.objs[args[0]][0].find("__len__")
                if k == "method":
                    return self.call_func(f, [args[0]], {}, node)
            c = self.rd(args[0])
            if c.op in ("list", "tuple") and not any(x.op == "star" for x in c.a):
                return const(len(c.a))
            if c.op == "dict":
                return const(len(c.a))
            return lenof(self.deep(args[0]))
        if name == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1])
        if name == "hasattr" and len(args) == 2 and isc(args[1]):
            return self.hasattr_(args[0], args[1].a[0])
        if name == "getattr" and len(args) >= 2 and isc(args[1]):
            if len(args) == 3:
                h = self.hasattr_(args[0], args[1].a[0])
                tv = self.decide(h)
                if tv is False:
                    return args[2]
                v = self.getattr(args[0], args[1].a[0], node)
                return v if tv is True else phi(h, v, args[2])
            return self.getattr(args[0], args[1].a[0], node)
        if name in ("object.__setattr__", "numpy.ndarray.__setattr__") and len(args) == 3 and isc(args[1]):
            self.rawset(args[0], args[1].a[0], args[2], node)
            return NONE
        if name == "setattr" and len(args) == 3 and isc(args[1]):
            self.setattr(args[0], args[1].a[0], args[2], node)
            return NONE
        if name == "type" and len(args) == 1:
            if args[0].op == "obj":
                return self.getattr(args[0], "__class__")
            return mk("call", "type", self.deep(args[0]))
        if name in ("list", "tuple", "dict", "set") and not args and not kw:
            return self.fresh(mk(name)) if name != "tuple" else mk("tuple")
        if name == "dict" and not args and kw and "**" not in kw:
            return self.fresh(mk("dict", *[mk("kv", const(k), v) for k, v in kw.items()]))
        if name == "dict" and len(args) == 1 and not kw:
            c = self.rd(args[0])
            if c.op in ("dict", "dictupd", "dictmap"):
                return self.fresh(c)
        if name in ("list", "tuple") and len(args) == 1:
            c = self.rd(args[0])
            lits = self.literal_iter(args[0])
            if lits is not None:
                return mk("tuple", *lits) if name == "tuple" else self.fresh(mk("list", *lits))
            if c.op in ("map", "cat", "flatmap"):
                return self.fresh(c)
            if c.op == "zipT":
                return c
            if c.op in ("list", "tuple"):
                return mk("tuple", *c.a) if name == "tuple" else self.fresh(mk("list", *c.a))
        if name == "map" and len(args) == 2:
            lits = self.literal_iter(args[1])
            if lits is not None:
                return self.fresh(mk("list", *[self.call(args[0], [x], {}, node) for x in lits]))
            d = len(self.loops)
            dom, el = self.iter_elem(args[1], d)
            self.loops.append((dom, d))
            v = self.call(args[0], [el], {}, node)
            v = self.deep(v) if v.op not in ("closure", "partial", "bound") else v
            self.loops.pop()
            return self.fresh(mkmap(dom, v, TRUE, d))
        if name == "filter" and len(args) == 2:
            d = len(self.loops)
            dom, el = self.iter_elem(args[1], d)
            self.loops.append((dom, d))
            c = self.deep(self.call(args[0], [el], {}, node))
            self.loops.pop()
            return self.fresh(mkmap(dom, self.deep(el), c, d))
        if name == "zip":
            if len(args) == 1 and args[0].op == "star":
                return self.fresh(mk("zipT", self.deep(args[0].a[0])))
            return self.fresh(mk("call", "zip", *args))
        if name in ("enumerate", "range", "reversed"):
            a2 = list(args)
            if name == "enumerate" and "start" in kw:
                a2.append(kw["start"])
            if name == "range":
                a2 = [self.deep(a) for a in args]
            return self.fresh(mk("call", name, *a2))
        if name == "functools.partial" and args:
            return self.fresh(mk("partial", *args, *[mk("kw", k, v) for k, v in sorted(kw.items())]))
        if name == "functools.wraps":
            return mk("mod", "sa.identity")
        if name == "sa.identity":
            return args[0]
        if name == "joblib.delayed" and len(args) == 1:
            return mk("delayed", args[0]) if args[0].op not in ("func", "bound", "closure", "partial", "new", "view", "sym", "ref", "attr", "item", "mod") else args[0]
        if name == "joblib.Parallel":
            return mk("mod", "sa.identity")
        if name in ("copy.copy", "copy.deepcopy") and len(args) == 1:
            if args[0].op == "obj":
                return self.copy_obj(args[0])
            c = self.rd(args[0])
            if c.op in ("list", "dict", "set", "dictupd", "map", "cat", "dictmap"):
                return self.fresh(c if name == "copy.copy" else self.deep(args[0]))
            if c.op == "const":
                return c
            t = mk("call", name, self.deep(args[0]))
            self.ev("call", name, [self.deep(args[0])], {}, node, raw=(None, args, kw), res=t)
            return self.fresh(t)
        if name in ("bool",) and len(args) == 1:
            d = self.deep(args[0])
            tv = self.decide(d)
            return const(tv) if tv is not None else (d if _boolish(d) else mk("call", "bool", d))
        if name == "functools.reduce" and len(args) >= 2:
            lits = self.literal_iter(args[1])
            if lits:
                acc = lits[0] if len(args) == 2 else args[2]
                for x in (lits[1:] if len(args) == 2 else lits):
                    acc = self.call(args[0], [acc, x], {}, node)
                return acc
            if len(args) == 2 and args[0].op in ("closure", "func", "mod"):
                if args[0] is mk("mod", "operator.add"):
                    return self.fresh(mk("call", "sa.concat", self.deep(args[1])))
                if args[0].op != "mod":
                    p, q = mk("sym", "@r1"), mk("sym", "@r2")
                    r = self.deep(self.call(args[0], [p, q], {}, node))
                    if r is binop("+", p, q) or r is mk("cat", p, q) or r.op == "bin" and r.a == ("+", p, q):
                        return self.fresh(mk("call", "sa.concat", self.deep(args[1])))
        if name == "eval" and len(args) == 1:
            pass
        if name in ("any", "all") and len(args) == 1:
            lits = self.literal_iter(args[0])
            if lits is not None:
                return build("or" if name == "any" else "and", *[self.deep(x) for x in lits]) if lits else const(name == "all")
        if name in ("int", "float", "str", "abs", "max", "min", "sum") and args and not kw:
            da = [self.deep(a) for a in args]
            if all(a.op == "const" for a in da):
                try:
                    return const({"int": int, "float": float, "str": str, "abs": abs, "max": max, "min": min}[name](*[a.a[0] for a in da]))
                except Exception:
                    pass
        if name == "numpy.asarray" and False:
            pass
        da = [self.deep(a) for a in args]
        dk = {k: self.deep(v) for k, v in kw.items()}
        t = self.callterm(name, args, kw)
        if name.startswith(("numpy.random.", "random.")) and "seed" not in name or name == "next":
            # a draw is a value of its own: one per call site and iteration
            site = f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
            t = mk("call", name, *t.a[1:], mk("kw", "@", mk("tuple", const(site), *[mk("bv", d) for _, d in self.loops])))
        if name == "object.__new__":
            pass
        self.ev("call", name, da, dk, node, raw=(None, args, kw), res=t)
        if name in SCALAR or name.endswith(".isinf"):
            return t
        return self.fresh(t)

    def copy_obj(self, o):
        cls, closed = self.objs[o]
        self.n += 1
        n = mk("obj", self.n, cls.name)
        self.objs[n] = (cls, closed if closed is True else (closed or "self"))
        for (k, v) in list(self.st.heap.items()):
            if isinstance(k, tuple) and k[0] is o:
                self.st.heap[(n, k[1])] = v
        self.ev("copyobj", cls.name, (o, n))
        return n

    def isinstance_(self, x, c):
        cs = list(self.rd(c).a) if self.rd(c).op == "tuple" else [c]
        d = self.deep(x)
        res = []
        for k in cs:
            r = self._isinst(x, d, k)
            if r is True:
                return TRUE
            res.append(r)
        if all(r is False for r in res):
            return FALSE
        und = [k for k, r in zip(cs, res) if r is None]
        return build("or", *[mk("call", "isinstance", d, k) for k in und])

    def _isinst(self, x, d, k):
        name = None
        if k.op == "mod":
            name = k.a[0]
        if x.op == "obj" and k.op == "cls":
            cls, closed = self.objs[x]
            kc = self.funcs[("cls", k.a[0])]
            if cls.issub(kc):
                return True
            if closed is True or not kc.issub(cls):
                return False
            return None
        if x.op == "obj" and name in ("str", "int", "float", "list", "tuple", "dict", "bool"):
            return False
        tc = self.typed(x)
        if tc is not None:
            if k.op == "cls":
                kc = self.funcs[("cls", k.a[0])]
                return True if tc.issub(kc) else (None if kc.issub(tc) else False)
            if name in ("str", "int", "float", "list", "tuple", "dict", "bool"):
                return False
        pyt = {"str": str, "int": int, "float": float, "bool": bool}
        if d.op == "const" and d.a[0] is not None and name in pyt:
            return isinstance(d.a[0], pyt[name])
        if d.op == "const":
            return False
        if d.op in ("list", "map", "cat", "flatmap"):
            if name in ("list",):
                return True
            if name in ("tuple", "dict", "str", "int", "float", "numpy.ndarray", "bool") or k.op == "cls":
                return False
        if d.op == "tuple" and name:
            return name == "tuple" if name in ("tuple", "list", "dict", "str", "int", "float") else None
        if d.op in ("dict",) and name:
            return name == "dict" if name in ("tuple", "list", "dict", "str", "int", "float") else None
        if d.op == "call" and name == "list" and d.a[0] in ("tolist",):
            return None
        if d.op == "call" and d.a[0] == "Solution" and k.op == "cls":
            return k.a[0].endswith(".Solution") or None
        return None

    # ------------------------------------------------------------------ repo calls
    def construct(self, cls, args, kw, node):
        if cls.name in self.opaque or cls.find("__new__")[0] == "method":
            args, kw = self.norm_ctor(cls, args, kw)
            t = self.callterm(cls.name, args, kw)
            self.ev("new", cls.name, [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}, node, raw=(None, args, kw), res=t)
            return self.fresh(t)
        o = self.new_obj(cls, True)
        self.ev("new", cls.name, [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}, node, raw=(o, args, kw), res=o)
        k, f, _ = cls.find("__init__")
        if k == "method":
            self.call_func(f, [o] + list(args), kw, node)
        return o

    def norm_ctor(self, cls, args, kw):
        f = cls.method("__new__") or cls.method("__init__")
        if f is None or any(a.op == "star" for a in args):
            return args, kw
        names = f.args()[1:]
        kw = dict(kw)
        rest = []
        for i, a in enumerate(args):
            if i < len(names):
                kw[names[i]] = a
            else:
                rest.append(a)
        first = names[0] if names else None
        out = []
        if first in kw:
            out.append(kw.pop(first))
        return out + rest, kw

    def bindargs(self, fn, args, kw, defaults=None, kwd=None):
        """-> env or None when the call does not match the signature"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        problems = []
        i = 0
        starred = None
        pos = []
        for x in args:
            if x.op == "star":
                starred = x
            else:
                pos.append(x)
        if starred is not None:
            n_before = args.index(starred)
            pos = args[:n_before]
        for i, x in enumerate(pos):
            if i < len(names):
                env[names[i]] = x
            else:
                break
        extra_pos = pos[len(names):]
        if a.vararg is not None:
            va = list(extra_pos)
            if starred is not None:
                env[a.vararg.arg] = starred.a[0] if not va else mk("tuple", *va, starred)
            else:
                env[a.vararg.arg] = mk("tuple", *va)
        elif extra_pos:
            problems.append(f"{len(pos)} positional arguments for {len(names)}")
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or k in kwonly:
                if k in env:
                    problems.append(f"multiple values for argument {k}")
                env[k] = v
            else:
                rest[k] = v
        star2 = kw.get("**")
        if a.kwarg is not None:
            c = mk("dict", *[mk("kv", const(k), v) for k, v in rest.items()])
            if star2 is not None:
                base = star2
                c = mk("dictupd", base, c) if rest else base
            env[a.kwarg.arg] = self.fresh(c)
        elif rest:
            problems.append("unexpected keyword " + ", ".join(sorted(rest)))
        # defaults
        dn = names[len(names) - len(a.defaults):]
        for k, (n, d) in enumerate(zip(dn, a.defaults)):
            if n not in env:
                if star2 is not None and a.kwarg is None or (star2 is not None and star2.op == "sym" and False):
                    env[n] = phi(cmp_("in", const(n), star2), item(star2, const(n)), self.eval_default(d, fn) if defaults is None else defaults[k])
                elif starred is not None and n not in env:
                    env[n] = self.eval_default(d, fn) if defaults is None else defaults[k]
                else:
                    env[n] = self.eval_default(d, fn) if defaults is None else defaults[k]
        for k, (x, d) in enumerate(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_default(d, fn) if kwd is None else kwd[k]
        for n in names + kwonly:
            if n not in env:
                if star2 is not None:
                    env[n] = item(star2, const(n))
                elif starred is not None:
                    env[n] = item(starred.a[0], const(names.index(n)))
                else:
                    problems.append(f"missing argument {n}")
                    env[n] = mk("sym", f"missing:{n}")
        return env, problems

    def eval_default(self, d, fn):
        if isinstance(d, ast.Constant):
            return const(d.value)
        return self.eval_in_module(d, fn.module)

    def call_func(self, fn, args, kw, node, closure=None, defaults=None, kwd=None, raw=False):
        if fn.decorators and not raw:
            # evaluate the decorator on the undecorated function
            t = self.raw_term(fn, closure, defaults, kwd)
            fake = Frame(fn)
            self.frames.append(fake)
            env0 = self.st.env
            self.st.env = dict(closure or {})
            try:
                for d in reversed(fn.decorators):
                    dv = self.eval(d)
                    if dv.op == "mod" and dv.a[0] == "sa.identity" or (dv.op == "mod" and dv.a[0] not in ("sa.identity",)):
                        continue
                    t = self.call(dv, [t], {}, d)
            finally:
                self.frames.pop()
                self.st.env = env0
            return self.call(t, args, kw, node)
        if self.is_opaque(fn):
            return self.opaque_call(fn, args, kw, node)
        depth = sum(1 for f in self.frames if f.func.node is fn.node)
        if depth >= 2 or len(self.frames) > MAXDEPTH:
            t = mk("call", fn.qual, *self.argterms(args, kw))
            self.ev("recursion", fn.qual, [self.deep(a) for a in args], {}, node, res=t)
            return self.fresh(t)
        env, problems = self.bindargs(fn, args, kw, defaults, kwd)
        self.ev("enter", fn.qual, [self.deep(a) for a in args], {k: self.deep(v) for k, v in kw.items()}, node,
                raw=(fn, args, dict(env)))
        if problems:
            self.ev("badcall", fn.qual, [const(p) for p in problems], {}, node, raw=fn)
        self.analysed.add((fn.module.rel, fn.qual))
        fr = Frame(fn)
        fr.closure_env = closure
        caller = self.st
        self.frames.append(fr)
        self.st = St(env, caller.heap, caller.pc)
        base = len(caller.pc)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                heap = self.st.heap
            else:
                w = next((w for w in self.withs if w["node"] is node and not w["done"]), None)
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node))
                if gen and w is not None:
                    w["caller"], fr.go = caller, w["go"]
                    st = self.block(fn.node.body)
                    v, heap = NONE, st.heap if st is not None else caller.heap
                elif gen:
                    v = self.fresh(mk("call", fn.qual, *self.argterms(args, kw)))
                    heap = self.st.heap
                else:
                    st = self.block(fn.node.body)
                    outs = [(e.st, e.val) for e in fr.exits if e.kind == "return"]
                    if st is not None:
                        outs.append((st, NONE))
                    if not outs:
                        v, heap, dead = mk("never"), self.st.heap if self.st else caller.heap, True
                        heap = caller.heap if not isinstance(heap, dict) else heap
                        caller.heap = heap
                        self.frames.pop()
                        self.st = caller
                        raise _Never()
                    v, heap = self.merge_outs(outs, base)
        except _Never:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            self.st = caller
            raise
        except _Crash:
            if fr in self.frames:
                del self.frames[self.frames.index(fr):]
            caller.heap = self.st.heap
            self.st = caller
            raise
        except BaseException:
            raise
        self.frames.pop()
        caller.heap = heap
        self.st = caller
        self.ev("leave", fn.qual, [self.deep(v)], {}, node, raw=(fn, v))
        return v

    def raw_term(self, fn, closure, defaults, kwd):
        f2 = Func.__new__(Func)
        for s in ("name", "qual", "node", "module", "cls", "kind"):
            setattr(f2, s, getattr(fn, s))
        f2.decorators = []
        if closure is None:
            key = (f2.module.name, f2.qual, -f2.node.lineno)
            self.funcs[key] = f2
            return mk("func", *key)
        self.n += 1
        t = mk("closure", self.n, f2.name, *[mk("bv", d) for _, d in self.loops])
        self.closures[t.a[0]] = (f2, closure, defaults, kwd, None)
        self.closure_home[t.a[0]] = (t, list(self.loops))
        return t

    def is_opaque(self, fn):
        if fn.qual in self.opaque_funcs or fn.name in self.opaque_funcs:
            return True
        return fn.cls is not None and fn.cls.name in self.opaque

    def opaque_call(self, fn, args, kw, node):
        # normalise to positional order of the signature
        env = None
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if not any(x.op == "star" for x in args):
            k2 = dict(kw)
            for i, x in enumerate(args):
                if i < len(names):
                    k2[names[i]] = x
            selfn = names[0] if (fn.cls is not None and fn.kind != "staticmethod" and names) else None
            pos = [k2.pop(selfn)] if selfn in k2 else []
            args, kw = pos + args[len(names):], k2
        t = mk("call", fn.qual, *self.argterms(args, kw))
        self.ev("call", fn.qual, [self.deep(x) for x in args], {k: self.deep(v) for k, v in kw.items()}, node, raw=(fn, args, kw), res=t)
        return self.fresh(t)

    def merge_outs(self, outs, base):
        v, heap = outs[-1][1], outs[-1][0].heap
        for st, val in reversed(outs[:-1]):
            c = build("and", *st.pc[base:]) if len(st.pc) > base else TRUE
            if c is TRUE:
                v, heap = val, st.heap
                continue
            v = phi(c, val, v)
            heap = self.join_heap(c, st.heap, heap)
        return v, heap

    # ------------------------------------------------------------------ joins
    def join_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for k in set(h1) | set(h2):
            if k in h1 and k in h2:
                a, b = h1[k], h2[k]
                out[k] = a if a is b else phi(c, a, b)
            else:
                here = h1 if k in h1 else h2
                if isinstance(k, tuple):
                    d = self.default_attr(k[0], k[1])
                    # an object created on one side only
                    a = h1.get(k, d)
                    b = h2.get(k, d)
                    if d is UNDEF and not any(isinstance(x, tuple) and x[0] is k[0] for x in (h2 if k in h1 else h1)):
                        out[k] = here[k]
                    else:
                        out[k] = phi(c, a, b)
                elif k.op == "new":
                    out[k] = here[k]
                else:
                    out[k] = phi(c, h1.get(k, self.dflt(k)), h2.get(k, self.dflt(k)))
        return out

    def join(self, c, s1, s2, pc):
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else phi(c, a, b)
        return St(env, self.join_heap(c, s1.heap, s2.heap), pc)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        """execute; -> fall-through state or None"""
        for s in stmts:
            if self.st is None:
                return None
            try:
                self.stmt(s)
            except _Never:
                self.st = None
                return None
        return self.st

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)

    def exit(self, kind, val=None):
        e = Exit(kind, self.st, val)
        self.frames[-1].exits.append(e)
        self.st = None

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split(".")[0]] = self.from_resolved(self.prog.lookup_dotted(a.name), a.name)

    def s_ImportFrom(self, s):
        fake = type("M", (), {})()
        m = self.frames[-1].func.module
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            d = base + "." + a.name
            self.st.env[a.asname or a.name] = self.from_resolved(self.prog.lookup_dotted(d), d)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = self.mkclosure(s, s.name)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.ev("return", self.frames[-1].func.qual, (self.deep(v),), {}, s, raw=v)
        self.exit("return", v)

    def s_Raise(self, s):
        v = self.deep(self.eval(s.exc)) if s.exc is not None else mk("reraise")
        self.ev("raise", None, (v,), {}, s)
        self.exit("raise", v)

    def s_Assert(self, s):
        c = self.eval_cond(s.test)
        self.ev("assert", None, (c,), {}, s)
        if self.decide(c) is None:
            self.st.pc = self.st.pc + (c,)

    def s_Break(self, s):
        self.exit("break")

    def s_Continue(self, s):
        self.exit("continue")

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.index(t.slice)
                self.setcontent(b, mk("mut", "del", self.rd(b), i), s, "del", (i,))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.ev("delattr", t.attr, (o,), {}, s)
                if o.op == "obj":
                    self.st.heap[(o, self.mangle(t.attr))] = UNDEF

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.rd(v)
            n = len(t.elts)
            si = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if c.op in ("tuple", "list") and not si and len(c.a) == n:
                for x, y in zip(t.elts, c.a):
                    self.assign(x, y)
                return
            if c.op == "phi" and not si:
                # tuple-valued alternatives
                for i, x in enumerate(t.elts):
                    self.assign(x, self.pick(c, i))
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.fresh(item(self.deep(v), mk("slice", const(i), NONE, NONE))))
                else:
                    self.assign(x, self.getitem(v, const(i)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, self.mangle(t.attr), v, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.index(t.slice)
            self.setitem(b, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def pick(self, c, i):
        if c.op == "phi":
            return phi(c.a[0], self.pick(c.a[1], i), self.pick(c.a[2], i), True)
        r = self.rd(c)
        if r.op in ("tuple", "list") and i < len(r.a):
            return r.a[i]
        return self.getitem(c, const(i))

    def setitem(self, b, i, v, node):
        if b.op == "obj":
            k, f, _ = self.objs[b][0].find("__setitem__")
            if k == "method":
                self.call_func(f, [b, i, v], {}, node)
                return
        if b.op == "dictof" and i.op == "const":
            self.setattr(b.a[0], i.a[0], v, node)
            return
        self.ev("setitem", None, (self.deep(b), i, self.deep(v)), {}, node, raw=(b, i, v))
        self.store(b, (pitem(i),), v, node, "setitem")

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, s)
            v = self.aug(op, cur, self.eval(s.value), s)
            self.st.env[s.target.id] = v
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            name = self.mangle(s.target.attr)
            cur = self.getattr(o, name, s)
            v = self.aug(op, cur, self.eval(s.value), s)
            if v is not cur:
                self.setattr(o, name, v, s)
        elif isinstance(s.target, ast.Subscript):
            b = self.eval(s.target.value)
            i = self.index(s.target.slice)
            cur = self.getitem(b, i, s)
            v = self.aug(op, cur, self.eval(s.value), s)
            if v is not cur:
                self.setitem(b, i, v, s)

    def aug(self, op, cur, rhs, node):
        if cur.op == "obj":
            k, f, _ = self.objs[cur][0].find({"+": "__iadd__", "-": "__isub__", "*": "__imul__"}.get(op, "?"))
            if k == "method":
                return self.call_func(f, [cur, rhs], {}, node)
        c = self.rd(cur)
        if op == "+" and cur.op in ("new", "view", "phi") and (c.op in ("list", "map", "cat", "flatmap") or (c.op == "phi" and _listy(c)) or c in self.listrecs or (c.op in ("rec",) and self.rd(rhs).op in ("list", "map", "cat", "flatmap"))):
            self.setcontent(cur, cat2(c, listarg(self.rd(rhs))), node, "iadd", (rhs,))
            return cur
        r = self.root(cur)
        if r is not None:
            self.ev("inplace", op, (cur, self.deep(rhs)), {}, node, raw=r[0])
        return self.binop(op, cur, rhs, node)

    def s_If(self, s):
        c = self.eval_cond(s.test)
        tv = self.decide(c)
        if tv is True:
            self.st = self.block(s.body)
            return
        if tv is False:
            self.st = self.block(s.orelse)
            return
        base = self.st
        self.st = base.fork(c)
        s1 = self.block(s.body)
        self.st = base.fork(neg(c))
        s2 = self.block(s.orelse) if s.orelse else self.st
        self.st = self.join_opt(c, s1, s2, base.pc)

    def join_opt(self, c, s1, s2, pc):
        if s1 is None and s2 is None:
            return None
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = len(pc)
        e1, e2 = s1.pc[n:], s2.pc[n:]
        npc = pc
        if len(e1) > 1 or len(e2) > 1:
            x1 = build("and", *e1) if e1 else TRUE
            x2 = build("and", *e2) if e2 else TRUE
            x = build("or", x1, x2)
            if truth(x) is None:
                npc = pc + (x,)
        return self.join(c, s1, s2, npc)

    def s_With(self, s, i=0):
        if i == len(s.items):
            self.st = self.block(s.body)
            return
        it = s.items[i]
        w = {"node": it.context_expr, "done": False, "depth": len(self.frames)}

        def go(v):
            """at the yield of a generator-based context manager: the rest of the with statement, in its own frame"""
            w["done"] = True
            gen, gst, outer = self.frames, self.st, w["caller"]
            self.frames = gen[:w["depth"]]
            self.st = St(outer.env, gst.heap, outer.pc + gst.pc[len(outer.pc):])
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                self.s_With(s, i + 1)
            except _Crash:
                outer.env = self.st.env
                self.frames, self.st = gen, St(gst.env, self.st.heap, gst.pc)
                raise
            after, self.frames = self.st, gen
            if after is None:
                w["dead"] = True
                self.st = gst
                return NONE
            outer.env, outer.pc = after.env, after.pc
            self.st = St(gst.env, after.heap, gst.pc)
            return NONE
        w["go"] = go
        self.withs.append(w)
        try:
            v = self.eval(it.context_expr)
        finally:
            self.withs.remove(w)
        if w["done"]:
            if w.get("dead"):
                self.st = None
            return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        self.s_With(s, i + 1)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        go = getattr(self.frames[-1], "go", None)
        if go is None:
            return mk("unk", "Yield")
        return go(v)

    def s_Try(self, s):
        fr = self.frames[-1]
        fr.tries += 1
        exc = mk("exc", fr.func.qual, fr.tries)
        base = self.st
        pre = base.fork()
        n_exits = len(fr.exits)
        self.st = base.fork()
        info = {"node": s, "handlers": []}
        marks = (len(self.frames), len(self.loops), self.quiet)
        self.trying.append(info)
        try:
            s1 = self.block(s.body)
        except _Crash as c:
            # the exception leaves the body here: handlers, then the final part, then onwards
            del self.frames[marks[0]:], self.loops[marks[1]:]
            self.quiet = marks[2]
            self.crash = None
            h = next((h for h in s.handlers if c.caught(h.type)), None)
            again = h is None
            if h is not None:
                if h.name:
                    self.st.env[h.name] = mk("sym", "exc:" + h.name)
                k = len(fr.exits)
                self.st = self.block(h.body)
                if self.st is None:
                    ex = fr.exits[k:]
                    if ex and all(x.kind == "raise" for x in ex):
                        again, self.st = True, ex[-1].st
                        del fr.exits[k:]
            if s.finalbody and self.st is not None:
                self.st = self.block(s.finalbody)
            if again:
                raise
            return
        finally:
            if info in self.trying:
                self.trying.remove(info)
        if s1 is not None and s.orelse:
            self.st = s1
            s1 = self.block(s.orelse)
        outs = []
        for k, h in enumerate(s.handlers):
            self.st = pre.fork(exc)
            if h.name:
                self.st.env[h.name] = mk("sym", "exc:" + h.name)
            t = self.deep(self.eval(h.type)) if h.type is not None else NONE
            self.ev("except", None, (t,), {}, h)
            m = len(self.events)
            s2 = self.block(h.body)
            info["handlers"].append((t, self.events[m:], s2 is not None or any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for b in h.body for x in ast.walk(b))))
            if s2 is not None:
                outs.append(s2)
        st = s1
        for s2 in outs:
            if st is None:
                st = s2
            else:
                st = self.join(exc, s2, st, base.pc)
        if s.finalbody:
            for e in fr.exits[n_exits:]:
                # leaving through the final part
                self.quiet += 1
                k = len(fr.exits)
                self.st = St(dict(e.st.env), dict(e.st.heap), e.st.pc)
                r = self.block(s.finalbody)
                self.quiet -= 1
                if r is not None:
                    e.st = r
                del fr.exits[k:]
        self.st = st
        if s.finalbody:
            if self.st is not None:
                self.st = self.block(s.finalbody)

    s_TryStar = s_Try

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        lits = self.literal_iter(it)
        if lits is not None:
            brk, pc_in = [], self.st.pc
            for x in lits:
                if self.st is None:
                    break
                self.assign(s.target, x)
                fr = self.frames[-1]
                n0 = len(fr.exits)
                pc0 = self.st.pc
                st = self.block(s.body)
                mine = fr.exits[n0:]
                fr.exits[n0:] = [e for e in mine if e.kind in ("return", "raise")]
                conts = [e.st for e in mine if e.kind == "continue"]
                brk += [e.st for e in mine if e.kind == "break"]
                self.st = self.join_many([c for c in conts] + ([st] if st is not None else []), pc0)
            if s.orelse and self.st is not None:
                self.st = self.block(s.orelse)
            if brk:
                # the conditions of every way out, relative to the entry of the loop
                outs = brk + ([self.st] if self.st is not None else [])
                self.st = self.join_many(outs, pc_in)
            return
        d = len(self.loops)
        dom, el = self.iter_elem(it, d)
        self.loop(s, dom, d, lambda: self.assign(s.target, el), None)
        if s.orelse and self.st is not None:
            self.st = self.block(s.orelse)

    def join_many(self, sts, pc):
        if not sts:
            return None
        st = sts[-1]
        n = len(pc)
        for x in reversed(sts[:-1]):
            c = build("and", *x.pc[n:]) if len(x.pc) > n else TRUE
            if c is TRUE:
                st = x
            else:
                st = self.join(c, x, st, pc)
        if len(sts) > 1:
            st.pc = pc
        return st

    def s_While(self, s):
        d = len(self.loops)
        self.loop(s, None, d, lambda: None, s.test)
        if s.orelse and self.st is not None:
            self.st = self.block(s.orelse)

    def loop(self, s, dom, d, bindtarget, test):
        fr = self.frames[-1]
        base = self.st
        tgt = set()
        if isinstance(s, ast.For):
            tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        # pass 1..k: locations changed by the body
        changed = set()
        for _ in range(3):
            self.quiet += 1
            n0, notes0, loops0, fr0 = len(fr.exits), self.n, len(self.loops), len(self.frames)
            self.st = base.fork()
            self._placeholders(changed, d)
            self.loops.append((dom, d))
            try:
                bindtarget()
                if test is not None:
                    c = self.eval_cond(test)
                    if self.decide(c) is None:
                        self.st.pc = self.st.pc + (c,)
                st = self.block(s.body)
            finally:
                del self.loops[loops0:]
                del self.frames[fr0:]
                self.quiet -= 1
            ex = fr.exits[n0:]
            del fr.exits[n0:]
            new = set()
            for x in [st] + [e.st for e in ex if e.st is not None]:
                if x is None:
                    continue
                for k, v in x.env.items():
                    if k not in tgt and base.env.get(k, UNDEF) is not v and ("e", k) not in changed:
                        new.add(("e", k))
                for k, v in x.heap.items():
                    if isinstance(k, tuple):
                        b = base.heap.get(k)
                        if b is None:
                            if k[0] not in self.objs or not any(isinstance(z, tuple) and z[0] is k[0] for z in base.heap) and self.objs[k[0]][1] is True:
                                continue  # object created inside the loop
                            b = self.default_attr(*k)
                    else:
                        if k.op == "new" and k not in base.heap:
                            continue
                        b = base.heap.get(k, self.dflt(k))
                    if b is not v and ("h", k) not in changed:
                        new.add(("h", k))
            if not new:
                break
            changed |= new
        # final pass
        self.st = base.fork()
        recs = self._placeholders(changed, d)
        n0 = len(fr.exits)
        if dom is None:
            self.quiet += 1
            cond = self.eval_cond(test) if test is not None else TRUE
            self.quiet -= 1
            dom = mk("while", cond)
        self.loops.append((dom, d))
        try:
            bindtarget()
            pcb = self.st.pc
            if test is not None:
                c = self.eval_cond(test)
                self.ev("whiletest", None, (c,), {}, s)
                if self.decide(c) is None:
                    self.st.pc = self.st.pc + (c,)
            pcb2 = self.st.pc
            st = self.block(s.body)
        finally:
            self.loops.pop()
        ex = fr.exits[n0:]
        del fr.exits[n0:]
        conts = [e.st for e in ex if e.kind == "continue"]
        brks = [e for e in ex if e.kind == "break"]
        rets = [e for e in ex if e.kind == "return"]
        end = self.join_many(conts + ([st] if st is not None else []), pcb2)
        bcond = None
        if brks:
            bcond = build("or", *[build("and", *e.st.pc[len(pcb2):]) if len(e.st.pc) > len(pcb2) else TRUE for e in brks])
            rd_ = mk("until", dom, bcond)
        else:
            rd_ = dom
        for e in rets:
            c = build("and", *e.st.pc[len(pcb2):]) if len(e.st.pc) > len(pcb2) else TRUE
            ex2 = base.fork(mk("anyover", dom, c, d))
            ex2.heap = e.st.heap
            fr.exits.append(Exit("return", ex2, mk("first", dom, c, self.deep(e.val, e.st.heap), d)))
        for e in ex:
            if e.kind == "raise":
                fr.exits.append(e)
        out = base.fork()
        if rets:
            out.pc = out.pc + tuple(neg(mk("anyover", dom, build("and", *e.st.pc[len(pcb2):]) if len(e.st.pc) > len(pcb2) else TRUE, d)) for e in rets)
        trans = {}
        for key in changed:
            kind, k = key
            rec = recs[key]
            init = base.env.get(k, UNDEF) if kind == "e" else base.heap.get(k, self.dflt(k))
            cands = []
            if end is not None:
                cands.append(end.env.get(k, UNDEF) if kind == "e" else end.heap.get(k, rec))
            nxt = cands[0] if cands else rec
            if brks:
                for e in brks:
                    bv_ = e.st.env.get(k, UNDEF) if kind == "e" else e.st.heap.get(k, rec)
                    if bv_ is not nxt and bv_ is not rec:
                        bc = build("and", *e.st.pc[len(pcb2):]) if len(e.st.pc) > len(pcb2) else TRUE
                        nxt = bv_ if end is None else phi(bc, bv_, nxt)
            v = close(init, nxt, rec, rd_, d, self, end, kind)
            if v is None or brks:
                trans[key] = (rec, init, nxt)
            if v is None:
                continue
            if kind == "e":
                out.env[k] = v
            else:
                out.heap[k] = v
            trans.setdefault(key, (rec, init, nxt))
        if any(close(t[1], t[2], t[0], rd_, d, self, end, "x") is None for t in trans.values()):
            # loop-carried values with no closed form: one simultaneous system for the whole loop
            h = end.heap if end is not None else (brks[0].st.heap if brks else None)
            dp = (lambda t: self.deep(t, h)) if h is not None else (lambda t: t)
            eqs = tuple(mk("eq", t[0], self.deep(t[1], base.heap), dp(t[2])) for t in trans.values())
            sysid = mk("sys", *eqs)
            for key, (rec, init, nxt) in trans.items():
                kind, k = key
                cur = out.env.get(k) if kind == "e" else out.heap.get(k)
                if close(init, nxt, rec, rd_, d, self, end, kind) is None:
                    v = mk("mu", rd_, rec, sysid, d)
                    if kind == "e":
                        out.env[k] = v
                    else:
                        out.heap[k] = v
        # refs created in the body stay readable
        for x in [end] + [e.st for e in brks]:
            if x is None:
                continue
            for k, v in x.heap.items():
                if k not in out.heap:
                    out.heap[k] = v
        if isinstance(s, ast.For):
            for n in tgt:
                v = (end or (brks[0].st if brks else out)).env.get(n, UNDEF)
                out.env[n] = mk("last", rd_, self.deep(v, (end or (brks[0].st if brks else out)).heap) if v is not UNDEF else UNDEF, out.env.get(n, UNDEF), NONE, d)
        if end is None and not brks:
            # every iteration leaves the function; fall through only when the loop body never runs
            pass
        self.st = out

    def _placeholders(self, changed, d):
        recs = {}
        for key in changed:
            kind, k = key
            if kind == "e":
                cur = self.st.env.get(k, UNDEF)
                r = mk("rec", d, k)
                # a rebound reference keeps its identity opaque
                self.st.env[k] = r
            else:
                name = f"{k[0].a[1]}.{k[1]}" if isinstance(k, tuple) else show(k)
                r = mk("rec", d, name)
                cur = self.st.heap.get(k)
                if cur is not None and (_listy(cur) or cur in self.listrecs):
                    self.listrecs.add(r)
                self.st.heap[k] = r
            recs[key] = r
        return recs


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val


class _Never(Exception):
    pass


class _Crash(Exception):
    """an exception assumed to leave a call of the analysed program"""

    def __init__(self, event, kinds=("Exception", "BaseException")):
        self.event, self.kinds = event, kinds

    def caught(self, t):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.caught(x) for x in t.elts)
        return (t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "") in self.kinds


def contains_light(v, x):
    st = [v]
    n = 0
    while st and n < 200:
        y = st.pop()
        n += 1
        if y is x:
            return True
        if y.op == "phi":
            st.extend(y.a[1:])
    return False


def _listy(c):
    if c.op == "phi":
        return _listy(c.a[1]) or _listy(c.a[2])
    return c.op in ("list", "map", "cat", "flatmap")


def listarg(c):
    """operand of `list + x`: anything but a list takes over the operation (an array broadcasts)"""
    if c.op == "phi":
        return mk("phi", c.a[0], listarg(c.a[1]), listarg(c.a[2]))
    if c.op in ("list", "map", "cat", "flatmap", "rec", "mu"):
        return c
    return mk("call", "sa.listarg", c)


def cat2(a, b):
    """list concatenation that also accepts symbolic operands"""
    if a.op == "list" and not a.a and b.op in ("list", "map", "cat", "flatmap"):
        return b
    if a.op == "phi" and b.op == "list":
        pass
    return cat(a, b)


def dict_update(c, o):
    if o.op == "dict" and not o.a:
        return c
    if c.op == "dict" and o.op == "dict":
        if all(x.op == "kv" and x.a[0].op == "const" for x in c.a + o.a):
            d = {x.a[0]: x for x in c.a}
            for x in o.a:
                d[x.a[0]] = x
            return mk("dict", *d.values())
    if c.op == "dict" and not c.a:
        return o
    return mk("dictupd", c, o)


def mkmap(dom, v, c, d):
    if c is TRUE and v.op == "item" and v.a[1] is mk("bv", d) and lenof(v.a[0]) is dom and not contains(v.a[0], mk("bv", d)):
        pass
    return mk("map", dom, v, c, d)


def dictlike(t):
    """surely a dictionary, where storing an item may add a key"""
    while t.op in ("updp", "updall"):
        t = t.a[0]
    if t.op == "phi":
        return dictlike(t.a[1]) or dictlike(t.a[2])
    return t.op in ("dict", "dictupd", "dictdel", "dictmap") or t.op == "call" and t.a[0] in ("dict", "collections.OrderedDict", "collections.defaultdict", "dict.fromkeys")


def strkey(p):
    """an item named by a string: its container is a dictionary"""
    return len(p.a) == 1 and isinstance(p.a[0], T) and p.a[0].op == "const" and isinstance(p.a[0].a[0], str)


def lenof(t):
    if t.op in ("list", "tuple", "dict", "set") and not any(x.op in ("star",) for x in t.a):
        return const(len(t.a)) if not any(x.op == "star" for x in t.a) else mk("call", "len", t)
    if t.op == "map" and t.a[2] is TRUE:
        return t.a[0]
    if t.op == "dictmap" and t.a[3] is TRUE:
        return t.a[0]
    if t.op == "phi":
        a, b = lenof(t.a[1]), lenof(t.a[2])
        if a is b:
            return a
        return phi(t.a[0], a, b, True)
    if t.op in ("updp",) and t.a[1].a[0].op == "pitem" and not dictlike(t.a[0]) and not strkey(t.a[1].a[0]):
        return lenof(t.a[0])
    if t.op == "updp" and t.a[1].a[0].op == "pattr":
        return lenof(t.a[0])
    if t.op == "updall" and t.a[3].a[0].op in ("pitem", "pattr") and not dictlike(t.a[0]):
        return lenof(t.a[0])
    if t.op == "call" and len(t.a) > 1:
        if t.a[0] in SAMELEN or t.a[0].endswith(".to_dict"):
            return lenof(t.a[1])
        if t.a[0] == "range" and len(t.a) == 2:
            return t.a[1]
        if t.a[0] == "numpy.arange" and len(t.a) == 2:
            return t.a[1]
    if t.op == "mcall" and t.a[0] in SAMELEN:
        return lenof(t.a[1])
    if t.op == "attr" and t.a[1] in ("fitness", "n_eval", "index") :
        return lenof(t.a[0])
    return mk("call", "len", t)


def _boolish(t):
    return t.op in ("cmp", "not", "and", "or", "hasattr", "anyover") or (t.op == "const" and isinstance(t.a[0], bool)) or \
        (t.op == "call" and t.a[0] in ("isinstance", "any", "all", "numpy.any", "numpy.all", "bool", "numpy.isclose", "callable"))


def _maybe_none(t):
    return t.op in ("mcall", "acall") or t.op == "call" and (t.a[0].startswith("bayes") or "." in t.a[0] and t.a[0].split(".")[0][:1].isupper())


def _looks_logger(e):
    if isinstance(e, ast.Attribute):
        return "logger" in e.attr.lower() or _looks_logger(e.value) and False
    if isinstance(e, ast.Name):
        return "log" in e.id.lower()
    return False


def decide_under(c, pcs):
    """truth of c given the conditions of the path"""
    facts = {}
    for p in pcs:
        _facts(p, True, facts)
    if not facts:
        return None

    def go(x):
        tv = truth(x)
        if tv is not None:
            return tv
        if x in facts:
            return facts[x]
        n = neg(x)
        if n in facts:
            return not facts[n]
        if x.op == "not":
            r = go(x.a[0])
            return None if r is None else not r
        if x.op == "and":
            vs = [go(y) for y in x.a]
            return False if False in vs else (True if all(v is True for v in vs) else None)
        if x.op == "or":
            vs = [go(y) for y in x.a]
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if x.op == "phi":
            cv = go(x.a[0])
            if cv is True:
                return go(x.a[1])
            if cv is False:
                return go(x.a[2])
            a, b = go(x.a[1]), go(x.a[2])
            return a if a == b else None
        if x.op == "cmp" and isc(x.a[2], None) and x.a[0] == "is":
            if facts.get(x.a[1]) is True:   # truthy, hence not None
                return False
        return None
    return go(c)


def _facts(p, v, out):
    if p.op == "not":
        _facts(p.a[0], not v, out)
        return
    if (p.op == "and" and v) or (p.op == "or" and not v):
        for x in p.a:
            _facts(x, v, out)
    out[p] = v


def invariant(t, d, recs=True):
    """t does not depend on the loop index or loop-carried values of depth >= d"""
    for x in subterms(t):
        if x.op == "bv" and x.a[0] == d:
            return False
        if x.op == "rec" and x.a[0] == d:
            return False
    return True


def close(init, nxt, rec, dom, d, I, end, kind):
    """summary value after the loop of a location with per-iteration transformer rec -> nxt"""
    if nxt is rec:
        return init
    heap = end.heap if end is not None else None
    r = _close(init, nxt, rec, dom, d, I, heap)
    if r is None:
        n2 = I.deep(nxt, heap) if heap is not None else nxt
        if n2 is not nxt:
            r = _close(init, n2, rec, dom, d, I, heap)
    if r is not None and any(x.op == "rec" and x.a[0] == d for x in subterms(r)) and not any(x.op == "rec" and x.a[0] == d for x in subterms(init)):
        return None  # depends on other loop-carried values: keep the simultaneous system
    return r


def _listinc(t):
    """an increment that is a list on some path: the increment with every 'nothing added' path as []"""
    def go(t):
        if t.op == "list":
            return t, True
        if t.op == "phi":
            x, y = go(t.a[1]), go(t.a[2])
            if x is None or y is None:
                return None
            return phi(t.a[0], x[0], y[0]), x[1] or y[1]
        if t.op == "const" and t.a[0] == 0 and type(t.a[0]) is int:
            return mk("list"), False
        return None
    r = go(t)
    return r[0] if r is not None and r[1] else None


def _close(init, nxt, rec, dom, d, I, heap):
    dp = (lambda t: I.deep(t, heap)) if heap is not None else (lambda t: t)
    if nxt is rec:
        return init
    # appends
    cat_el = _as_append(nxt, rec)
    if cat_el is not None:
        parts = []
        for c, x in cat_el:
            x = dp(x)
            if contains(x, rec) or contains(c, rec):
                return None
            if x.op == "list" and len(x.a) == 1:
                parts.append(mkmap(dom, x.a[0], c, d))
            elif x.op == "phi":
                parts.append(mk("flatmap", dom, x, c, d))
            else:
                parts.append(mk("flatmap", dom, x, c, d))
        r = init
        if len(parts) > 1:
            return None
        return cat2(r, parts[0]) if parts else r
    # += k
    inc = _as_inc(nxt, rec)
    if inc is not None:
        inc = dp(inc)
        li = _listinc(inc)
        if li is not None and not contains(li, rec):
            return binop("+", init, mk("flatmap", dom, li, TRUE, d))
        if not contains(inc, rec):
            if not _uses_bv(inc, d) and not _uses_rec(inc, d):
                if inc.op == "phi":
                    return phi(inc.a[0], binop("+", init, times(dom, inc.a[1])), binop("+", init, times(dom, inc.a[2])))
                return binop("+", init, times(dom, inc))
            return binop("+", init, mk("sumover", dom, inc, const(0), d))
    # indexed stores
    ups = _as_upd(nxt, rec)
    if ups is not None:
        r = init
        for path, v, c in ups:
            v, c = dp(v), dp(c)
            path = dp(path)
            bv = mk("bv", d)
            if not any(p.op == "pitem" and contains(p, bv) for p in path.a):
                return None
            # reads of the own cell see the initial content
            cell = read_path(rec, path.a)
            own = None
            if contains(v, rec) or contains(c, rec):
                first = step(rec, path.a[0])
                v2 = rewrite(v, lambda x: step(init, path.a[0]) if x is first else None)
                c2 = rewrite(c, lambda x: step(init, path.a[0]) if x is first else None)
                if contains(v2, rec) or contains(c2, rec):
                    # other disjoint attribute of the same container
                    return None
                v, c = v2, c2
            r = mk("updall", r, dom, c, path, v, d)
        return r
    n2 = dp(nxt)
    if not contains(n2, rec):
        if not _uses_bv(n2, d) and not _uses_rec(n2, d):
            if n2.op == "const" and init is n2:
                return init
            return mk("last", dom, n2, init, NONE, d)
        return mk("last", dom, n2, init, NONE, d)
    return None


def times(dom, k):
    if isc(k, 0):
        return const(0)
    if isc(k, 1):
        return dom
    return binop("*", dom, k)


def _uses_bv(t, d):
    b = mk("bv", d)
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x is b:
            return True
        k = BINDERS.get(x.op)
        if k is not None and k < len(x.a) and x.a[k] == d:
            st.append(x.a[1 if x.op == "updall" else 0])
            continue
        st.extend(x.a)
    return False


def _uses_rec(t, d):
    return any(x.op == "rec" and x.a[0] == d for x in subterms(t))


def _as_append(n, rec):
    """-> [(cond, piece)] when n == rec + pieces"""
    if n is rec:
        return []
    if n.op == "cat" and n.a[0] is rec:
        rest = n.a[1:]
        r = rest[0]
        for x in rest[1:]:
            r = cat(r, x)
        return [(TRUE, r)]
    if n.op == "phi":
        a, b = _as_append(n.a[1], rec), _as_append(n.a[2], rec)
        if a is None or b is None:
            return None
        if not a and len(b) == 1:
            return [(build("and", neg(n.a[0]), b[0][0]), b[0][1])]
        if not b and len(a) == 1:
            return [(build("and", n.a[0], a[0][0]), a[0][1])]
        if len(a) == 1 and len(b) == 1 and a[0][0] is TRUE and b[0][0] is TRUE:
            x, y = a[0][1], b[0][1]
            if x.op == "list" and y.op == "list" and len(x.a) == len(y.a) == 1:
                return [(TRUE, mk("list", phi(n.a[0], x.a[0], y.a[0])))]
            return [(TRUE, phi(n.a[0], x, y))]
    return None


def _as_inc(n, rec):
    if n is rec:
        return const(0)
    if n.op == "bin" and n.a[0] == "+":
        for x, y in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
            k = _as_inc(x, rec)
            if k is not None and not contains(y, rec):
                return binop("+", k, y)
    if n.op == "bin" and n.a[0] == "-":
        k = _as_inc(n.a[1], rec)
        if k is not None and not contains(n.a[2], rec):
            return binop("-", k, n.a[2]) if not isc(k, 0) else un("-", n.a[2])
    if n.op == "phi" and not contains(n.a[0], rec):
        a, b = _as_inc(n.a[1], rec), _as_inc(n.a[2], rec)
        if a is not None and b is not None:
            return phi(n.a[0], a, b)
    return None


def _as_upd(n, rec):
    """-> [(path, value, cond)]"""
    if n is rec:
        return []
    if n.op == "updp":
        a = _as_upd(n.a[0], rec)
        if a is None:
            return None
        return a + [(n.a[1], n.a[2], TRUE)]
    if n.op == "phi":
        a, b = _as_upd(n.a[1], rec), _as_upd(n.a[2], rec)
        if a is None or b is None:
            return None
        # shared prefix
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        return a[:k] + [(p, v, build("and", n.a[0], c)) for p, v, c in a[k:]] + [(p, v, build("and", neg(n.a[0]), c)) for p, v, c in b[k:]]
    return None
