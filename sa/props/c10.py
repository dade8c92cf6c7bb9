"""Saving never damages the optimizer and loading restores it."""
import itertools

from ..interp import _Crash, _Never
from ..session import *  # noqa

TECHNIQUE = "crash-point (exceptional control-flow) analysis of save(); encode/decode pairing of save()/load() state over the abstract heap"
RULE = ("Crash-point analysis: save() is interpreted once for each call inside it at which an exception can leave, following handlers, final parts and context managers from there; at every exit each attribute of "
        "the live optimizer must have its value from before. The state handed to the serialiser is then given to load(), with decoding cancelling its own encoding only, and every attribute must come back; "
        "the logger is followed through dump_logger/load_logger/get_logger for every combination of handlers.")

CLASSES = ("BO", "ParallelBO", "NoisyBO", "PCABO", "MOBO", "OptimizerPipeline")


def data_type(cons):
    return cons.endswith("-dict")


def kwargs(c, cons):
    kw = {"search_space": mk("sym", "space"), "obj_fun": mk("sym", "f"), "minimize": True, "model": mk("sym", "model"), "max_FEs": 100, "n_job": 1, "log_file": "log", "verbose": True, "eval_type": "dict" if data_type(cons) else "list"}
    cons = cons.split("-")[0]
    kw.update(eq_fun=mk("sym", "h") if cons in ("constraints", "equality") else None, ineq_fun=mk("sym", "g") if cons in ("constraints", "inequality") else None)
    return kw


DUMPS = ("dumps",)


def codec(last):
    def decode(I, args, kw, node):
        if not args:
            return None
        d = I.deep(args[0])
        if d.op == "call" and str(d.a[0]).split(".")[-1] == "dumps" and str(d.a[0]).split(".")[0] == last and len(d.a) > 1:
            x = d.a[1]
            I.ev("call", last + ".loads", [d], {}, node, raw=(None, args, kw), res=x)
            return I.fresh(x) if x.op in ("dict", "list") else x
        return None
    return decode


def session(ctx, cname, cons, data):
    key = ("c10", cname, cons)
    s = Session(ctx, cname, kwargs(cname, cons), opaque=OPAQUE + ("KPCA", "LinearTransform", "Node"), opaque_funcs=("get_logger", "func_with_list_arg", "partial_argument"))
    I = s.I
    for m in ("dill", "pickle", "cloudpickle"):
        I.hooks[m + ".loads"] = codec(m)
    s.set("logger", mk("sym", "log"))
    if data:
        I.st.heap[(s.obj, "data")] = I.fresh(mk("call", "Solution", mk("sym", "history")))
        # a later moment: counters have moved, what was empty has been filled
        for k, v in [(k, I.deep(v)) for k, v in I.st.heap.items() if isinstance(k, tuple) and len(k) == 2 and k[0] is s.obj and isinstance(k[1], str)]:
            tok = mk("sym", "later:" + k[1])
            if v.op == "const" and type(v.a[0]) is int and k[1].endswith("_count"):
                I.st.heap[k] = const(v.a[0] + 7)
            elif v.op == "list" and not v.a:
                I.st.heap[k] = I.fresh(mk("list", tok))
            elif v.op == "dict" and not v.a:
                I.st.heap[k] = I.fresh(mk("dict", mk("kv", const("key"), tok)))
    I.objs[s.obj] = (I.objs[s.obj][0], True)
    I.events.clear()
    return s


def state(I, o, heap):
    out = {}
    for k, v in heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] is o and isinstance(k[1], str):
            out[k[1]] = I.deep(v, heap)
    return out


def diff(d, a, b):
    """attributes that differ"""
    for n in sorted(set(a) | set(b)):
        if n.startswith("__"):
            continue
        x, y = a.get(n), b.get(n)
        if x is y:
            continue
        if x is None and y.op == "undef":
            continue
        if x is None:
            return f"`{n}` has been added"
        if y is None:
            return f"`{n}` has been removed"
        try:
            u, v = d.ev(x), d.ev(y)
        except (Unknown, Raised) as e:
            raise Unknown(f"value of {n}: {e}")
        if u is v or isinstance(u, (int, float, str, bool, tuple)) and u == v:
            continue
        return f"`{n}` was {show(x, 3)[:80]} and is now {show(y, 3)[:120]}"
    return None


class CDom(SDom):
    n = 3   # rows of the history

    def o_sym(self, t, name):
        if name.startswith("later:"):
            return self.tag.setdefault(("tok", t), Obj(name))
        return super().o_sym(t, name)

    def o_call(self, t, name, *a):
        if name == "len" and len(a) == 1 and (a[0] is mk("sym", "history") or a[0].op == "call" and a[0].a[0] == "Solution"):
            return self.n
        try:
            return super().o_call(t, name, *a)
        except Unknown:
            key = ("tok", t)
            if key not in self.tag:
                self.tag[key] = Obj(show(t, 4)[:80])
            return self.tag[key]


def dom(ctx, n=3):
    d = CDom(ctx, {"history": Obj("history"), "log": Obj("log"), "space": Obj("space"), "model": Obj("model"), "f": Obj("f"), "h": Obj("h"), "g": Obj("g")})
    d.n = n
    return d


def changed(ctx, a, b):
    """attributes that differ, with an ordinary and with an empty history"""
    d = diff(dom(ctx), a, b)
    if d is None:
        d = diff(dom(ctx, 0), a, b)
        d = d and "with an empty history " + d
    return d


def save(ctx, s, crash):
    f = s.cls.method("save")
    if f is None:
        raise Gone("save")
    I = s.I
    I.crash = crash
    try:
        s.call("save", **{f.args()[1]: mk("sym", "filename")})
        return None
    except _Crash as c:
        I.frames.clear()
        return c
    finally:
        I.crash = None


def check(ctx):
    for cname in CLASSES:
        c = ctx.prog.cls(cname, False)
        if c is None or c.method("save") is None or c.method("load") is None:
            continue
        for cons, data in itertools.product(("free", "constraints", "equality", "inequality", "constraints-dict"), (False, True)):
            if cname != "BO" and (cons, data) not in (("free", False), ("constraints", True)):
                continue
            one(ctx, c, cname, cons, data)
    loggers(ctx)


def one(ctx, c, cname, cons, data):
    tag = f"{cname}/{cons}/{'history' if data else 'fresh'}"
    w = ctx.where(c.method("save"))
    box = {}

    def base():
        if "snap" not in box:
            s = session(ctx, cname, cons, data)
            pre = state(s.I, s.obj, s.I.st.heap)
            names, snaps = [], []

            def see(e):
                names.append(e)
                if e.name and e.name.split(".")[-1] in ("dump", "dumps") and e.name.split(".")[0] in ("dill", "pickle", "cloudpickle") and e.args and e.args[0].op == "obj":
                    snaps.append((e, state(s.I, e.args[0], s.I.st.heap)))
                return False
            save(ctx, s, see)
            box.update(s=s, pre=pre, names=names, snap=snaps, post=state(s.I, s.obj, s.I.st.heap))
        return box

    def normal():
        b = base()
        d = changed(ctx, b["pre"], b["post"])
        return d is None, f"after save() {d}"
    ctx.ob(f"save:done/{tag}", w, "a completed save() leaves every attribute as it was", normal)

    def crashes():
        b = base()
        n = len(b["names"])
        if not n:
            raise Unknown("no call inside save()")
        for k in range(n):
            s = session(ctx, cname, cons, data)
            pre = state(s.I, s.obj, s.I.st.heap)
            seen = [0]

            def at(e):
                seen[0] += 1
                return seen[0] == k + 1
            cr = save(ctx, s, at)
            where = b["names"][k]
            if s.I.st is None:
                raise Unknown("state after the exception")
            d = changed(ctx, pre, state(s.I, s.obj, s.I.st.heap))
            if d is not None:
                return False, f"when {where.name} at line {getattr(where.node, 'lineno', '?')} fails, {d}"
        return True
    ctx.ob(f"save:failing/{tag}", w, "whichever call inside save() fails, every attribute is left as it was", crashes)

    def load():
        b = base()
        if any(c.method(m) for m in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__")):
            raise Unknown("custom serialisation protocol")
        if len(b["snap"]) != 1:
            raise Unknown(f"{len(b['snap'])} dumps of the optimizer")
        snap = b["snap"][0][1]
        f = c.method("load")
        s = session(ctx, cname, cons, data)
        I = s.I
        o = I.new_obj(c, True)
        for n, v in snap.items():
            I.st.heap[(o, n)] = v
        for m in ("dill", "pickle", "cloudpickle"):
            I.hooks[m + ".load"] = lambda I_, args, kw, node: o
        r = I.call_func(f, [I.cterm(c)], {f.args()[1]: mk("sym", "filename")}, f.node)
        ctx.analysed.update(I.analysed)
        if r is not o:
            return False, f"load() returns {show(r, 4)[:100]} instead of the restored optimizer"
        got, want = state(I, o, I.st.heap), dict(b["pre"])
        lg, ol = got.pop("logger", None), want.pop("logger", None)
        d = changed(ctx, want, got)
        if d is not None:
            return False, f"after load() {d}"
        for H in HANDLERS:
            L = Log("BO (opt.id7)", H)
            D = LDom(ctx, {"log": L})
            if lg is None or lg.op == "call" and str(lg.a[0]).split(".")[-1] in ("dumps", "dump_logger"):
                return False, f"after load() the logger is {'missing' if lg is None else 'still encoded'}"
            x = D.ev(lg)
            if x is not L:
                bad = restored(x, L)
                if bad:
                    return False, f"with handlers {H} the logger is restored as {x}: {bad}"
        return True
    ctx.ob(f"load:{tag}", ctx.where(c.method("load")), "every attribute of the saved optimizer comes back: history, logger settings, constraint wrappers and all others", load)


# ------------------------------------------------------------------ loggers
HANDLERS = ((), ("console",), ("file:/tmp/a",), ("console", "file:/tmp/a"), ("file:/tmp/a", "console"), ("file:/tmp/a", "file:/tmp/b"))


class Hnd(Obj):
    def __init__(self, kind):
        k, _, f = kind.partition(":")
        super().__init__(kind, kind=k, cls="logging.FileHandler" if k == "file" else "logging.StreamHandler", level=10 if k == "file" else 20)
        if k == "file":
            self.baseFilename = f


class Log(Obj):
    def __init__(self, name, handlers):
        super().__init__("logger " + name, name=name, handlers=[Hnd(h) for h in handlers], level=10, propagate=False)


class LDom(CDom):
    def __init__(self, ctx, val):
        super().__init__(ctx, val)
        self.fns.pop("get_logger", None)
        self.fns["get_logger"] = self.getlog
        self.fns["type"] = lambda x: ("class", x.cls) if isinstance(x, Hnd) else self.unk("type")
        self.fns["logging.FileHandler"] = lambda f, *a, **k: Hnd("file:" + str(f))
        self.fns["logging.StreamHandler"] = lambda *a, **k: Hnd("console")
        self.fns["logging.getLogger"] = lambda n=None: Log(str(n), self.existing)
        self.existing = ()

    def unk(self, m):
        raise Unknown(m)

    def getlog(self, *p, **kw):
        f = self.ctx.func("get_logger")
        b = dict(zip(f.args(), p))
        b.update(kw)
        return Call("get_logger", (), b)

    def o_mod(self, t, name):
        if name in ("logging.StreamHandler", "logging.FileHandler"):
            return ("class", name)
        return super().o_mod(t, name)

    def isinst(self, v, k):
        if isinstance(v, Hnd):
            if k.op == "tuple":
                return any(self.isinst(v, x) for x in k.a)
            n = str(k.a[0]) if k.op == "mod" else ""
            if n == "logging.FileHandler":
                return v.kind == "file"
            if n in ("logging.StreamHandler", "logging.Handler"):
                return True
            raise Unknown("handler class " + n)
        return super().isinst(v, k)


def restored(x, L):
    """x: the get_logger call made on loading"""
    if not (isinstance(x, Call) and x.fn == "get_logger"):
        raise Unknown("logger")
    k = x.kw
    if k.get("logger_id") != L.name:
        return f"its name is {k.get('logger_id')} instead of {L.name}"
    con = any(h.kind == "console" for h in L.handlers)
    if bool(k.get("console", False)) != con:
        return f"console output was {'on' if con else 'off'}"
    files = k.get("file")
    files = [files] if isinstance(files, str) else list(files or [])
    want = [h.baseFilename for h in L.handlers if h.kind == "file"]
    if sorted(files) != sorted(want):
        return f"it logged to {want}"
    return None


def loggers(ctx):
    f = ctx.func("get_logger")
    n = f.args()
    for existing, file, console in itertools.product(((), ("console",), ("file:/tmp/a",), ("console", "file:/tmp/a")), (None, "/tmp/a", ["/tmp/a"], ["/tmp/a", "/tmp/b"]), (False, True)):
        def go():
            if ("getlog",) not in ctx._sum:
                ctx._sum[("getlog",)] = ctx.run(f, args=[mk("sym", x) for x in n])
            s = ctx._sum[("getlog",)]
            d = LDom(ctx, {n[0]: "id7", "file": file, "console": console})
            d.existing = existing
            d.exc = False
            d.fns["numpy.setdiff1d"] = lambda a, b: [x for x in a if x not in b]
            made = [Hnd(h) for h in existing]
            for e in s.events:
                if e.kind == "mcall" and e.name == "addHandler":
                    for _ in occur(d, e):
                        made.append(d.ev(e.args[1]))
            con = sum(h.kind == "console" for h in made)
            files = sorted(h.baseFilename for h in made if h.kind == "file")
            old = [h.partition(":")[2] for h in existing if h.startswith("file")]
            asked = [file] if isinstance(file, str) else list(file or [])
            if con != int(console or "console" in existing):
                return False, f"{con} console handlers for console={console}, existing handlers {existing}"
            if len(set(files)) != len(files):
                return False, f"log files {files} with existing handlers {existing}"
            if not old and files != sorted(asked):
                return False, f"log files {files} for file={file}"
            return True
        ctx.ob(f"logger:create/{'+'.join(existing) or 'none'}/{file}/{console}".replace(" ", ""), ctx.where(f), "handlers are created as requested, and only once", go)


def occur(d, e, k=0):
    for c in e.pc if k == 0 and e.loop else ():
        try:
            if d.tri(c) is False:
                return
        except (Unknown, Raised):
            pass
    if k == len(e.loop):
        tv = d.tri(pcond(e))
        if tv is None:
            raise Unknown("condition " + show(pcond(e), 4)[:100])
        if tv:
            yield True
        return
    dm, b = e.loop[k]
    for i in list(d.iters(dm.a[0] if dm.op == "until" else dm)):
        with d.bind(b, i):
            yield from occur(d, e, k + 1)
