"""Shared machinery of the property checks: obligations, summaries, reporting."""
import json
import os
import sys
import time

from .interp import Interp, _Never
from .loader import AnalysisBroken, Program
from .term import *  # noqa
from .dom import Dom, Obj, Raised, Sol, Unknown, same, truthy

sys.setrecursionlimit(60000)


class Gone(Exception):
    """an internal anchor (helper, private method) no longer exists: the obligation cannot be posed"""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.prog = Program()
        self.obs = []          # (id, where, rule, status, detail)
        self.analysed = set()
        self.sites = 0
        self._sum = {}

    # -------------------------------------------------------------- obligations
    def add(self, oid, where, status, rule, detail=""):
        """status: True holds, False violated, None undecided"""
        self.obs.append({"id": oid, "where": where, "rule": rule, "status": {True: "holds", False: "violated", None: "undecided"}[status],
                         "detail": str(detail)[:600]})
        return status

    def ob(self, oid, where, rule, fn):
        """run a deciding function; Unknown / Gone / analysis trouble leave the obligation undecided"""
        try:
            r = fn()
            detail = ""
            if isinstance(r, tuple):
                r, detail = r
            if r is None:
                return self.add(oid, where, None, rule, detail or "not decidable on this form of the code")
            return self.add(oid, where, bool(r), rule, detail)
        except (Unknown, Raised, Gone) as e:
            return self.add(oid, where, None, rule, f"{type(e).__name__}: {e}")
        except AnalysisBroken as e:
            return self.add(oid, where, None, rule, f"analysis: {e}")
        except RecursionError:
            return self.add(oid, where, None, rule, "recursion depth")
        except Exception as e:  # an analyser slip must never raise an alarm
            if os.environ.get("SA_DEBUG"):
                raise
            return self.add(oid, where, None, rule, f"analyser: {type(e).__name__}: {e}")

    # -------------------------------------------------------------- anchors
    def cls(self, name):
        c = self.prog.cls(name)
        if c is None:
            raise Gone(f"class {name}")
        return c

    def method(self, cname, mname):
        c = self.cls(cname)
        f = c.method(mname)
        if f is None:
            raise Gone(f"{cname}.{mname}")
        return f

    def func(self, name):
        f = self.prog.func(name)
        if f is None:
            raise Gone(f"function {name}")
        return f

    def where(self, f):
        return f"{f.module.rel}:{f.node.lineno} {f.qual}"

    # -------------------------------------------------------------- summaries
    def run(self, f, obj_cls=None, args=None, kw=None, opaque=("Solution", "SearchSpace", "GaussianProcess", "RandomForest"), opaque_funcs=(), types=None, pre=None, key=None, facts=(), budget=400000):
        """value-flow summary of one function; -> Summary"""
        I = Interp(self.prog, opaque=set(opaque), opaque_funcs=set(opaque_funcs), types=types or {}, budget=budget)
        names = f.args()
        a = []
        o = None
        if obj_cls is not None and f.kind not in ("staticmethod",):
            o = I.new_obj(obj_cls, False)
            a.append(o if f.kind != "classmethod" else I.cterm(obj_cls))
            names = names[1:]
        if pre is not None:
            pre(I, o)
        if args is None:
            args = [mk("sym", n) for n in names]
        I.st.pc = tuple(facts)
        # inputs live in cells of their own: what was read before a mutation keeps its meaning
        args = [I.fresh(x) if x.op == "sym" else x for x in args]
        I.argcells = dict(zip(names, args))
        kw = {k: I.fresh(x) if x.op == "sym" else x for k, x in (kw or {}).items()}
        I.argcells.update(kw)
        try:
            r = I.call_func(f, a + list(args), kw, f.node)
        except _Never:
            r = None
            I.frames.clear()
            if I.st is None:
                from .interp import St
                I.st = St({}, {}, ())
        s = Summary(I, o, r, f)
        self.analysed |= {q for q in I.analysed}
        self.sites += len(I.events)
        return s

    def summ(self, cname, mname, **k):
        f = self.method(cname, mname)
        key = (cname, mname, repr(sorted((x, str(y)) for x, y in k.items() if x not in ("pre",))), k.get("pre"))
        if key not in self._sum:
            self._sum[key] = self.run(f, self.cls(cname), **k)
        return self._sum[key]


class Summary:
    def __init__(self, I, obj, ret, f):
        self.I, self.obj, self.func = I, obj, f
        self.dead = I.st is None
        self.ret = I.deep(ret) if not self.dead and ret is not None else ret
        self.events = I.events
        self.where = f"{f.module.rel}:{f.node.lineno} {f.qual}"

    def attr(self, name):
        """final value of self.<name>, or None when untouched"""
        v = self.I.st.heap.get((self.obj, name))
        if v is None:
            r = self.I.default_attr(self.obj, name)
            if r not in self.I.st.heap:
                return None
            v = r
        return self.I.deep(v)

    def final(self, name):
        """content of an argument when the call returns: what the caller sees afterwards"""
        return self.I.deep(self.I.argcells[name])

    def get(self, name):
        v = self.attr(name)
        return v if v is not None else mk("sym", f"self.{name}")

    def calls(self, *names):
        return [e for e in self.events if e.kind in ("call", "mcall", "acall", "new") and (e.name in names)]


def pcond(e):
    return build("and", *e.pc) if e.pc else TRUE


def instances(d, e, k=0):
    """abstract occurrences of an event: yields the three-valued truth of its path condition with the indices of the
    enclosing loops bound"""
    from .dom import Unknown, Raised
    if k == len(e.loop):
        try:
            yield d.tri(pcond(e))
        except Raised:
            yield False
        return
    dom, b = e.loop[k]
    try:
        its = list(d.iters(dom.a[0] if dom.op == "until" else dom))
    except (Unknown, Raised):
        yield None
        return
    for i in its:
        with d.bind(b, i):
            yield from instances(d, e, k + 1)


def refused(d, s):
    """the abstract call ends in an exception (assert / raise on a certain path)"""
    from .dom import Unknown, Raised
    unk = None
    for e in s.events:
        if e.kind not in ("assert", "raise"):
            continue
        for tv in instances(d, e):
            if tv is None:
                unk = e
            elif tv:
                try:
                    if e.kind == "raise" or not bool(d.ev(e.args[0])):
                        return True
                except Raised:
                    return True
                except Unknown:
                    unk = e
    if unk is not None:
        raise Unknown("whether a guard at line %s holds" % getattr(unk.node, "lineno", "?"))
    try:
        d.ev(s.ret)
    except Raised:
        return True
    return False


def live(d, e):
    """the event is not excluded by its path condition in this valuation"""
    return d.tri(pcond(e)) is not False


def optimizer_classes(ctx):
    base = ctx.cls("BaseOptimizer")
    return [c for c in ctx.prog.all_classes() if c.issub(base) and c is not base and c.name not in ("BaseBO",)]
