"""debug: print the value-flow summary of a method.  dump.py Class.method [depth]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
from sa.interp import Interp
from sa.term import *
prog = Program()
cls, meth = sys.argv[1].split(".")
depth = int(sys.argv[2]) if len(sys.argv) > 2 else 8
I = Interp(prog, opaque={"Solution", "SearchSpace"} if "-a" not in sys.argv else set())
if cls:
    c = prog.cls(cls)
    k, f, _ = c.find(meth)
    o = I.new_obj(c, False)
    args = [o] + [mk("sym", a) for a in f.args()[1:]]
else:
    f = prog.func(meth); args = [mk("sym", a) for a in f.args()]
r = I.call_func(f, args, {}, None)
print("RET", show(I.deep(r), depth))
for k, v in I.st.heap.items():
    if isinstance(k, tuple) and I.deep(v) is not I.default_attr(*k):
        print("HEAP", k[0], k[1], "=", show(I.deep(v), depth))
    elif not isinstance(k, tuple) and k.op == "sym":
        print("HEAP", k, "=", show(I.deep(v), depth))
if "-e" in sys.argv:
    for e in I.events:
        if e.kind not in ("enter", "leave", "return"): print(e.kind, e.name, [show(a, 4) for a in e.args], {k: show(v, 4) for k, v in e.kw.items() if v is not None}, "pc", [show(p, 4) for p in e.pc], e.where)
