"""Abstract semantics of value-flow terms over finite domains.

A `Dom` interprets a summary term (produced by `interp`) in one abstract valuation: rows are identity tokens, numbers
are representatives of order classes, conditions are three-valued.  Loop summaries are folded over the (finite)
abstract iteration space.  Anything without a modelled meaning is `Unknown`, which makes the obligation undecided -
never a violation."""
import math

import numpy as np

from .term import T, TRUE, mk, show, subterms


class Unknown(Exception):
    pass


class Diverges(Unknown):
    """the abstract loop does not end: its state recurs under an unchanging environment, or the iteration bound is reached (states kept)"""

    def __init__(self, kind, states):
        super().__init__("a loop that " + ("returns to the same state" if kind == "recurs" else "goes on beyond the bound"))
        self.kind, self.states = kind, states


class Raised(Exception):
    """the abstract path ends in an exception of the analysed program"""


class Fails(Raised):
    """an exception that follows from the operand types alone, whatever the values"""


def closed(t, _c={}):
    r = _c.get(t)
    if r is None:
        r = not any(x.op in ("bv", "rec") for x in subterms(t))
        _c[t] = r
    return r


BINDERS = {"updall", "map", "flatmap", "dictmap", "sumover", "anyover", "first", "last", "mu"}
_FV, _EMPTY = {}, frozenset()


def fv(t):
    """free iteration indices and loop values of a term"""
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x in _FV:
            continue
        if x.op == "bv":
            _FV[x] = frozenset([x.a[0]])
            continue
        if x.op == "rec":
            _FV[x] = frozenset([x])
            continue
        sub = [y for y in x.a if isinstance(y, T)]
        if not done:
            st.append((x, True))
            st.extend((y, False) for y in sub if y not in _FV)
            continue
        r = _EMPTY
        for y in sub:
            r = r | _FV[y] if _FV[y] else r
        if r and x.op in BINDERS:
            b = {x.a[-1]}
            if x.op == "mu":
                b |= {e.a[0] for e in x.a[2].a}
            r = r - b
        _FV[x] = r
    return _FV[t]


class Sol:
    """abstract Solution: row tokens with their own fitness / n_eval / index and column names"""

    def __init__(self, rows, fitness=None, n_eval=None, index=None, names=None, n_obj=1):
        self.rows = list(rows)
        n = len(self.rows)
        self.n_obj = n_obj
        self.fitness = np.array(fitness, dtype=float) if fitness is not None else (
            np.zeros(n) if n_obj == 1 else np.zeros((n, n_obj)))
        self.n_eval = list(n_eval) if n_eval is not None else [0] * n
        self.index = list(index) if index is not None else list(range(n))
        self.names = names
        self.single = False

    def __len__(self):
        return len(self.rows)

    def copy(self):
        s = Sol(self.rows, self.fitness.copy(), self.n_eval, self.index, self.names, self.n_obj)
        s.single = self.single
        return s

    def take(self, i):
        if isinstance(i, tuple):
            if len(i) == 2 and isinstance(i[1], slice) and i[1] == slice(None):
                i = i[0]
            else:
                raise Unknown("column selection")
        if isinstance(i, (int, np.integer)) and not isinstance(i, bool):
            if not -len(self.rows) <= i < len(self.rows):
                raise Raised("index")
            i = int(i) % len(self.rows)
            s = Sol([self.rows[i]], self.fitness[i:i + 1], [self.n_eval[i]], [self.index[i]], self.names, self.n_obj)
            s.single = True
            return s
        if isinstance(i, slice):
            idx = list(range(len(self.rows)))[i]
        else:
            a = np.asarray(i)
            if a.dtype == bool:
                if a.ndim != 1 or len(a) != len(self.rows):
                    raise Raised("mask")
                idx = list(np.nonzero(a)[0])
            else:
                idx = [int(x) for x in a.ravel()]
        idx = [int(x) for x in idx]
        return Sol([self.rows[k] for k in idx], self.fitness[idx], [self.n_eval[k] for k in idx],
                   [self.index[k] for k in idx], self.names, self.n_obj)

    def __add__(self, o):
        if not isinstance(o, Sol):
            raise Unknown("add")
        return Sol(self.rows + o.rows, np.concatenate([self.fitness, o.fitness]), self.n_eval + o.n_eval,
                   self.index + o.index, self.names, self.n_obj)

    def key(self):
        return ("Sol", tuple(self.rows), tuple(map(tuple, self.fitness.reshape(len(self.rows), -1).tolist())),
                tuple(self.n_eval), tuple(self.index))

    def __eq__(self, o):
        return isinstance(o, Sol) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"Sol({self.rows}, f={self.fitness.tolist()})"


class Obj:
    """abstract record"""

    def __init__(self, _name="obj", **k):
        self.__dict__.update(k)
        self._name = _name

    def __repr__(self):
        return self._name


class Failed:
    def __init__(self, e):
        self.e = e


def truthy(v):
    if isinstance(v, (Obj,)):
        return True
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return bool(v.ravel()[0])
        raise Unknown("array truth")
    return bool(v)


def same(a, b):
    try:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype == object or b.dtype == object:
                return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
            return bool(np.array_equal(a, b, equal_nan=True)) if a.dtype.kind == "f" or b.dtype.kind == "f" else bool(np.array_equal(a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return a == b
    except Exception:
        return a is b


def recurs(a, b):
    if isinstance(a, Failed) or isinstance(b, Failed):
        return False
    return type(a) is type(b) and same(a, b) is True


def copyv(v):
    if isinstance(v, (list,)):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, Sol):
        return v.copy()
    return v


NPF = {"numpy." + n: getattr(np, n) for n in (
    "min max amin amax mean std var sum any all isnan isinf isposinf isneginf isfinite argmin argmax argsort sort abs sqrt exp log clip "
    "round concatenate vstack hstack array asarray asanyarray atleast_1d atleast_2d zeros ones empty arange eye ravel "
    "logical_and logical_or logical_not nonzero where isclose allclose maximum minimum prod cumsum dot inner outer "
    "setdiff1d unique array_equal full zeros_like ones_like empty_like repeat tile nanmin nanmax nanargmin nanargmax "
    "expand_dims squeeze transpose reshape count_nonzero sign power square subtract add multiply divide floor ceil "
    "flip append delete isin in1d equal not_equal less greater less_equal greater_equal diff median ptp linspace "
    "column_stack stack array_split take compress newaxis nansum nanmean flatnonzero argwhere bitwise_not bitwise_and bitwise_or bitwise_xor logical_xor invert nan_to_num positive negative ndim shape size cumprod searchsorted take_along_axis partition argpartition lexsort round_ absolute fabs rint trunc mod remainder floor_divide true_divide log2 log10 log1p expm1 sin cos tan around fmin fmax reciprocal float_power exp2 hypot copysign full_like identity diag triu tril matmul einsum broadcast_to swapaxes moveaxis rollaxis fliplr flipud roll split hsplit vsplit dstack atleast_3d nanstd nanvar nanmedian quantile percentile average intersect1d union1d setxor1d ndindex indices meshgrid diagonal trace kron cross interp digitize histogram bincount select choose piecewise extract signbit heaviside tanh sinh cosh arctan resize trim_zeros ix_ ravel_multi_index unravel_index nancumsum logspace geomspace array_equiv iscomplexobj isscalar ediff1d cov corrcoef block logaddexp divmod left_shift right_shift").split() if hasattr(np, n)}
for _n in ("inf", "nan", "pi", "e"):
    NPF.pop("numpy." + _n, None)

NPF.update({"numpy.linalg.norm": np.linalg.norm, "numpy.isreal": np.isreal, "math.sqrt": math.sqrt, "math.floor": math.floor, "math.ceil": math.ceil, "math.isnan": math.isnan, "math.isinf": math.isinf, "math.isfinite": math.isfinite,
            "math.exp": math.exp, "math.log": math.log, "math.isclose": math.isclose, "math.hypot": math.hypot, "math.fsum": math.fsum, "math.fabs": math.fabs, "math.pow": math.pow})
import sys as _sys  # noqa: E402

CONSTMOD = {"sys.float_info.max": _sys.float_info.max, "sys.float_info.min": _sys.float_info.min, "sys.maxsize": _sys.maxsize, "numpy.inf": math.inf, "math.inf": math.inf, "numpy.nan": math.nan, "numpy.newaxis": None, "object": object, "float": float,
            "int": int, "bool": bool, "str": str, "numpy.pi": math.pi, "math.pi": math.pi, "numpy.float64": float, "list": list, "numpy.ndarray": np.ndarray, "tuple": tuple, "dict": dict, "set": set,
            "numpy.str_": np.str_, "numpy.bool_": np.bool_, "numpy.integer": np.integer, "numpy.int64": np.int64}


class Dom:
    def __init__(self, val=None, fns=None, limit=60, volatile=()):
        self.volatile = set(volatile)
        self._vol = {}
        self.val = {}
        self.pats = []
        for k, v in (val or {}).items():
            self.val[k] = v
        self.fns = fns or {}
        self.memo = {}
        self.bvs, self.recs, self.rver, self._n = {}, {}, {}, 0
        self.limit = limit
        self.detect = False

    # ------------------------------------------------------------------
    def ev(self, t):
        if not isinstance(t, T):
            return t
        if t.op == "const":
            return t.a[0]
        if not self.isvol(t):
            k = self.key(t)
            if k in self.memo:
                r = self.memo[k]
                if isinstance(r, Exception):
                    raise r
                return r
            try:
                r = self._ev(t)
            except (Unknown, Raised) as e:
                self.memo[k] = e
                raise
            except RecursionError:
                raise
            except Exception as e:
                self.memo[k] = Unknown(f"{type(e).__name__}: {e} in {show(t, 3)}")
                raise self.memo[k]
            self.memo[k] = r
            return r
        try:
            return self._ev(t)
        except (Unknown, Raised, RecursionError):
            raise
        except Exception as e:
            raise Unknown(f"{type(e).__name__}: {e} in {show(t, 3)}")

    def key(self, t):
        """a term together with the values of what it leaves free"""
        f = fv(t)
        if not f:
            return t
        return (t, tuple((x, self.rver.get(x) if isinstance(x, T) else self.bvs.get(x)) for x in f))

    def isvol(self, t):
        """contains a call whose abstract result varies between iterations"""
        if not self.volatile:
            return False
        r = self._vol.get(t)
        if r is None:
            r = any(x.op in ("call", "mcall", "acall") and (show(x.a[0], 8) if x.op == "acall" else x.a[0]) in self.volatile for x in subterms(t))
            self._vol[t] = r
        return r

    def tri(self, t):
        """three-valued truth"""
        try:
            return truthy(self.ev(t))
        except Unknown:
            return None

    def _ev(self, t):
        o, a = t.op, t.a
        k = show(t, 6) if o in ("sym", "attr", "ref") else None
        if k is not None and k in self.val:
            v = self.val[k]
            return copyv(v) if not callable(v) or isinstance(v, (Obj, Sol)) else v
        f = getattr(self, "o_" + o, None)
        if f is None:
            raise Unknown(f"{o}: {show(t, 3)}")
        return f(t, *a)

    def o_ref(self, t, n):
        raise Unknown(f"symbol {n}")

    def o_sym(self, t, n):
        raise Unknown(f"symbol {n}")

    def o_new(self, t, n):
        raise Unknown("ref")

    def o_obj(self, t, *a):
        return Obj("<%s>" % (a[1],))

    def o_bv(self, t, d):
        if d not in self.bvs:
            raise Unknown("free index")
        return self.bvs[d]

    def o_rec(self, t, *a):
        if t not in self.recs:
            raise Unknown("free loop value")
        v = self.recs[t]
        if isinstance(v, Failed):
            raise v.e
        return v

    def o_undef(self, t):
        raise Unknown("undefined")

    def o_mod(self, t, n):
        if n in CONSTMOD:
            return CONSTMOD[n]
        raise Unknown(f"module value {n}")

    def o_func(self, t, *a):
        return "function " + ".".join(map(str, a[:2]))

    def o_closure(self, t, *a):
        return "closure " + ".".join(map(str, a))

    def o_ellipsis(self, t):
        return Ellipsis

    def o_slice(self, t, a, b, c):
        f = lambda x: None if x is None else int(x)
        return slice(f(self.ev(a)), f(self.ev(b)), f(self.ev(c)))

    def seq(self, xs):
        out = []
        for x in xs:
            if x.op == "star":
                out.extend(self.it(x.a[0]))
            else:
                out.append(self.ev(x))
        return out

    def o_list(self, t, *a):
        return self.seq(a)

    def o_tuple(self, t, *a):
        return tuple(self.seq(a))

    def o_set(self, t, *a):
        return set(self.seq(a))

    def o_dict(self, t, *a):
        d = {}
        for x in a:
            if x.op == "kv":
                d[self.ev(x.a[0])] = self.ev(x.a[1])
            else:
                d.update(self.ev(x.a[0] if x.op == "star" else x))
        return d

    def o_dictupd(self, t, a, b):
        d = dict(self.ev(a))
        d.update(self.ev(b))
        return d

    def o_dictdel(self, t, a, k):
        d = dict(self.ev(a))
        d.pop(self.ev(k), None)
        return d

    def o_cat(self, t, *a):
        out = []
        for x in a:
            out = out + list(self.itv(self.ev(x)))
        return out

    def o_fstr(self, t, *a):
        return "".join(str(self.ev(x)) for x in a)

    def itv(self, v):
        if isinstance(v, Sol):
            return [v.take(i) for i in range(len(v))]
        if isinstance(v, (Obj, int, float)) or v is None:
            raise Unknown("iteration")
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=str)
        return list(v)

    def it(self, t):
        return self.itv(self.ev(t))

    def o_phi(self, t, c, a, b):
        tv = self.tri(c)
        if tv is True:
            return self.ev(a)
        if tv is False:
            return self.ev(b)
        try:
            x, y = self.ev(a), self.ev(b)
        except Raised:
            raise Unknown(f"branch on {show(c, 4)}")
        if same(x, y):
            return x
        raise Unknown(f"branch on {show(c, 4)}")

    def o_and(self, t, *a):
        unk = None
        v = True
        for x in a:
            try:
                v = self.ev(x)
                if not truthy(v):
                    return v if unk is None else False
            except Unknown as e:
                unk = unk or e
        if unk:
            raise unk
        return v

    def o_or(self, t, *a):
        unk = None
        v = False
        for x in a:
            try:
                v = self.ev(x)
                if truthy(v):
                    return v if unk is None else True
            except Unknown as e:
                unk = unk or e
        if unk:
            raise unk
        return v

    def o_not(self, t, a):
        return not truthy(self.ev(a))

    def o_cmp(self, t, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op == "is":
            return x is y if x is None or y is None or isinstance(x, bool) or isinstance(y, bool) else same(x, y)
        if op == "is not":
            return not (x is y if x is None or y is None or isinstance(x, bool) or isinstance(y, bool) else same(x, y))
        if op in ("in", "not in"):
            r = any(same(x, z) for z in (y.keys() if isinstance(y, dict) else y)) if not isinstance(y, (str, set)) else x in y
            return r if op == "in" else not r
        if isinstance(x, list) and isinstance(y, np.ndarray):
            x = np.asarray(x)
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if isinstance(x, (Obj, Sol)) or isinstance(y, (Obj, Sol)):
            raise Unknown("order of objects")
        return x < y if op == "<" else x <= y

    def o_bin(self, t, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, list) and isinstance(y, np.ndarray) and op != "+":
            x = np.asarray(x)
        if op == "+":
            if isinstance(x, list) and isinstance(y, (list,)):
                return x + y
            if isinstance(x, list) and isinstance(y, np.ndarray):
                return np.asarray(x) + y
            return x + y
        if op == "-":
            if isinstance(x, np.ndarray) and x.dtype == bool:
                raise Raised("bool minus")
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray) and y == 0:
                raise Raised("zero division")
            with np.errstate(all="ignore"):
                return x / y
        if op == "//":
            return x // y
        if op == "%":
            if isinstance(x, str):
                return x
            return x % y
        if op == "**":
            return x ** y
        if op == "&":
            return x & y
        if op == "|":
            return x | y
        if op == "^":
            return x ^ y
        if op == "@":
            return x @ y
        raise Unknown(op)

    def o_un(self, t, op, a):
        x = self.ev(a)
        if op == "-":
            return -x
        if op == "~":
            return ~x
        if op == "not":
            return not truthy(x)
        return x

    def o_attr(self, t, b, name):
        v = self.ev(b)
        return self.getattr(v, name)

    def getattr(self, v, name):
        if isinstance(v, Sol):
            if name == "fitness":
                return v.fitness[0].copy() if v.single and v.n_obj > 1 else v.fitness.copy()
            if name in ("n_eval", "index"):
                return np.array(getattr(v, name)) if name == "n_eval" else list(v.index)
            if name in ("var_name",):
                return v.names
            if name == "N":
                return len(v)
            if name == "n_obj":
                return v.n_obj
            if name == "shape":
                return (len(v), len(v.names) if v.names else 2)
            raise Unknown("Solution." + name)
        if isinstance(v, np.ndarray):
            if name in ("T", "shape", "ndim", "size", "dtype"):
                return getattr(v, name)
            raise Unknown("array." + name)
        if isinstance(v, np.dtype) and name in ("type", "kind", "name", "char"):
            return getattr(v, name)
        if isinstance(v, Obj):
            if name in v.__dict__:
                return copyv(v.__dict__[name])
            if name == "__class__" and "type" in self.fns:
                return self.fns["type"](v)
            raise Unknown(f"{v}.{name}")
        if isinstance(v, (list, tuple)) and name == "shape":
            raise Raised("shape of list")
        raise Unknown(f"attribute {name} of {type(v).__name__}")

    def o_hasattr(self, t, o, name):
        k = f"hasattr:{name}"
        if k in self.val:
            return self.val[k]
        v = self.ev(o)
        if isinstance(v, Obj):
            return name in v.__dict__
        if name == "__iter__":
            return isinstance(v, (list, tuple, dict, np.ndarray, Sol, str, set))
        if name == "__len__":
            return isinstance(v, (list, tuple, dict, np.ndarray, Sol, str, set))
        raise Unknown("hasattr " + name)

    def o_item(self, t, b, i):
        v = self.ev(b)
        if isinstance(v, dict) and i.op == "bv":
            j = self.ev(i)
            if j not in v and 0 <= j < len(v):  # traversing a dictionary yields its keys
                return list(v)[j]
        return self.getitem(v, self.ev(i))

    def getitem(self, v, i):
        if isinstance(v, Sol):
            return v.take(i)
        if isinstance(v, dict):
            if i not in v:
                raise Raised("KeyError")
            return v[i]
        if isinstance(v, (list, tuple, str)):
            if isinstance(i, np.ndarray) and i.ndim == 0:
                i = i.item()
            if isinstance(i, (int, np.integer)) and not -len(v) <= i < len(v):
                raise Raised("IndexError")
            if isinstance(i, (list, tuple)) or isinstance(i, np.ndarray):
                raise Unknown("list fancy index")
            return v[i]
        if isinstance(v, np.ndarray):
            try:
                if isinstance(i, list):
                    i = np.asarray(i) if len(i) else np.asarray(i, dtype=int)
                r = v[i]
                return r.copy() if isinstance(r, np.ndarray) else r
            except IndexError:
                raise Raised("IndexError")
        if isinstance(v, (set, frozenset)):  # some fixed order: obligations on sets must not depend on it
            return sorted(v, key=str)[i]
        raise Unknown(f"item of {type(v).__name__}")

    # ------------------------------------------------------------------ updates
    def setp(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p.op == "pattr":
            n = p.a[0]
            if isinstance(v, Sol):
                v = v.copy()
                cur = self.getattr(v, n) if len(path) > 1 else None
                w = self.setp(cur, path[1:], x)
                if n == "fitness":
                    w = np.asarray(w, dtype=float)
                    v.fitness = np.broadcast_to(w.reshape(v.fitness.shape) if w.size == v.fitness.size else w, v.fitness.shape).copy()
                elif n in ("n_eval", "index"):
                    w = list(w) if hasattr(w, "__len__") else [w] * len(v)
                    setattr(v, n, [int(q) if isinstance(q, (np.integer,)) else q for q in w])
                else:
                    raise Unknown("store ." + n)
                return v
            if isinstance(v, Obj):
                w = Obj(v._name, **{k: z for k, z in v.__dict__.items() if k != "_name"})
                w.__dict__[n] = self.setp(self.getattr(v, n) if len(path) > 1 else None, path[1:], x)
                return w
            raise Unknown("store attr")
        i = self.ev(p.a[0])
        if isinstance(v, Sol):
            v = v.copy()
            if len(path) > 1 and path[1].op == "pattr":
                sub = self.setp(v.take(i), path[1:], x)
                ii = i[0] if isinstance(i, tuple) else i
                n = path[1].a[0]
                if isinstance(ii, (int, np.integer)):
                    k = int(ii)
                    if n == "fitness":
                        v.fitness[k] = sub.fitness[0]
                    else:
                        getattr(v, n)[k] = getattr(sub, n)[0]
                    return v
                ids = np.arange(len(v))[ii]
                for q, k in enumerate(ids):
                    if n == "fitness":
                        v.fitness[k] = sub.fitness[q]
                    else:
                        getattr(v, n)[k] = getattr(sub, n)[q]
                return v
            if len(path) == 1 and isinstance(i, (int, np.integer)) and isinstance(x, (str, Sol)):
                v.rows[int(i)] = x.rows[0] if isinstance(x, Sol) else x
                return v
            raise Unknown("row store")
        if isinstance(v, list):
            v = list(v)
            if isinstance(i, slice):
                v[i] = x
                return v
            v[i] = self.setp(v[i] if len(path) > 1 else None, path[1:], x)
            return v
        if isinstance(v, dict):
            v = dict(v)
            v[i] = self.setp(v.get(i) if len(path) > 1 else None, path[1:], x)
            return v
        if isinstance(v, np.ndarray):
            v = v.copy()
            try:
                if len(path) > 1:
                    v[i] = self.setp(v[i], path[1:], x)
                elif isinstance(x, Obj):
                    raise Unknown("stored value")
                else:
                    v[i] = x
            except (ValueError, IndexError) as e:
                raise Raised(f"{type(e).__name__}: {e}")
            return v
        raise Unknown("store into " + type(v).__name__)

    def o_updp(self, t, b, path, v):
        return self.setp(copyv(self.ev(b)), path.a, self.ev(v))

    def iters(self, dom):
        """iteration indices of a loop domain (finite part)"""
        if dom.op in ("while", "until"):
            raise Unknown("unbounded iteration")
        if dom.op == "mindom":
            return range(min(int(self.ev(x)) for x in dom.a))
        n = self.ev(dom)
        if isinstance(n, np.ndarray):
            n = n.item()
        if not isinstance(n, (int, np.integer)):
            raise Unknown("iteration count")
        return range(int(n))

    def bind(self, d, i):
        class _B:
            def __init__(s, D):
                s.D = D

            def __enter__(s):
                s.old = s.D.bvs.get(d, None)
                s.D.bvs[d] = i

            def __exit__(s, *e):
                if s.old is None:
                    s.D.bvs.pop(d, None)
                else:
                    s.D.bvs[d] = s.old
        return _B(self)

    def cond(self, c):
        tv = truthy(self.ev(c)) if c is not TRUE else True
        return tv

    def o_updall(self, t, b, dom, c, path, v, d):
        cur = copyv(self.ev(b))
        for i in self.iters(dom):
            with self.bind(d, i):
                if self.cond(c):
                    cur = self.setp(cur, path.a, self.ev(v))
        return cur

    def o_map(self, t, dom, v, c, d):
        out = []
        for i in self.iters(dom):
            with self.bind(d, i):
                if self.cond(c):
                    out.append(self.ev(v))
        return out

    def o_flatmap(self, t, dom, v, c, d):
        out = []
        for i in self.iters(dom):
            with self.bind(d, i):
                if self.cond(c):
                    out.extend(self.it(v))
        return out

    def o_dictmap(self, t, dom, k, v, c, d):
        out = {}
        for i in self.iters(dom):
            with self.bind(d, i):
                if self.cond(c):
                    out[self.ev(k)] = self.ev(v)
        return out

    def o_keyat(self, t, b, i):
        v = self.ev(b)
        return (list(v.keys()) if isinstance(v, dict) else self.itv(v))[self.ev(i)]

    def o_zipT(self, t, rows):
        return [tuple(x) for x in zip(*[self.itv(r) for r in self.it(rows)])]

    def o_col(self, t, rows, i):
        return [r[i.a[0]] for r in self.it(rows)]

    def o_sumover(self, t, dom, v, init, d):
        s = 0
        for i in self.iters(dom):
            with self.bind(d, i):
                s = s + self.ev(v)
        return s

    def o_anyover(self, t, dom, c, d):
        for i in self.iters(dom):
            with self.bind(d, i):
                if truthy(self.ev(c)):
                    return True
        return False

    def o_first(self, t, dom, c, v, d):
        for i in self.iters(dom):
            with self.bind(d, i):
                if truthy(self.ev(c)):
                    return self.ev(v)
        raise Unknown("no first")

    def o_last(self, t, dom, v, init, c, d):
        r, hit = None, False
        for i in self.iters(dom):
            with self.bind(d, i):
                r, hit = self.ev(v), True
        return r if hit else self.ev(init)

    def o_mu(self, t, dom, rec, sysid, d):
        k = None
        if not self.isvol(sysid) and not self.isvol(dom):
            k = ("mu", self.key(mk("mu", dom, sysid.a[0].a[0], sysid, d)))
            if k in self.memo:
                return self.mures(self.memo[k], rec)
        r = self.mufix(dom, sysid, d)
        if k is not None:
            self.memo[k] = r
        return self.mures(r, rec)

    def mures(self, r, rec):
        if isinstance(r, Exception):
            raise r
        v = r.get(rec)
        if isinstance(v, Failed):
            raise v.e
        if rec not in r:
            raise Unknown("loop value")
        return v

    def mufix(self, dom, sysid, d):
        """the loop-carried values after the loop; an equation that cannot be followed is `Failed` with its reason"""
        cur = {}

        def val(t):
            try:
                return self.ev(t)
            except (Unknown, Raised) as e:
                return Failed(e)
        for eq in sysid.a:
            if eq.a[1].op != "undef":
                cur[eq.a[0]] = val(eq.a[1])
        brk, base = None, dom
        if dom.op == "until":
            base, brk = dom.a
        n = 0
        trace, jumped = [], False
        try:
            count = None if base.op == "while" else len(self.iters(base))
            while True:
                if count is not None and n >= count:
                    break
                if n > self.limit:
                    if self.detect and not jumped and count is None:
                        # a counter that grows by a constant amount is carried far beyond any plausible bound
                        far = self.leap(trace)
                        if far is not None:
                            cur, jumped, n = far, True, self.limit - 3
                            continue
                    if self.detect:
                        raise Diverges("recurs" if jumped else "bound", trace)
                    raise Unknown("abstract iteration bound")
                old, oldv = self.recs, self.rver
                self.recs, self.rver = {**old, **cur}, dict(oldv)
                for x in cur:
                    self._n += 1
                    self.rver[x] = self._n
                try:
                    with self.bind(d, n):
                        if count is None and not truthy(self.ev(base.a[0])):
                            break
                        b = truthy(self.ev(brk)) if brk is not None else False
                        new = {eq.a[0]: val(eq.a[2]) for eq in sysid.a}
                finally:
                    self.recs, self.rver = old, oldv
                if self.detect and not b and count is None:
                    trace.append(dict(new))
                    # values that cannot be followed were not needed by the exit tests: what decides them recurs
                    if all(recurs(new[x], cur.get(x)) or isinstance(new[x], Failed) and isinstance(cur.get(x), Failed) for x in new) and not all(isinstance(v, Failed) for v in new.values()):
                        raise Diverges("recurs", trace)
                cur = new
                n += 1
                if b:
                    break
        except (Unknown, Raised) as e:
            return e
        return cur

    @staticmethod
    def leap(trace):
        if len(trace) < 6:
            return None
        out = dict(trace[-1])
        for x, v in trace[-1].items():
            vs = [s.get(x) for s in trace[-5:]]
            if all(isinstance(u, Failed) for u in vs):
                continue
            if any(isinstance(u, Failed) for u in vs):
                return None
            if all(recurs(u, vs[0]) for u in vs):
                continue
            if all(isinstance(u, (int, np.integer)) and not isinstance(u, bool) for u in vs) and len({b - a for a, b in zip(vs, vs[1:])}) == 1:
                out[x] = int(v) + (int(v) - int(vs[-2])) * 10 ** 9
                continue
            return None
        return out

    # ------------------------------------------------------------------ calls
    def args(self, xs):
        pos, kw = [], {}
        for x in xs:
            if x.op == "kw" and x.a[0] == "**":
                kw.update(self.ev(x.a[1]))
            elif x.op == "kw":
                kw[x.a[0]] = self.ev(x.a[1])
            elif x.op == "star":
                pos.extend(self.it(x.a[0]))
            else:
                pos.append(self.ev(x))
        return pos, kw

    def sargs(self, xs):
        """arguments for a modelled call: unknown ones become placeholders"""
        pos, kw = [], {}
        for x in xs:
            y = x.a[1] if x.op == "kw" else x
            if x.op == "star":
                pos.extend(self.it(x.a[0]))
                continue
            if x.op == "kw" and x.a[0] == "**":
                kw.update(self.ev(y))
                continue
            try:
                v = self.ev(y)
            except Unknown:
                v = Obj("?")
            if x.op == "kw":
                kw[x.a[0]] = v
            else:
                pos.append(v)
        return pos, kw

    def o_mut(self, t, name, b, *a):
        v = copyv(self.ev(b))
        pos, kw = self.args(a)
        if isinstance(v, list) and name in ("sort", "reverse", "insert", "remove", "pop", "clear"):
            getattr(v, name)(*pos, **kw)
            return v
        if isinstance(v, set) and name in ("add", "discard", "remove", "clear", "difference_update", "intersection_update"):
            v = set(v)
            getattr(v, name)(*pos)
            return v
        if isinstance(v, dict) and name in ("pop", "clear", "popitem"):
            if name == "pop" and pos[0] not in v and len(pos) < 2:
                raise Raised("KeyError")
            getattr(v, name)(*pos)
            return v
        if isinstance(v, np.ndarray) and name == "fill":
            v.fill(*pos)
            return v
        if isinstance(v, np.ndarray) and name == "sort":
            v.sort(*pos, **kw)
            return v
        if name == "scatter_" and isinstance(v, np.ndarray) and v.ndim == 1:
            idx = kw.get("index", pos[1] if len(pos) > 1 else None)
            val = kw.get("value", kw.get("src", pos[2] if len(pos) > 2 else None))
            v[np.asarray(idx)] = val
            return v
        raise Unknown("mutation " + name)

    def o_partial(self, t, *a):
        raise Unknown("partial")

    def o_acall(self, t, f, *a):
        k = "acall:" + show(f, 8)
        if k in self.fns:
            pos, kw = self.sargs(a)
            return self.fns[k](*pos, **kw)
        v = self.ev(f)
        if callable(v):
            pos, kw = self.args(a)
            return v(*pos, **kw)
        raise Unknown("call of " + show(f, 3))

    def o_mcall(self, t, name, recv, *a):
        if a and a[-1].op == "kw" and a[-1].a[0] == "@":
            self.at = [self.ev(x) for x in a[-1].a[1].a]
            a = a[:-1]
        k = "mcall:" + name
        if k in self.fns:
            r = self.fns[k](self, t, recv, a)
            if r is not NotImplemented:
                return r
        v = self.ev(recv)
        pos, kw = self.args(a)
        if isinstance(v, Obj) and callable(v.__dict__.get(name)):
            return v.__dict__[name](*pos, **kw)
        if isinstance(v, dict):
            if name in ("keys", "values", "items"):
                return list(getattr(v, name)())
            if name == "get":
                return v.get(*pos)
            if name == "copy":
                return dict(v)
            if name == "pop":
                return dict(v).pop(*pos)
        if isinstance(v, np.ndarray):
            if name in ("detach", "cpu", "numpy", "double", "float", "clone", "contiguous"):
                return v
            if name in ("long", "int"):
                return v.astype(int)
            if name == "bool":
                return v.astype(bool)
            if name == "unsqueeze":
                return np.expand_dims(v, *pos)
            if name in ("size",):
                return v.shape[pos[0]] if pos else v.shape
            if name in ("logical_not", "logical_and", "logical_or", "eq", "ne", "ge", "gt", "le", "lt"):
                import operator
                return {"logical_not": np.logical_not, "logical_and": np.logical_and, "logical_or": np.logical_or, "eq": operator.eq, "ne": operator.ne,
                        "ge": operator.ge, "gt": operator.gt, "le": operator.le, "lt": operator.lt}[name](v, *pos)
            if name in ("ravel", "flatten", "reshape", "astype", "squeeze", "copy", "tolist", "item", "transpose", "nonzero"):
                return getattr(v, name)(*pos, **kw)
        if isinstance(v, (list, tuple)) and name in ("index", "count", "copy"):
            return getattr(v, name)(*pos)
        if isinstance(v, str) and name in ("lower", "upper", "startswith", "endswith", "strip", "split", "format", "join"):
            return getattr(v, name)(*pos)
        if isinstance(v, Sol) and name == "unique" and not pos:
            return v if v.single else v.take([i for i, r in enumerate(v.rows) if r not in v.rows[:i]])
        if isinstance(v, Sol) and name in ("copy",):
            return v.copy()
        if isinstance(v, (bool, np.bool_, int, float)) and name in ("item",):
            return v
        return self.tokmethod(v, name, pos, kw)

    def tokmethod(self, v, name, pos, kw):
        raise Unknown(f"method {name} of {type(v).__name__}")

    def o_call(self, t, name, *a):
        if a and a[-1].op == "kw" and a[-1].a[0] == "@":
            self.at = [self.ev(x) for x in a[-1].a[1].a]
            a = a[:-1]
        if name in self.fns:
            pos, kw = self.sargs(a)
            return self.fns[name](*pos, **kw)
        if name.startswith("torch."):
            alt = "numpy." + name[6:]
            if name in ("torch.Tensor", "torch.tensor", "torch.as_tensor", "torch.from_numpy", "torch.FloatTensor", "torch.DoubleTensor"):
                x = self.ev(a[0] if a[0].op != "kw" else a[0].a[1])
                ty = [t.a[1] for t in a if t.op == "kw" and t.a[0] == "dtype"]
                ty = show(ty[0], 3) if ty else "64" if name in ("torch.from_numpy", "torch.DoubleTensor") or isinstance(x, np.ndarray) and name in ("torch.tensor", "torch.as_tensor") else "32"
                x = np.array(x)
                if x.dtype.kind in "iub" and name not in ("torch.Tensor", "torch.FloatTensor", "torch.DoubleTensor"):
                    return x
                return x.astype(float) if "64" in ty or "double" in ty else x.astype(np.float32).astype(float)  # single precision rounds
            if alt in NPF:
                name = alt
        if name in NPF:
            pos, kw = self.args(a)
            if "dim" in kw:
                kw["axis"] = kw.pop("dim")
            kw.pop("device", None)
            if name == "numpy.zeros" and len(pos) == 1 and "dtype" in kw and not isinstance(kw["dtype"], type):
                kw.pop("dtype")
            pos = [self.arr(x) for x in pos]
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        return NPF[name](*pos, **kw)
                    except (IndexError, ValueError) as e:
                        raise Raised(str(e))
        if name in ("numpy.atleast_2d",):
            pass
        if name in ("numpy.r_[]", "numpy.c_[]"):
            pos, kw = self.args(a)
            pos = list(pos[0]) if len(pos) == 1 and isinstance(pos[0], tuple) else pos
            return (np.r_ if name == "numpy.r_[]" else np.c_)[tuple(pos)]
        if name == "numpy.set_printoptions":
            return None
        f = getattr(self, "c_" + name.replace(".", "_"), None)
        if f is not None:
            pos, kw = self.args(a)
            return f(*pos, **kw)
        if name == "isinstance":
            return self.isinst(self.ev(a[0]), a[1])
        if name in ("range", "list", "tuple", "enumerate", "zip", "sorted", "reversed", "set", "sum", "max", "min", "any", "all", "abs", "int",
                    "float", "bool", "str", "round", "len", "dict"):
            pos, kw = self.args(a)
            if name == "len":
                if isinstance(pos[0], (Obj, int, float)) or pos[0] is None:
                    if isinstance(pos[0], Obj):
                        return self.tokmethod(pos[0], "__len__", [], {})
                    raise Unknown("len")
                return len(pos[0])
            if name in ("list", "tuple", "sorted", "reversed", "set", "sum", "any", "all", "enumerate", "zip") or name in ("max", "min") and len(pos) == 1:
                pos = [self.itv(pos[0]) if i == 0 or name == "zip" else p for i, p in enumerate(pos)] if name != "zip" else [self.itv(p) for p in pos]
            if name in ("any", "all"):
                return {"any": any, "all": all}[name](truthy(x) for x in pos[0])
            r = {"range": range, "list": list, "tuple": tuple, "enumerate": enumerate, "zip": zip, "sorted": sorted, "reversed": reversed, "set": set,
                 "sum": sum, "max": max, "min": min, "abs": abs, "int": int, "float": float, "bool": bool, "str": str, "round": round, "dict": dict}[name](*pos, **kw)
            return list(r) if name in ("range", "enumerate", "zip", "reversed") else r
        raise Unknown("call " + name)

    def arr(self, x):
        if isinstance(x, Sol):
            raise Unknown("array of solution")
        return x

    def isinst(self, v, k):
        n = k.a[0] if k.op in ("mod", "cls") else None
        py = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple, "dict": dict, "numpy.ndarray": np.ndarray,
              "slice": slice, "set": (set, frozenset), "numpy.integer": np.integer, "numpy.floating": np.floating, "numpy.str_": np.str_,
              "numbers.Number": (int, float, np.number), "numbers.Integral": (int, np.integer)}
        if n in py:
            if isinstance(v, Sol) and n == "numpy.ndarray":
                return True
            return isinstance(v, py[n])
        if n and n.endswith(".Solution"):
            return isinstance(v, Sol)
        if n is None and not isinstance(v, (Sol, Obj)):
            ks = self.ev(k)  # a computed type or tuple of types
            ks = tuple(ks) if isinstance(ks, (list, tuple)) else (ks,)
            if all(isinstance(x, type) for x in ks):
                return isinstance(v, ks)
        raise Unknown("isinstance")

    def c_copy_copy(self, x):
        return copyv(x)

    c_copy_deepcopy = c_copy_copy

    def c_collections_Counter(self, x=()):
        out = {}
        for k in self.itv(x):
            k = k.item() if hasattr(k, "item") else k
            out[k] = out.get(k, 0) + 1
        return out

    def c_sa_listarg(self, x):
        if isinstance(x, Sol):
            raise Fails("a list and an array of solutions are added: numpy adds them element by element")
        return x

    def c_sa_concat(self, xs):
        xs = list(self.itv(xs))
        if not xs:
            raise Raised("reduce of nothing")
        acc = xs[0]
        for x in xs[1:]:
            acc = acc + x
        return acc

    def c_itertools_chain_from_iterable(self, xs):
        return [y for x in self.itv(xs) for y in self.itv(x)]

    def c_itertools_chain(self, *xs):
        return [y for x in xs for y in self.itv(x)]

    def c_itertools_product(self, *xs, repeat=1):
        import itertools
        return list(itertools.product(*[list(self.itv(x)) for x in xs], repeat=repeat))

    def c_dict_fromkeys(self, x, v=None):
        return dict.fromkeys(self.itv(x), v)

    def c_tolist(self, x):
        if isinstance(x, Sol):
            return list(x.rows) if not x.single else x.rows[0]
        if isinstance(x, np.ndarray):
            return x.tolist()
        raise Unknown("tolist")


def c_like(v):
    return v
