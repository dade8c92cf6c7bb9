"""Source loader: parses every module of /repo/bayes_optim, resolves imports, classes, MROs."""
import ast
import os

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"  # larger finite domains

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "bayes_optim"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: neither 'holds' nor 'violated'."""


class Func:
    __slots__ = ("name", "qual", "node", "module", "cls", "kind", "prop", "decorators")

    def __init__(self, name, qual, node, module, cls=None):
        self.name, self.qual, self.node, self.module, self.cls = name, qual, node, module, cls
        self.kind = "function" if cls is None else "method"
        self.decorators = []
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n in ("staticmethod", "classmethod"):
                self.kind = n
            elif n in ("abstractmethod", "property", "setter", "deleter", "cached_property", "contextmanager"):
                pass
            else:
                self.decorators.append(d)

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno} {self.qual}"

    def args(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = module.name + "." + name
        self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
        self.bases = []
        self._mro = None
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s.name, f"{name}.{s.name}", s, module, self)
                ds = [d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "") for d in s.decorator_list]
                if "setter" in ds:
                    self.setters[s.name] = f
                elif "property" in ds or "cached_property" in ds:
                    self.getters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        # attribute-style properties: x = property(getx, setx)
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                a = [x.id for x in v.args if isinstance(x, ast.Name)]
                if a and a[0] in self.methods:
                    self.getters[k] = self.methods[a[0]]
                if len(a) > 1 and a[1] in self.methods:
                    self.setters[k] = self.methods[a[1]]
                del self.attrs[k]

    def __repr__(self):
        return f"<Cls {self.qual}>"

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        return out
                    out.append(h)
                    seqs = [[x for x in t if x is not h] for t in seqs]
                    seqs = [t for t in seqs if t]
                return out
            bs = [b for b in self.bases if isinstance(b, Cls)]
            self._mro = [self] + merge([b.mro() for b in bs] + [bs])
        return self._mro

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Cls)]

    def find(self, name, after=None):
        """-> (kind, Func|expr, cls)"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            pre = "_" + c.name.lstrip("_") + "__"
            if name.startswith(pre) and name[len(pre) - 2:] in c.methods:
                return "method", c.methods[name[len(pre) - 2:]], c
            if name in c.getters:
                return "getter", c.getters[name], c
            if name in c.methods:
                return "method", c.methods[name], c
            if name in c.attrs:
                return "attr", c.attrs[name], c
        return None, None, None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def method(self, name):
        for c in self.mro():
            for d in (c.methods, c.getters):
                if name in d:
                    return d[name]
        return None

    def issub(self, other):
        return other in self.mro()


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.imports = {}   # local name -> dotted
        self.functions, self.classes, self.globals = {}, {}, {}
        self.is_pkg = os.path.basename(path) == "__init__.py"


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for d, ds, fs in os.walk(root):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    src = open(p, encoding="utf-8").read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, p)
                    self.modules[rel] = Module(rel, p, tree, src)
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if r is not None:
                        c.bases.append(r)
        self.subclass_cache = {}

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[s.name] = Func(s.name, s.name, s, m)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = Cls(s.name, s, m)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.globals[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(m, s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(m, h.body)
                self._scan(m, s.orelse)

    def lookup_dotted(self, dotted, depth=0):
        """dotted -> Func | Cls | Module | ('global', Module, name) | str (external)"""
        if depth > 12:
            return dotted
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            m = self.modules.get(head)
            if m is not None:
                return self.lookup_name(m, tail, depth + 1) or dotted
            h = self.lookup_dotted(head, depth + 1)
            if isinstance(h, Module):
                return self.lookup_name(h, tail, depth + 1) or dotted
            if isinstance(h, str):
                return h + "." + tail
        return dotted

    def lookup_name(self, m, name, depth=0):
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            return ("global", m, name)
        if name in m.imports:
            return self.lookup_dotted(m.imports[name], depth + 1)
        sub = m.name + "." + name
        if sub in self.modules:
            return self.modules[sub]
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.lookup_name(m, e.id)
            return r if r is not None else "builtins." + e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.lookup_name(b, e.attr)
            if isinstance(b, str):
                return b + "." + e.attr
        return None

    # ------------------------------------------------------------------ anchors
    def cls(self, name, required=True):
        c = [c for m in self.modules.values() for c in m.classes.values() if c.name == name]
        if not c and required:
            raise AnalysisBroken(f"class {name} not found")
        return c[0] if c else None

    def func(self, name, required=True):
        f = [f for m in self.modules.values() for f in m.functions.values() if f.name == name]
        if not f and required:
            raise AnalysisBroken(f"function {name} not found")
        return f[0] if f else None

    def all_classes(self):
        return [c for m in self.modules.values() for c in m.classes.values()]

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.getters.values()
                yield from c.setters.values()

    def subclasses(self, c):
        return [d for d in self.all_classes() if c in d.mro()]

    def element_classes(self, attr):
        """classes that `self.<attr>: List[Class]` annotations name as the elements of that attribute"""
        if not hasattr(self, "_elems"):
            self._elems = {}
            for f in self.all_funcs():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        a = n.annotation
                        if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Name) and (c := self.cls(a.slice.id, False)) is not None:
                            self._elems.setdefault(n.target.attr, []).append(c)
        return self._elems.get(attr, [])

    def callers(self, name):
        """every function that mentions `name` as an attribute, a plain name or a string (getattr)"""
        out = []
        for f in self.all_funcs():
            for x in ast.walk(f.node):
                if (isinstance(x, ast.Attribute) and x.attr == name) or (isinstance(x, ast.Name) and x.id == name) \
                        or (isinstance(x, ast.Constant) and x.value == name):
                    out.append(f)
                    break
        return out

    def only_from(self, name, allowed, seen=()):
        """a private helper that is reached only from functions whose name is in `allowed`"""
        if not name.startswith("_") or name.startswith("__"):
            return False
        cs = [f for f in self.callers(name) if f.name != name]
        return all(f.name in allowed or f.name in seen or self.only_from(f.name, allowed, tuple(seen) + (name,)) for f in cs)
