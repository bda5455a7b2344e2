"""Source model of the analysed tree: modules, classes, MRO, name resolution.

Only parses; never imports or runs repository code.
"""
import ast
import os

from .desugar import desugar

class FuncInfo(object):
    __slots__ = ("node", "module", "cls", "name", "spec", "kind", "qual", "cached")

    def __init__(self, node, module, cls, spec=False):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.spec = spec
        self.kind = "function"
        self.cached = False
        for d in node.decorator_list:
            s = ast.unparse(d)
            if s.split("(")[0].split(".")[-1] in ("cached_property", "lru_cache", "cache"):
                # the value of the first call is kept: what it computes is judged as if uncached, see decide.caching
                self.cached = True
                if not s.split("(")[0].endswith("cached_property"):
                    continue
            if s in ("property", "abc.abstractproperty", "abstractproperty", "cached_property", "functools.cached_property"):
                self.kind = "property"
            elif s == "staticmethod":
                self.kind = "static"
            elif s == "classmethod":
                self.kind = "class"
            elif s.endswith(".setter"):
                self.kind = "setter"
            elif s in ("abstractmethod", "abc.abstractmethod"):
                pass
            else:
                if self.kind == "function":
                    self.kind = "decorated"
        self.qual = (cls.qual if cls else module.name) + "." + node.name

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


class ClassInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.fields = []
        for st in node.body:
            self._stmt(st, module)

    def _stmt(self, st, module):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(st, module, self)
            if fi.kind == "setter":
                self.setters[st.name] = fi
            else:
                self.methods[st.name] = fi
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.fields.append((st.target.id, st.annotation, st.value))
            if st.value is not None:
                self.attrs[st.target.id] = st.value
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._stmt(s, module)


class ModuleInfo(object):
    def __init__(self, name, path, relpath, tree, is_pkg, repo=None):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports = {}      # local name -> qualified
        self.stars = []
        self.functions = {}
        self.classes = {}
        self.consts = {}
        self.multi = set()
        for st in tree.body:
            self._stmt(st)

    def _stmt(self, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.imports[a.asname] = a.name
                else:
                    self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == "*":
                    self.stars.append(base)
                else:
                    self.imports[a.asname or a.name] = base + "." + a.name
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.functions[st.name] = FuncInfo(st, self, None)
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = ClassInfo(st, self)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.consts:
                        self.multi.add(t.id)
                    self.consts[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.consts[st.target.id] = st.value
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._stmt(s)
        elif isinstance(st, ast.Try):
            for s in st.body + [x for h in st.handlers for x in h.body] + st.orelse:
                self._stmt(s)


class Repo(object):
    def __init__(self, root, package="yaocptool", overrides=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        overrides = dict(overrides or {})
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                if rel in overrides:
                    src = overrides[rel]
                else:
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                try:
                    tree = desugar(ast.parse(src, filename=path))
                except SyntaxError as e:
                    self.errors.append("%s: %s" % (rel, e))
                    continue
                self.modules[name] = ModuleInfo(name, path, rel, tree, is_pkg)
        self._mro = {}
        self.method_names = {n.name for m in self.modules.values() for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)
                             for n in c.body if isinstance(n, ast.FunctionDef)}

    # -- name resolution ----------------------------------------------------
    def resolve_qual(self, qual, depth=0):
        """-> ('class', ClassInfo) | ('func', FuncInfo) | ('module', name) | ('const', (mod, name)) | ('ext', qual)"""
        if depth > 12:
            return ("ext", qual)
        if qual in self.modules:
            return ("module", qual)
        if "." in qual:
            mod, _, nm = qual.rpartition(".")
            if mod in self.modules:
                m = self.modules[mod]
                if nm in m.classes:
                    return ("class", m.classes[nm])
                if nm in m.functions:
                    return ("func", m.functions[nm])
                if nm in m.consts:
                    return ("const", (m, nm))
                if nm in m.imports:
                    return self.resolve_qual(m.imports[nm], depth + 1)
                for s in m.stars:
                    if s in self.modules:
                        r = self.resolve_qual(s + "." + nm, depth + 1)
                        if r[0] != "ext":
                            return r
                return ("ext", qual)
            # Class attribute path
            r = self.resolve_qual(mod, depth + 1)
            if r[0] == "class":
                ci = r[1]
                f = self.find_method(ci, nm)
                if f:
                    return ("method", f)
                return ("classattr", (ci, nm))
        return ("ext", qual)

    def lookup(self, module, name):
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.imports:
            return self.resolve_qual(module.imports[name])
        if name in module.consts:
            return ("const", (module, name))
        for s in module.stars:
            if s in self.modules:
                r = self.resolve_qual(s + "." + name)
                if r[0] != "ext":
                    return r
            elif not hasattr(__builtins__, name) and name not in _BUILTINS:
                return ("ext", s + "." + name)
        return None

    # -- classes ------------------------------------------------------------
    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            r = self._resolve_expr(ci.module, b)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def _resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self._resolve_expr(module, e.value)
            if r and r[0] == "module":
                return self.resolve_qual(r[1] + "." + e.attr)
            if r and r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        if isinstance(e, ast.Subscript):
            return self._resolve_expr(module, e.value)
        return None

    def mro(self, ci):
        if ci.qual in self._mro:
            return self._mro[ci.qual]
        self._mro[ci.qual] = [ci]
        seqs = [list(self.mro(b)) for b in self.bases(ci)] + [list(self.bases(ci))]
        res = [ci]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)
        self._mro[ci.qual] = res
        return res

    def find_method(self, ci, name, after=None, table="methods"):
        m = self.mro(ci)
        start = 0
        if after is not None:
            for i, c in enumerate(m):
                if c.qual == after.qual:
                    start = i + 1
                    break
        for c in m[start:]:
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def find_class(self, qual):
        r = self.resolve_qual(qual)
        return r[1] if r[0] == "class" else None

    def find_target(self, target):
        """'mod:Class.meth' or 'mod:func' -> FuncInfo | None (method looked up through the MRO)"""
        mod, _, path = target.partition(":")
        full = self.package + "." + mod if not mod.startswith(self.package) else mod
        m = self.modules.get(full)
        parts = path.split(".")
        if m is None:
            return None, None
        r = self.lookup(m, parts[0])
        if r is None:
            return None, None
        if len(parts) == 1:
            return (r[1], None) if r[0] == "func" else (None, None)
        if r[0] != "class":
            return None, None
        if len(parts) == 3 and parts[2] == "setter":
            return self.find_method(r[1], parts[1], table="setters"), r[1]
        return self.find_method(r[1], parts[1]), r[1]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f


import builtins as _b
_BUILTINS = set(dir(_b))
