"""Which parameters (including self) a repository function may mutate: a
name-based interprocedural fixpoint over the syntax tree."""
import ast
from .evalr import MUTATORS


class Purity(object):
    def __init__(self, repo):
        self.repo = repo
        self.sum = {}
        self.funcs = list(repo.all_functions())
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
            self.sum[f.qual, f.kind == "setter"] = set()
        changed = True
        n = 0
        while changed and n < 12:
            changed = False
            n += 1
            for f in self.funcs:
                s = self._scan(f)
                k = (f.qual, f.kind == "setter")
                if s != self.sum[k]:
                    self.sum[k] = s
                    changed = True

    def touches(self, name):
        """attribute names any method called `name` may read or write, directly or through the
        methods it calls (matched by name); None: any attribute"""
        memo = self.__dict__.setdefault("_touch", {})
        if name in memo:
            return memo[name]
        out, seen, todo = set(), set(), [name]
        if not any(f.cls is not None for f in self.byname.get(name, [])):
            out = None
        while todo and out is not None:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for f in self.byname.get(n, []):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute):
                        out.add(x.attr)
                        todo.append(x.attr)
                    elif isinstance(x, ast.Name):
                        todo.append(x.id)
                        if x.id in ("getattr", "setattr", "vars", "hasattr", "delattr", "copy", "deepcopy"):
                            out = None
                            break
                    if isinstance(x, ast.Attribute) and x.attr in ("__dict__", "deepcopy", "__class__"):
                        out = None
                        break
                if out is None:
                    break
        memo[name] = out
        return out

    def mutated_params(self, f):
        return self.sum.get((f.qual, f.kind == "setter"), ()) or ()

    def _scan(self, f):
        node = f.node
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        alias = {p: {p} for p in params}
        out = set()

        def roots(e):
            while True:
                if isinstance(e, ast.Name):
                    return alias.get(e.id, set())
                if isinstance(e, (ast.Attribute, ast.Subscript)):
                    e = e.value
                    continue
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "values", "get"):
                    e = e.func.value
                    continue
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "zip", "sorted", "list", "reversed", "tuple"):
                    # (the elements of a copied sequence are still the same objects)
                    out = set()
                    for a in e.args:
                        out |= roots(a)
                    return out
                return set()

        def names(t):
            if isinstance(t, ast.Name):
                return [t.id]
            if isinstance(t, (ast.Tuple, ast.List)):
                return [y for x in t.elts for y in names(x)]
            return []

        for n in list(ast.walk(node)) * 2:
            if isinstance(n, ast.Assign):
                if isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    r = roots(n.value)
                    for t in n.targets:
                        if isinstance(t, ast.Name) and r and t.id not in params:
                            alias[t.id] = alias.get(t.id, set()) | r
            if isinstance(n, (ast.For, ast.comprehension)):
                r = roots(n.iter)
                for nm in names(n.target):
                    if r and nm not in params:
                        alias[nm] = alias.get(nm, set()) | r
        rebound = set()
        for n in ast.walk(node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, ast.For):
                tg = [n.target]
            st = list(tg)
            while st:
                t = st.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    st.extend(t.elts)
                elif isinstance(t, (ast.Attribute, ast.Subscript)):
                    out |= roots(t.value)
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    r = roots(fn.value)
                    issuper = isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
                    if issuper and params:
                        r = {params[0]}
                    if r:
                        cands = [g for g in self.byname.get(fn.attr, []) if g.cls is not None]
                        if cands:
                            for g in cands:
                                p = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                                if p and p[0] in self.sum[g.qual, g.kind == "setter"]:
                                    out |= r
                        elif fn.attr in MUTATORS:
                            out |= r
                    if any(c for c in self.byname.get(fn.attr, [])):
                        for g in self.byname[fn.attr]:
                            self._args(n, g, roots, out, g.cls is not None and g.kind != "static")
                elif isinstance(fn, ast.Name):
                    if fn.id == "setattr" and n.args:
                        out |= roots(n.args[0])
                    for g in self.byname.get(fn.id, []):
                        if g.cls is None:
                            self._args(n, g, roots, out, False)
        return out

    def _args(self, call, g, roots, out, skip):
        ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        if skip:
            ps = ps[1:]
        mut = self.sum[g.qual, g.kind == "setter"]
        if not mut:
            return
        for i, a in enumerate(call.args):
            if i < len(ps) and ps[i] in mut:
                out |= roots(a)
        for k in call.keywords:
            if k.arg in mut:
                out |= roots(k.value)
