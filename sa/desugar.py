"""Source forms that are shorthand for others are rewritten before the analysis, on both sides alike; forms whose
meaning depends on sharing or on an iterator's state are made visible as calls of a marker function."""
import ast

OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod,
       "or_": ast.BitOr, "and_": ast.BitAnd, "matmul": ast.MatMult, "pow": ast.Pow}
CMPS = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
LIBS = ("itertools", "functools", "operator")
ITERS = {"zip", "map", "filter", "iter", "reversed", "enumerate"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _comp(target, it):
    return ast.comprehension(target=target, iter=it, ifs=[], is_async=0)


def _simple(e):
    if isinstance(e, ast.Attribute):
        return _simple(e.value)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.operand, ast.Constant)
    return isinstance(e, (ast.Name, ast.Constant))


def nested_mutation(fn):
    """does the function change something it reached through an index?"""
    from .evalr import MUTATORS
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                isinstance(n.func.value, ast.Subscript):
            return True
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript):
                    return True
                if isinstance(n, ast.AugAssign) and isinstance(t, ast.Subscript):
                    return True
    return False


def _mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set", "defaultdict")


class Desugar(ast.NodeTransformer):
    def __init__(self, tree):
        self.names = {}
        self.mods = {}
        self.fns = []
        self.k = 0
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module in LIBS and not n.level:
                for a in n.names:
                    self.names[a.asname or a.name] = n.module + "." + a.name
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in LIBS:
                        self.mods[a.asname or a.name] = a.name

    def lib(self, f):
        """dotted library name of an expression, e.g. itertools.chain.from_iterable"""
        if isinstance(f, ast.Name):
            return self.names.get(f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in self.mods:
                return self.mods[f.value.id] + "." + f.attr
            b = self.lib(f.value)
            return b + "." + f.attr if b else None
        return None

    def fresh(self, s):
        self.k += 1
        return "_%s_%d" % (s, self.k)

    def visit_FunctionDef(self, n):
        self.fns.append(n)
        shared_iterators(n)
        late_lambdas(n)
        self.generic_visit(n)
        self.fns.pop()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and self.fns:
            for a, b in ((n.left, n.right), (n.right, n.left)):
                if isinstance(a, ast.List) and len(a.elts) == 1 and _mutable(a.elts[0]) and nested_mutation(self.fns[-1]):
                    return ast.copy_location(ast.Call(func=_name("__one_object__"), args=[a.elts[0], b], keywords=[]), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        r = self._call(n)
        if r is None:
            return n
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def _call(self, n):
        f = n.func
        plain = not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)
        if isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) and f.value.id == "dict" and \
                plain and 1 <= len(n.args) <= 2:
            v = n.args[1] if len(n.args) == 2 else ast.Constant(value=None)
            if _simple(v) or not (self.fns and nested_mutation(self.fns[-1])):
                k = self.fresh("k")
                return ast.DictComp(key=_name(k), value=v, generators=[_comp(_name(k, ast.Store()), n.args[0])])
            return None
        if isinstance(f, ast.Name) and f.id == "divmod" and plain and len(n.args) == 2:
            a, b = n.args
            return ast.Tuple(elts=[ast.BinOp(left=a, op=ast.FloorDiv(), right=b), ast.BinOp(left=a, op=ast.Mod(), right=b)], ctx=ast.Load())
        q = self.lib(f)
        if q is None:
            return None
        if q == "itertools.chain.from_iterable" and plain and len(n.args) == 1:
            a, b = self.fresh("a"), self.fresh("b")
            return ast.GeneratorExp(elt=_name(b), generators=[_comp(_name(a, ast.Store()), n.args[0]), _comp(_name(b, ast.Store()), _name(a))])
        if q == "itertools.product" and plain and n.args:
            ks = [self.fresh("p") for _ in n.args]
            return ast.GeneratorExp(elt=ast.Tuple(elts=[_name(k) for k in ks], ctx=ast.Load()),
                                    generators=[_comp(_name(k, ast.Store()), a) for k, a in zip(ks, n.args)])
        if q == "itertools.repeat" and plain and len(n.args) == 2 and _simple(n.args[0]):
            k = self.fresh("r")
            return ast.ListComp(elt=n.args[0], generators=[_comp(_name(k, ast.Store()), ast.Call(func=_name("range"), args=[n.args[1]], keywords=[]))])
        if q == "functools.partial" and n.args and all(_simple(a) for a in n.args) and all(k.arg and _simple(k.value) for k in n.keywords):
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], vararg=ast.arg(arg="_pa"), kwonlyargs=[], kw_defaults=[],
                                   kwarg=ast.arg(arg="_pk"), defaults=[]),
                body=ast.Call(func=n.args[0], args=n.args[1:] + [ast.Starred(value=_name("_pa"), ctx=ast.Load())],
                              keywords=n.keywords + [ast.keyword(arg=None, value=_name("_pk"))]))
        if q == "operator.attrgetter" and plain and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and "." not in str(n.args[0].value):
            return _lam(["o"], ast.Attribute(value=_name("o"), attr=n.args[0].value, ctx=ast.Load()))
        if q == "operator.itemgetter" and plain and len(n.args) == 1 and isinstance(n.args[0], ast.Constant):
            return _lam(["o"], ast.Subscript(value=_name("o"), slice=n.args[0], ctx=ast.Load()))
        if q.startswith("operator.") and plain and len(n.args) == 2:
            o = q.split(".")[1]
            if o in OPS:
                return ast.BinOp(left=n.args[0], op=OPS[o](), right=n.args[1])
            if o in CMPS:
                return ast.Compare(left=n.args[0], ops=[CMPS[o]()], comparators=[n.args[1]])
        return None

    def visit_Match(self, n):
        self.generic_visit(n)
        if not _simple(n.subject):
            return n
        node = None
        for c in reversed(n.cases):
            t = _pattern(c.pattern, n.subject)
            if t is None:
                return n
            test, bind = t
            if bind and c.guard is not None:
                return n
            body = bind + c.body
            if c.guard is not None:
                test = c.guard if test is True else ast.BoolOp(op=ast.And(), values=[test, c.guard])
            if test is True:
                node = body
            else:
                node = [ast.If(test=test, body=body, orelse=node or [])]
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in node or [ast.Pass()]]

    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) != 1 or len(n.handlers) != 1 or n.finalbody or not isinstance(n.body[0], (ast.Return, ast.Assign, ast.Expr)):
            return n
        h = n.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == "KeyError"):
            return n
        if h.name is not None:
            for x in h.body:
                if isinstance(x, ast.Raise) and isinstance(x.cause, ast.Name) and x.cause.id == h.name:
                    x.cause = None
            if any(isinstance(x, ast.Name) and x.id == h.name for b in h.body for x in ast.walk(b)):
                return n
        if any(isinstance(x, ast.Raise) and x.exc is None for b in h.body for x in ast.walk(b)):
            return n
        val = n.body[0].value
        if val is None:
            return n
        subs = [x for x in ast.walk(val) if isinstance(x, ast.Subscript)]
        if isinstance(n.body[0], ast.Assign) and not all(isinstance(t, ast.Name) for t in n.body[0].targets):
            return n
        if len(subs) != 1 or any(isinstance(x, (ast.Call, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(val)):
            return n
        s = subs[0]
        base = s.value
        if isinstance(s.slice, ast.Slice) or not (_simple(base) or isinstance(base, ast.Dict)):
            return n
        test = ast.Compare(left=s.slice, ops=[ast.In()], comparators=[base])
        r = ast.If(test=test, body=n.body + n.orelse, orelse=h.body)
        return ast.fix_missing_locations(ast.copy_location(r, n))


def _lam(ps, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=body)


def _pattern(p, subj):
    """-> (test or True, statements binding names) or None"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)]), []
    if isinstance(p, ast.MatchOr):
        ts = [_pattern(x, subj) for x in p.patterns]
        if any(t is None or t[0] is True or t[1] for t in ts):
            return None
        return ast.BoolOp(op=ast.Or(), values=[t[0] for t in ts]), []
    if isinstance(p, ast.MatchAs):
        if p.pattern is None:
            return True, [ast.Assign(targets=[_name(p.name, ast.Store())], value=subj)] if p.name else []
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(func=_name("isinstance"), args=[subj, p.cls], keywords=[]), []
    return None


def _iterator(e):
    return isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ITERS


def shared_iterators(fn):
    """a generator bound to a name gives its elements once: later uses are marked"""
    bound = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            bound.setdefault(n.targets[0].id, []).append(n)
    for nm, ds in bound.items():
        if len(ds) != 1 or not _iterator(ds[0].value):
            continue
        stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm and not isinstance(n.ctx, ast.Load)]
        if len(stores) != 1 or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args
                                   and isinstance(n.args[0], ast.Name) and n.args[0].id == nm for n in ast.walk(fn)):
            continue
        uses = []
        _uses(fn.body, nm, ds[0], (), 0, uses)
        first = uses[0] if uses else None
        for i, (node, arms, depth) in enumerate(uses):
            again = depth > 0 or any(not _exclusive(arms, a) for _, a, _ in uses[:i])
            if again:
                node.id = "__exhausted__" + nm
    return fn


def _exclusive(a, b):
    return any(x == y and i != j for x, i in a for y, j in b)


def _uses(body, nm, d, arms, depth, out):
    """loads of nm in source order with the branch arms they are in and the loops entered since the definition"""
    def expr(e, dep):
        for n in ast.iter_child_nodes(e):
            expr1(n, dep)

    def expr1(n, dep):
        if isinstance(n, ast.Name):
            if n.id == nm and isinstance(n.ctx, ast.Load):
                out.append((n, arms, dep))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for i, g in enumerate(n.generators):
                expr1(g.iter, dep if i == 0 else dep + 1)
                for x in g.ifs:
                    expr1(x, dep + 1)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                expr1(x, dep + 1)
            return
        expr(n, dep)
    live = depth
    for s in body:
        if s is d:
            live = depth = 0
            continue
        if isinstance(s, (ast.For, ast.AsyncFor)):
            expr1(s.iter, live)
            inside = any(x is d for x in ast.walk(s))
            _uses(s.body, nm, d, arms, live if inside else live + 1, out)
            _uses(s.orelse, nm, d, arms, live, out)
        elif isinstance(s, ast.While):
            expr1(s.test, live + 1)
            _uses(s.body, nm, d, arms, live + 1, out)
        elif isinstance(s, ast.If):
            expr1(s.test, live)
            _uses(s.body, nm, d, arms + ((id(s), 0),), live, out)
            _uses(s.orelse, nm, d, arms + ((id(s), 1),), live, out)
        elif isinstance(s, FUNCS + (ast.ClassDef,)):
            _uses(s.body, nm, d, arms, live, out)
        elif hasattr(s, "body"):
            for x in getattr(s, "items", []):
                expr1(x.context_expr, live)
            _uses(s.body, nm, d, arms, live, out)
            for h in getattr(s, "handlers", []):
                _uses(h.body, nm, d, arms, live, out)
            for k in ("orelse", "finalbody"):
                _uses(getattr(s, k, []), nm, d, arms, live, out)
        else:
            expr(s, live)


def late_lambdas(fn):
    """a function stored in a loop sees the loop variables of the last iteration"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
            vs = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            parts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            for p in parts:
                for lam in [p] if isinstance(p, ast.Lambda) else [e for e in p.elts if isinstance(e, ast.Lambda)] if isinstance(p, (ast.Tuple, ast.List)) else []:
                    _late(lam, vs)
        elif isinstance(n, ast.For):
            vs = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            vs |= {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "setdefault"):
                        for a in x.args:
                            if isinstance(a, ast.Lambda):
                                _late(a, vs)
                    elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Lambda) and any(isinstance(t, ast.Subscript) for t in x.targets):
                        _late(x.value, vs)


def _late(lam, vs):
    a = lam.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for x in ast.walk(lam.body):
        if isinstance(x, ast.Name) and x.id in vs and x.id not in own:
            x.id = "__last__" + x.id


def desugar(tree):
    return ast.fix_missing_locations(Desugar(tree).visit(tree))
