"""Generators of source edits used to measure the analysis (never run by a check).

refactorings(fn) -> edits that keep behaviour; mutations(fn) -> edits that change it.
Each edit is (label, new FunctionDef, extra helper FunctionDefs)."""
import ast
import copy
import random

PAIRS = [("x_min", "x_max"), ("u_min", "u_max"), ("y_min", "y_max"), ("h_initial", "h_final"), ("n_x", "n_u"), ("n_y", "n_x"),
         ("x", "y"), ("u", "y"), ("ode", "alg"), ("x_0", "x"), ("lb", "ub"), ("t_0", "t_f"), ("t_0", "t"), ("tau", "t"), ("p", "theta"),
         ("x_guess", "y_guess"), ("last_u", "u_guess"), ("n_p", "n_theta"), ("delta_u_min", "delta_u_max"),
         ("p_opt", "theta_opt"), ("S", "V"), ("L", "V"), ("x_cost", "u_cost"), ("finite_elements", "degree"), ("degree", "degree_control"),
         ("g_ineq", "g_eq"), ("time_g_ineq", "time_g_eq"), ("K", "P"), ("nu", "mu"), ("x_names", "y_names"), ("y_names", "u_names"),
         ("g_lb", "g_ub"), ("x_lb", "x_ub")]
SW = {}
for a, b in PAIRS:
    SW.setdefault(a, b)
    SW.setdefault(b, a)


def names_bound(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def bodies(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


class Loc(object):
    """deep copy of fn with access to the node at a preorder position"""


def nth(fn, pred):
    return [i for i, n in enumerate(ast.walk(fn)) if pred(n)]


def at(fn, i):
    for j, n in enumerate(ast.walk(fn)):
        if j == i:
            return n


def replace_node(fn, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                return new
            return self.generic_visit(n)
    return R().visit(fn)


# ------------------------------------------------------------------ mutations
def mutations(fn, cls=None):
    is_doc = set()
    for b in bodies(fn):
        if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            is_doc.add(id(b[0].value))
    nodes = list(ast.walk(fn))
    deco = set()
    for d in fn.decorator_list:
        for n in ast.walk(d):
            deco.add(id(n))
    ann = set()
    for a in ast.walk(fn):
        if isinstance(a, (ast.arg, ast.AnnAssign)) and a.annotation is not None:
            for n in ast.walk(a.annotation):
                ann.add(id(n))
        if isinstance(a, ast.FunctionDef) and a.returns is not None:
            for n in ast.walk(a.returns):
                ann.add(id(n))
    inraise = set()
    for a in nodes:
        if isinstance(a, ast.Raise) or isinstance(a, ast.Call) and ast.unparse(a.func).split(".")[0] in ("print", "warnings", "LOGGER", "logging"):
            for n in ast.walk(a):
                inraise.add(id(n))
    for i, n in enumerate(nodes):
        if id(n) in deco or id(n) in ann or id(n) in is_doc or id(n) in inraise:
            continue

        def edit(f):
            c = copy.deepcopy(fn)
            m = at(c, i)
            r = f(m)
            if r is not None:
                c = replace_node(c, m, r)
            return ast.fix_missing_locations(c)
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                  ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            t = sw[type(n.ops[0])]
            yield "L%d cmp" % ln, edit(lambda m: setattr(m, "ops", [t()]))
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            t = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                yield "L%d binop" % ln, edit(lambda m: setattr(m, "op", t()))
                if isinstance(n.op, (ast.Add, ast.Mult)):
                    yield "L%d binop-dropright" % ln, edit(lambda m: m.left)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            yield "L%d const+1" % ln, edit(lambda m: setattr(m, "value", m.value + 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield "L%d bool" % ln, edit(lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.BoolOp):
            yield "L%d dropconj" % ln, edit(lambda m: m.values[0])
            yield "L%d dropconj2" % ln, edit(lambda m: m.values[-1])
            t2 = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield "L%d andor" % ln, edit(lambda m: setattr(m, "op", t2()))
        if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(n.ctx, ast.Load):
            yield "L%d attr %s->%s" % (ln, n.attr, SW[n.attr]), edit(lambda m: setattr(m, "attr", SW[m.attr]))
        if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
            bound = names_bound(fn) | {a.arg for a in fn.args.args}
            if SW[n.id] in bound:
                yield "L%d name %s->%s" % (ln, n.id, SW[n.id]), edit(lambda m: setattr(m, "id", SW[m.id]))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]) \
                    and ast.unparse(n.func) not in ("isinstance", "zip", "max", "min", "hasattr", "getattr"):
                yield "L%d swapargs" % ln, edit(lambda m: setattr(m, "args", [m.args[1], m.args[0]] + m.args[2:]))
            for k in range(len(n.keywords)):
                yield "L%d dropkw %s" % (ln, n.keywords[k].arg), edit(lambda m: m.keywords.pop(k) and None)
            f = ast.unparse(n.func)
            if (f in ("list", "copy.copy", "copy.deepcopy", "dict", "DM", "vec", "horzcat", "fabs") or f.endswith(".copy")) and (n.args or f.endswith(".copy")) and not (
                    n.args and isinstance(n.args[0], ast.Starred)):
                yield "L%d dropcopy %s" % (ln, f), edit(lambda m: m.args[0] if m.args else m.func.value)
            if f in ("range",) and len(n.args) == 1:
                yield "L%d range-1" % ln, edit(lambda m: setattr(m, "args", [ast.BinOp(m.args[0], ast.Sub(), ast.Constant(1))]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield "L%d unary" % ln, edit(lambda m: m.operand)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                yield "L%d slicelo" % ln, edit(lambda m: setattr(m.slice, "lower", None))
            if n.slice.upper is not None:
                yield "L%d slicehi" % ln, edit(lambda m: setattr(m.slice, "upper", None))
        if isinstance(n, ast.IfExp):
            yield "L%d ifexp" % ln, edit(lambda m: m.body)
    # statements
    k = 0
    for bi, b in enumerate(bodies(fn)):
        for si, s in enumerate(b):
            def sedit(f):
                c = copy.deepcopy(fn)
                bb = list(bodies(c))[bi]
                f(bb)
                if not bb:
                    bb.append(ast.Pass())
                return ast.fix_missing_locations(c)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = ast.unparse(s.value.func).split(".")[0]
                if f not in ("print", "warnings", "LOGGER", "logging"):
                    yield "L%d drop-call" % s.lineno, sedit(lambda bb: bb.pop(si))
            elif isinstance(s, (ast.Assign, ast.AugAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(s, ast.AugAssign):
                    yield "L%d drop-assign" % s.lineno, sedit(lambda bb: bb.pop(si))
            elif isinstance(s, ast.If):
                if all(isinstance(x, ast.Raise) for x in s.body):
                    yield "L%d drop-check" % s.lineno, sedit(lambda bb: bb.pop(si))
                else:
                    yield "L%d if-always" % s.lineno, sedit(lambda bb: bb.__setitem__(slice(si, si + 1), bb[si].body))
                    yield "L%d if-never" % s.lineno, sedit(lambda bb: bb.__setitem__(slice(si, si + 1), bb[si].orelse))
            elif isinstance(s, (ast.Continue, ast.Break)):
                yield "L%d drop-%s" % (s.lineno, type(s).__name__), sedit(lambda bb: bb.pop(si))


# --------------------------------------------------------------- refactorings
def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def has_ctl(stmts, loops=True):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


def comps(n):
    return any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda, ast.FunctionDef)) for x in ast.walk(n))


def pure_expr(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
    return True


def touched_roots(s):
    """textual access paths written/read by a statement, for a crude independence test"""
    w, r = set(), set()
    for n in ast.walk(s):
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
            t = ast.unparse(n)
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                w.add(t)
            else:
                r.add(t)
    return w, r


def refactorings(fn, cls=None, rnd=None):
    rnd = rnd or random.Random(1)
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    # rename locals
    loc = names_bound(fn) - params - {"self"}
    glob = any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn))
    if loc and not glob:
        c = copy.deepcopy(fn)
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = "zz_" + n.id
        yield "rename-locals", ast.fix_missing_locations(c), []
    # a statement that does nothing
    c = copy.deepcopy(fn)
    c.body.insert(1 if len(c.body) > 1 else 0, ast.parse("_unused = 0").body[0])
    yield "dead-store", ast.fix_missing_locations(c), []
    # if inversion
    for bi, b in enumerate(bodies(fn)):
        for si, s in enumerate(b):
            def sedit(f):
                cc = copy.deepcopy(fn)
                bb = list(bodies(cc))[bi]
                f(bb)
                return ast.fix_missing_locations(cc)
            if isinstance(s, ast.If):
                def inv(bb):
                    x = bb[si]
                    nt = ast.UnaryOp(ast.Not(), x.test)
                    bb[si] = ast.If(nt, x.orelse or [ast.Pass()], x.body)
                yield "L%d if-invert" % s.lineno, sedit(inv), []
                if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    def unelse(bb):
                        x = bb[si]
                        bb[si:si + 1] = [ast.If(x.test, x.body, [])] + x.orelse
                    yield "L%d un-else" % s.lineno, sedit(unelse), []
                if not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and si + 1 < len(b):
                    def reelse(bb):
                        x = bb[si]
                        rest = bb[si + 1:]
                        del bb[si + 1:]
                        bb[si] = ast.If(x.test, x.body, rest)
                    yield "L%d re-else" % s.lineno, sedit(reelse), []

                def tmpc(bb):
                    x = bb[si]
                    bb[si:si + 1] = [ast.Assign([ast.Name("cond_", ast.Store())], x.test), ast.If(ast.Name("cond_", ast.Load()), x.body, x.orelse)]
                yield "L%d cond-temp" % s.lineno, sedit(tmpc), []
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    def nest(bb):
                        x = bb[si]
                        vs = x.test.values
                        inner = ast.If(vs[-1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), x.body, [])
                        bb[si] = ast.If(vs[0], [inner], [])
                    yield "L%d nest-and" % s.lineno, sedit(nest), []
                # ternary
                if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                        ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]):
                    def tern(bb):
                        x = bb[si]
                        bb[si] = ast.Assign(x.body[0].targets, ast.IfExp(x.test, x.body[0].value, x.orelse[0].value))
                    yield "L%d ternary" % s.lineno, sedit(tern), []
                if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) \
                        and s.body[0].value is not None and s.orelse[0].value is not None:
                    def ternr(bb):
                        x = bb[si]
                        bb[si] = ast.Return(ast.IfExp(x.test, x.body[0].value, x.orelse[0].value))
                    yield "L%d ternary-ret" % s.lineno, sedit(ternr), []
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def untern(bb):
                    x = bb[si]
                    v = x.value
                    bb[si] = ast.If(v.test, [ast.Assign(x.targets, v.body)], [ast.Assign(copy.deepcopy(x.targets), v.orelse)])
                yield "L%d un-ternary" % s.lineno, sedit(untern), []
            # value into a temp
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and getattr(s, "value", None) is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.Yield)):
                if isinstance(s, ast.AugAssign) or not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)):
                    if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple)):
                        def tmp(bb):
                            x = bb[si]
                            bb.insert(si, ast.Assign([ast.Name("tmp_", ast.Store())], x.value))
                            x.value = ast.Name("tmp_", ast.Load())
                        yield "L%d value-temp" % s.lineno, sedit(tmp), []
            # call args into temps
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], (ast.Starred, ast.Constant, ast.Name)):
                def tmpa(bb):
                    x = bb[si]
                    bb.insert(si, ast.Assign([ast.Name("arg_", ast.Store())], x.value.args[0]))
                    x.value.args[0] = ast.Name("arg_", ast.Load())
                yield "L%d arg-temp" % s.lineno, sedit(tmpa), []
            # swap adjacent independent statements
            if si + 1 < len(b) and isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(b[si + 1], (ast.Assign, ast.AugAssign)):
                w1, r1 = touched_roots(s)
                w2, r2 = touched_roots(b[si + 1])
                if not (w1 & (w2 | r2)) and not (w2 & r1) and not any(isinstance(t, (ast.Subscript)) for t in ast.walk(s)) \
                        and (pure_expr(s.value) or pure_expr(b[si + 1].value)):
                    def pathy(ws, rs):
                        return any(r.startswith(w + ".") or r.startswith(w + "[") for w in ws for r in rs)
                    if not pathy(w1, r2 | w2) and not pathy(w2, r1 | w1) and not isinstance(s, ast.AugAssign) and not isinstance(b[si + 1], ast.AugAssign):
                        def swap(bb):
                            bb[si], bb[si + 1] = bb[si + 1], bb[si]
                        yield "L%d swap" % s.lineno, sedit(swap), []
            # loops
            if isinstance(s, ast.For) and not s.orelse and not isinstance(s.iter, ast.Call):
                if isinstance(s.iter, (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Name):
                    def idxl(bb):
                        x = bb[si]
                        lv = "idx_%d" % si
                        it = copy.deepcopy(x.iter)
                        asg = ast.Assign([x.target], ast.Subscript(it, ast.Name(lv, ast.Load()), ast.Load()))
                        bb[si] = ast.For(ast.Name(lv, ast.Store()),
                                         ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [x.iter], [])], []),
                                         [asg] + x.body, [])
                    # only valid for indexable sequences; callers filter
                    yield "L%d index-loop?" % s.lineno, sedit(idxl), []
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Name) and not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                def whil(bb):
                    x = bb[si]
                    v = x.target.id
                    bb[si:si + 1] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0)),
                                     ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [x.iter.args[0]]),
                                               x.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                yield "L%d while-loop" % s.lineno, sedit(whil), []
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "enumerate" and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)):
                def unenum(bb):
                    x = bb[si]
                    i, e = x.target.elts
                    seq = x.iter.args[0]
                    asg = ast.Assign([e], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load()))
                    bb[si] = ast.For(i, ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [seq], [])], []), [asg] + x.body, [])
                if isinstance(s.target.elts[0], ast.Name):
                    yield "L%d un-enumerate?" % s.lineno, sedit(unenum), []
            # list comprehension -> loop
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                def uncomp(bb):
                    x = bb[si]
                    g = x.value.generators[0]
                    app = ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_", ast.Load()), "append", ast.Load()), [x.value.elt], []))
                    body = [app]
                    for cnd in reversed(g.ifs):
                        body = [ast.If(cnd, body, [])]
                    bb[si:si + 1] = [ast.Assign([ast.Name("acc_", ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                    x.value = ast.Name("acc_", ast.Load())
                    bb.insert(si + 2, x)
                tn = stores(s.value.generators[0].target)
                if not (tn & (params | (loc - tn))):
                    yield "L%d comp->loop" % s.lineno, sedit(uncomp), []
            # loop append -> comprehension
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and \
                    isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and isinstance(s.body[0].value.func.value, ast.Name) \
                    and s.body[0].value.func.value.id not in loads(s.body[0].value.args[0]):
                def tocomp(bb):
                    x = bb[si]
                    cl = x.body[0].value
                    bb[si] = ast.Expr(ast.Call(ast.Attribute(cl.func.value, "extend", ast.Load()),
                                               [ast.ListComp(cl.args[0], [ast.comprehension(x.target, x.iter, [], 0)])], []))
                tn = stores(s.target)
                used_after = set()
                for z in b[si + 1:]:
                    used_after |= loads(z)
                if not tn & used_after:
                    yield "L%d loop->comp" % s.lineno, sedit(tocomp), []
        # extract helper: every run of 2..4 statements without control flow
        if cls is not None and any(a.arg == "self" for a in fn.args.args):
            for lo in range(len(b)):
                for w in (1, 3):
                    chunk = b[lo:lo + w]
                    if len(chunk) < w or has_ctl(chunk) or any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in chunk):
                        continue
                    if any(isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in chunk):
                        continue
                    if w == 1 and not isinstance(chunk[0], (ast.For, ast.If)):
                        continue
                    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for x in chunk for n in ast.walk(x)):
                        continue
                    ld = set()
                    stt = set()
                    for x in chunk:
                        ld |= loads(x)
                        stt |= stores(x)
                        for n in ast.walk(x):
                            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                                ld.add(n.target.id)
                    allloc = loc | params
                    comp_only = set()
                    ins = sorted((ld & allloc) - {"self"})
                    # parameters only defined maybe: require defined before chunk in straight line is not checked; skip names stored in chunk first
                    first_store = set()
                    seen_load = set()
                    for x in chunk:
                        l = loads(x)
                        seen_load |= (l - first_store)
                        if isinstance(x, ast.Assign):
                            first_store |= stores(x)
                        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                            seen_load.add(x.target.id)
                    if any(isinstance(x, (ast.If, ast.For, ast.While, ast.Try, ast.With)) for x in chunk):
                        before = set(params)
                        for x in b[:lo]:
                            if isinstance(x, ast.Assign):
                                before |= stores(x)
                        if stt - before - comp_locals(chunk):
                            if not all(is_loop_local(v, chunk, fn, b, lo, w) for v in stt - before):
                                continue
                    ins = sorted(((seen_load & allloc) - {"self"}) - {v for v in stt if is_comp_only(v, chunk)})
                    inner_only = {v for v in ins if v in stt and not defined_before(v, b, lo, params, fn)}
                    ins = [v for v in ins if v not in inner_only]
                    outs = sorted(v for v in stt if not is_comp_only(v, chunk) and used_elsewhere(v, chunk, fn))
                    if any(isinstance(n, ast.Call) and ast.unparse(n.func) == "super" for x in chunk for n in ast.walk(x)):
                        continue

                    def mkx():
                        cc = copy.deepcopy(fn)
                        bb = list(bodies(cc))[bi]
                        ch = bb[lo:lo + w]
                        hb = copy.deepcopy(ch)
                        if outs:
                            rv = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())
                            hb.append(ast.Return(rv))
                        h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg("self")] + [ast.arg(v) for v in ins], None, [], [], None, []), hb, [], None)
                        try:
                            h.type_params = []
                        except Exception:
                            pass
                        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted_part", ast.Load()), [ast.Name(v, ast.Load()) for v in ins], [])
                        if outs:
                            tg = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())
                            st = ast.Assign([tg], call)
                        else:
                            st = ast.Expr(call)
                        bb[lo:lo + w] = [st]
                        return ast.fix_missing_locations(cc), [ast.fix_missing_locations(h)]
                    a, hs = mkx()
                    yield "L%d extract%d" % (chunk[0].lineno, w), a, hs
    # expression-level
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def edit(f):
            cc = copy.deepcopy(fn)
            m = at(cc, i)
            r = f(m)
            if r is not None:
                cc = replace_node(cc, m, r)
            return ast.fix_missing_locations(cc)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.IsNot, ast.NotIn)):
                t = ast.Is if isinstance(n.ops[0], ast.IsNot) else ast.In
                yield "L%d not-is" % n.lineno, edit(lambda m: ast.UnaryOp(ast.Not(), ast.Compare(m.left, [t()], m.comparators))), []
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and isinstance(n.comparators[0], ast.Constant):
                t2 = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
                yield "L%d flip" % n.lineno, edit(lambda m: ast.Compare(m.comparators[0], [t2()], [m.left])), []
        if isinstance(n, ast.BoolOp) and len(n.values) == 2 and isinstance(n.op, ast.And):
            yield "L%d demorgan" % n.lineno, edit(lambda m: ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in m.values]))), []
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Mult, ast.Sub)) and isinstance(n.target, ast.Name):
            yield "L%d unaug" % n.lineno, edit(lambda m: ast.Assign([m.target], ast.BinOp(ast.Name(m.target.id, ast.Load()), m.op, m.value))), []
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict" and n.keywords and not n.args and all(k.arg for k in n.keywords):
            yield "L%d dictlit" % n.lineno, edit(lambda m: ast.Dict([ast.Constant(k.arg) for k in m.keywords], [k.value for k in m.keywords])), []
    # self.attr -> local alias of an object
    for bi, b in enumerate(bodies(fn)):
        if b is fn.body and "self" in params:
            for attr in ("problem", "model", "solution_method", "options", "network"):
                if sum(1 for n in nodes if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self"
                       and isinstance(n.ctx, ast.Load)) >= 2 and not any(
                        isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in nodes) and attr not in loc | params:
                    cc = copy.deepcopy(fn)

                    class R(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            self.generic_visit(n)
                            if n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                                return ast.Name("al_" + attr, ast.Load())
                            return n
                    cc = R().visit(cc)
                    k = 1 if isinstance(cc.body[0], ast.Expr) and isinstance(cc.body[0].value, ast.Constant) else 0
                    cc.body.insert(k, ast.parse("al_%s = self.%s" % (attr, attr)).body[0])
                    if fn.name != "__init__":
                        yield "alias-%s" % attr, ast.fix_missing_locations(cc), []


def is_comp_only(v, chunk):
    """bound only inside comprehensions of the chunk"""
    own = set()
    for x in chunk:
        stack = [x]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
            stack.extend(ast.iter_child_nodes(n))
    return v not in own


def comp_locals(chunk):
    return {v for x in chunk for v in stores(x) if is_comp_only(v, chunk)}


def is_loop_local(v, chunk, fn, b, lo, w):
    return not used_elsewhere(v, chunk, fn)


def used_elsewhere(v, chunk, fn):
    inside = {id(n) for x in chunk for n in ast.walk(x)}
    return any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn))


def defined_before(v, b, lo, params, fn):
    if v in params:
        return True
    line = b[lo].lineno
    return any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store) and n.lineno < line for n in ast.walk(fn))
