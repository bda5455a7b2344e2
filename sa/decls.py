"""Declarations: parameter lists and defaults, class attributes / dataclass fields, module constants."""
import ast
from . import terms as tm
from .terms import mk, T
from .evalr import Evaluator, Policy, Unsupported, Frame, State
from . import oblig


def _value(ctx, expr, module, cls=None, fi=None):
    ev = Evaluator(ctx.repo, Policy(known=()), oblig.ATTR_TYPES, oblig.PARAM_TYPES, spec=None, purity=ctx.purity)
    fr = Frame(fi, module, cls, cls, 0)
    st = State({}, {}, tm.TRUE)
    if cls is not None:
        for k, v in cls.attrs.items():
            if isinstance(v, ast.AST) and v is not expr and isinstance(v, (ast.Constant, ast.UnaryOp, ast.BinOp)):
                try:
                    st.locals[k] = ev.ev(v, st, fr)
                except Exception:
                    pass
    try:
        return ev.res(st, ev.ev(expr, st, fr))
    except (Unsupported, tm.Budget, RecursionError, KeyError, AttributeError, TypeError):
        return None


def signature(ctx, fi):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    out = []
    if fi.cls is not None and fi.kind != "static":
        pos = pos[1:]
    for i, x in enumerate(pos):
        d = Evaluator._default_of(fi.node, x.arg)
        out.append((x.arg, "pos", None if d is None else d))
    for x in a.kwonlyargs:
        d = Evaluator._default_of(fi.node, x.arg)
        out.append((x.arg, "kw", d))
    return out, a.vararg is not None, a.kwarg is not None


def compare_signature(ref, rf, code, cf):
    """-> list of (name, problem | None)"""
    rs, rv, rk = signature(ref, rf)
    cs, cv, ck = signature(code, cf)
    cd = {n: (i, kd, d) for i, (n, kd, d) in enumerate(cs)}
    out = []
    for i, (n, kd, d) in enumerate(rs):
        if n not in cd:
            out.append(("signature:" + n, None if ck and d is not None else "parameter %r is gone" % n))
            continue
        j, kd2, d2 = cd[n]
        if kd == "pos" and (kd2 != "pos" or j != i):
            if cv and kd2 == "kw":
                out.append(("signature:" + n, None))
                continue
            out.append(("signature:" + n, "position of parameter %r changed" % n))
            continue
        if d is None and d2 is None:
            out.append(("signature:" + n, None))
            continue
        if (d is None) != (d2 is None):
            out.append(("signature:" + n, None if d is None else "parameter %r lost its default" % n))
            continue
        x, y = _value(ref, d, rf.module, rf.cls, rf), _value(code, d2, cf.module, cf.cls, cf)
        if x is None or y is None or x is y:
            out.append(("signature:" + n, None))
        elif x is tm.NONE or y is tm.NONE or _empty(x) or _empty(y):
            out.append(("signature:" + n, ("none", n, x, y)))
        else:
            out.append(("signature:" + n, "default of %r is %s, expected %s" % (n, tm.show(y, 6), tm.show(x, 6))))
    for n, kd, d in cs:
        if n not in {r[0] for r in rs} and d is None:
            out.append(("signature:" + n, "new required parameter %r" % n))
    return out


def _empty(t):
    return t.op == "emptydict" or (t.op == "seq" and not t.a[1])


def class_fields(ci):
    out = {}
    for st in ci.node.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out[st.target.id] = st.value
    return out


def compare_class(ref, rc, code, cc):
    a, b = class_fields(rc), class_fields(cc)
    out = []
    for n, d in a.items():
        nm = "field:" + n
        if n not in b:
            out.append((nm, None if d is None else "class attribute %r is gone" % n))
            continue
        d2 = b[n]
        if d is None or d2 is None:
            out.append((nm, None if d is d2 else "default of %r changed" % n))
            continue
        x, y = _value(ref, d, rc.module, rc), _value(code, d2, cc.module, cc)
        if x is None or y is None or x is y:
            out.append((nm, None))
        else:
            x2, y2 = _factory(x), _factory(y)
            out.append((nm, None if x2 is y2 else "%r is %s, expected %s" % (n, tm.show(y, 6), tm.show(x, 6))))
    return out


def _factory(t):
    return t


def compare_module(ref, rm, code, cm):
    out = []
    for n, d in rm.consts.items():
        if not isinstance(d, ast.AST):
            continue
        if n.startswith("_") or n in ("LOGGER", "T", "logger"):
            continue
        if n not in cm.consts:
            if n in cm.imports or n in cm.functions or n in cm.classes:
                out.append(("const:" + n, None))
            else:
                out.append(("const:" + n, "module constant %r is gone" % n))
            continue
        x, y = _value(ref, d, rm), _value(code, cm.consts[n], cm)
        if x is None or y is None or x is y or "getLogger" in repr(x):
            out.append(("const:" + n, None))
        else:
            out.append(("const:" + n, "%r is %s, expected %s" % (n, tm.show(y, 6), tm.show(x, 6))))
    return out
