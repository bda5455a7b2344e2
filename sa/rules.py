"""Running a property's obligations."""
import ast
from . import oblig
from .decide import Verdict


def _params(fi):
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if fi.cls is not None and fi.kind != "static":
        ps = ps[1:]
    if a.vararg:
        ps.append("*args")
    if a.kwarg:
        ps.append("**kwargs")
    return ps


def is_private(name):
    last = name.split(":", 1)[1].split(".")
    last = last[-2] if last[-1] == "setter" else last[-1]
    return last.startswith("_") and not last.startswith("__")


def run(S, spec, targets, depth):
    out = []
    for t in targets:
        if t.endswith(":module") or ":class " in t:
            vs = S.decide_decl(t)
        elif spec.get("rule") == "isolation":
            vs = isolation(S, t)
        else:
            vs = S.decide(t, want=spec.get("want"), skip=spec.get("skip", ()))
        if any(v.status in ("violation", "missing") for v in vs) and is_private(t):
            vs = excuse_private(S, t, vs)
        out.extend(vs)
    return out


def isolation(S, t):
    """what a call does to objects the caller handed in, and which of them it keeps"""
    fi, _ = S.locate(S.ref, t)
    ps = _params(fi)
    vs = S.decide(t)
    keep = []
    for v in vs:
        pre, _, loc = v.proj.partition(":")
        if v.proj == "exists":
            continue
        if pre not in ("write", "raised-write"):
            continue
        root = loc
        for ch in ".[{(":
            root = root.split(ch)[0]
        if root in ps or loc.startswith("yaocptool."):
            keep.append(v)
            v.rule = "caller-object-effects"
    if not keep and not any(v.status == "missing" for v in vs):
        und = [v for v in vs if v.proj == "*"]
        keep = und or [Verdict(t, "caller-objects", "holds", "no write reaches an argument", "")]
    return keep


def excuse_private(S, t, vs):
    """a private helper may change as long as everything that used it behaves the same"""
    st = _excuse(S, t, frozenset(), {t})
    return vs if st == "violation" else _soften(vs, st)


def _excuse(S, t, tr, seen):
    name = t.split(":", 1)[1]
    if name.endswith(".setter") or S.escapes(t):
        return "violation"
    tr = tr | {name.split(".")[-1]}
    callers = [c for c in S.callers(t) if c not in seen]
    if not callers:
        return "violation"
    res = "holds"
    for c in callers:
        st = {v.status for v in S.decide(c, transparent=tr)}
        if st & {"violation", "missing"}:
            if not is_private(c):
                return "violation"
            x = _excuse(S, c, tr, seen | {c})
            if x == "violation":
                return x
            if x == "undecided":
                res = x
        elif "undecided" in st:
            if unchanged(S, c):
                return "violation"      # nothing in the caller makes up for it
            res = "undecided"
    return res


def unchanged(S, t):
    """does the function still make the same use of its callees?"""
    fr, _ = S.locate(S.ref, t)
    fc, _ = S.locate(S.code, t)
    if fr is not None and fc is not None and _plain(fr.node) == _plain(fc.node):
        return True
    st = {v.status for v in S.decide(t)}
    return not st & {"violation", "missing", "undecided"}


def _plain(node):
    import ast
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        if isinstance(x, ast.FunctionDef) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(getattr(x.body[0], "value", None), ast.Constant):
            x.body = x.body[1:] or [ast.Pass()]
    return ast.dump(n)


def _soften(vs, to="undecided"):
    for v in vs:
        if v.status in ("violation", "missing"):
            v.status = to
            v.detail = "private helper; every caller still matches: " + str(v.detail)[:200]
    return vs


def closure(S, mine, every):
    """functions reached from the anchors through calls (by resolved name, on the reference tree)"""
    return S.reach(mine, every)
