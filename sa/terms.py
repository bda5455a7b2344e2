"""Hash-consed value-graph terms and their normalising constructors.

A term denotes the value a variable / attribute / result has at a program
point, as a function of the values on entry.  Constructors normalise: sums and
products become polynomials, concatenations are flattened, branches become
gated joins (``ite``), loops become ``for`` / ``sum`` / ``mu`` binders in
locally-nameless form.  Two pieces of code that compute the same value by
ordinary refactorings of each other therefore build the *same* term object.
Nothing here executes repository code.
"""
import hashlib
from fractions import Fraction

_POOL = {}
LIMIT = [400000]          # pool budget per process
COUNT = [0]


class Budget(Exception):
    pass


class T(object):
    __slots__ = ("op", "a", "k", "fv", "mx", "__weakref__")

    def __repr__(self):
        return show(self)


def _akey(x):
    if isinstance(x, T):
        return x.k
    if isinstance(x, tuple):
        return b"(" + b",".join(_akey(i) for i in x) + b")"
    return ("%s:%r" % (type(x).__name__, x)).encode()


_EMPTY = frozenset()


def mk(op, *a):
    key = (op, a) if op != "const" else (op, a, type(a[1]).__name__)
    t = _POOL.get(key)
    if t is not None:
        return t
    COUNT[0] += 1
    if COUNT[0] > LIMIT[0]:
        raise Budget("term budget exceeded")
    t = T.__new__(T)
    t.op = op
    t.a = a
    t.k = hashlib.blake2b(op.encode() + b"|" + b"|".join(_akey(x) for x in a), digest_size=12).digest()
    fv = set()
    mx = -1
    stack = list(a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            fv |= x.fv
            if x.mx > mx:
                mx = x.mx
        elif isinstance(x, tuple):
            stack.extend(x)
    if op in ("fv", "ref"):
        fv.add(t)
    t.fv = frozenset(fv) if fv else _EMPTY
    if op == "bv":
        mx = a[0]
    elif op == "abs":
        mx = max(mx - 1, -1)
    t.mx = mx          # largest dangling de Bruijn level, -1 when closed
    _POOL[key] = t
    return t


_uid = [0]


def fresh(tag="i", info=()):
    _uid[0] += 1
    return mk("fv", _uid[0], tag, info)


# ----------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", type(v).__name__, v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            if v == float("inf"):
                return INF
            if v == float("-inf"):
                return neg(INF)
            return mk("glob", "nan")
        v = Fraction(repr(v))
    if isinstance(v, int):
        v = Fraction(v)
    if isinstance(v, complex):
        return mk("const", "complex", repr(v))
    return mk("const", "num", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
INF = mk("glob", "inf")
UNDEF = mk("undef")
EMPTYDICT = mk("emptydict")


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.a[0] == "num"


def is_str(t):
    return t.op == "const" and t.a[0] == "str"


def num(t):
    return t.a[1]


ZERO = const(0)
ONE = const(1)

# names whose values are non-negative integers everywhere in the project
INT_ATTRS = {
    "finite_elements", "degree", "degree_control", "n_x", "n_y", "n_u", "n_p", "n_theta", "n_u_par",
    "n_eta", "n_p_opt", "n_theta_opt", "n_g_ineq", "n_g_eq", "n_h_initial", "n_h_final", "n_h",
    "n_iterations", "iterations", "n_relax",
}
INT_METHODS = {"numel", "size1", "size2", "nnz", "n_dep"}


def is_int(t):
    op = t.op
    if op == "const":
        return t.a[0] == "num" and t.a[1].denominator == 1
    if op == "fv":
        return t.a[1] == "i"
    if op == "bv":
        return len(t.a) > 2 and t.a[2] == "i"
    if op in ("len", "first", "wcount", "zipn", "floordiv"):
        return True
    if op == "attr":
        return t.a[1] in INT_ATTRS
    if op == "param":
        return t.a[0] in INT_ATTRS
    if op == "mcall":
        return t.a[1] in INT_METHODS
    if op == "poly":
        return all(c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m) for c, m in t.a[0])
    if op == "sum":
        return is_int(t.a[1].a[1])
    if op == "ite":
        return is_int(t.a[1]) and is_int(t.a[2])
    return False


def is_nonneg(t):
    op = t.op
    if op == "const":
        return t.a[0] == "num" and t.a[1] >= 0
    if op == "poly":
        return all(c >= 0 and all(is_nonneg(x) for x, e in m) for c, m in t.a[0])
    if op == "ite":
        return is_nonneg(t.a[1]) and is_nonneg(t.a[2])
    return is_int(t)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    if t.op == "poly":
        return {m: c for c, m in t.a[0]}
    if is_num(t):
        return {(): num(t)} if num(t) != 0 else {}
    if t.op == "const" and t.a[0] == "bool":
        return {(): Fraction(int(t.a[1]))} if t.a[1] else {}
    return {((t, 1),): Fraction(1)}


def _unpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const_fr(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (len(mc[0]), [(x.k, e) for x, e in mc[0]]))
    return mk("poly", tuple((c, m) for m, c in items))


def const_fr(c):
    return mk("const", "num", c)


def _mulm(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: (p[0].k, p[1])))


PHIKIND = {"phi:set": "seq", "phi:list": "seq", "phi:map": "map"}


def phitag(v):
    """loop-carried variables keep the container kind they start with"""
    if v.op == "seq" and v.a[0] in ("set", "list"):
        return "phi:" + v.a[0]
    if kind(v) == "map":
        return "phi:map"
    return "phi"


def is_set(v):
    if v.op == "mu":
        v = v.a[2][v.a[0]]
    if v.op == "ite":
        return is_set(v.a[1]) and is_set(v.a[2])
    return v.op == "seq" and v.a[0] == "set" or v.op == "fv" and v.a[1] == "phi:set" or v.op == "bv" and len(v.a) > 2 and v.a[2] == "phi:set"


def kind(t):
    op = t.op
    if op == "const":
        k = t.a[0]
        return {"num": "num", "str": "str", "bool": "bool", "NoneType": "none"}.get(k)
    if op == "seq":
        return "vec" if t.a[0] in ("vcat", "hcat") else "seq"
    if op == "strcat":
        return "str"
    if op == "poly":
        return "num"
    if op in ("emptydict", "ddict"):
        return "map"
    if op in ("fv", "bv"):
        tag = t.a[1] if op == "fv" else (t.a[2] if len(t.a) > 2 else "")
        return PHIKIND.get(tag)
    if op == "mu" and t.a[2][t.a[0]].op in ("seq", "emptydict", "map"):
        return kind(t.a[2][t.a[0]])
    if op == "map":
        return kind(t.a[0])
    if op == "ite":
        a, b = kind(t.a[1]), kind(t.a[2])
        return a if a == b else None
    if op == "call" and t.a[0].op == "glob":
        q = t.a[0].a[0]
        if q in ("builtins.str", "builtins.repr"):
            return "str"
        if q == "builtins.sorted":
            return "seq"
        return RETKIND.get(q)
    if op == "attr":
        return ATTRKIND.get(t.a[1])
    return None


# attributes that hold a list / dictionary everywhere in the project, and the kinds functions are annotated to return
ATTRKIND = {n: "seq" for n in ("_parametrized_controls", "time_g_eq", "time_g_ineq", "x_names", "y_names", "u_names", "p_names",
                               "theta_names", "theta_opt_names", "time_breakpoints")}
ATTRKIND.update({n: "map" for n in ("_ode", "nlpsol_opts", "statistics", "other_data", "x_data", "y_data", "u_data")})
RETKIND = {}


def add(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "seq" or kb == "seq":
        if ka in ("seq", None) and kb in ("seq", None):
            kd = a.a[0] if a.op == "seq" else (b.a[0] if b.op == "seq" else "list")
            return seq(kd, (sp(a), sp(b)))
    if ka == "str" or kb == "str":
        return strcat(a, b)
    if a.op == "ite" and ka == "seq" or b.op == "ite" and kb == "seq":
        pass
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _unpoly(d)


def neg(a):
    return _unpoly({m: -c for m, c in _poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "seq" and kb != "seq":
        return seq(a.a[0] if a.op == "seq" else "list", (for_(b, mk("abs", 1, mk("segs", sp(a)))),))
    if kb == "seq":
        return mul(b, a)
    if ka == "str" or kb == "str":
        return mk("smul", a, b)
    pa, pb = _poly(a), _poly(b)
    for z, o in ((pa, b), (pb, a)):
        if not z and o.op in ("call", "poly", "mcall", "seq") and _shaped(o):
            return mk("call", mk("glob", "zeros_like"), (o,), ())
    if len(pa) * len(pb) > 40:
        if a.k > b.k:
            a, b = b, a
        return mk("bigmul", a, b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _unpoly(d)


_MATRIX_FUNS = ("ones", "zeros", "eye", "inf", "repmat", "nan")


def _shaped(t):
    """the value carries a matrix shape that a zero factor does not erase"""
    if t.op == "call" and t.a[0].op == "glob":
        return t.a[0].a[0].startswith("casadi.") and t.a[0].a[0].rsplit(".", 1)[-1] in _MATRIX_FUNS
    if t.op == "poly":
        return any(_shaped(x) for c, m in t.a[0] for x, e in m)
    return t.op == "seq" and t.a[0] in ("vcat", "hcat")


def inv(a):
    if is_num(a) and num(a) != 0:
        return const_fr(1 / num(a))
    p = _poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return _unpoly({tuple((x, -e) for x, e in m): 1 / c})
    return _unpoly({((a, -1),): Fraction(1)})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if is_num(b) and num(b).denominator == 1 and 0 <= num(b) <= 4:
        r = ONE
        for _ in range(int(num(b))):
            r = mul(r, a)
        return r
    if is_num(a) and is_num(b) and num(b).denominator == 1 and abs(num(b)) < 20 and num(a) != 0:
        return const_fr(num(a) ** int(num(b)))
    return mk("pow", a, b)


def floordiv(a, b):
    return mk("floordiv", a, b)


def strcat(*parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            ps = list(p.a[0])
        elif kind(p) == "str" or p.op in ("strfor", "ite", "mu", "fv", "bv"):
            ps = [p]
        else:
            ps = [tostr(p)]
        for q in ps:
            if is_str(q) and q.a[1] == "":
                continue
            if out and is_str(out[-1]) and is_str(q):
                out[-1] = const(out[-1].a[1] + q.a[1])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and kind(out[0]) == "str":
        return out[0]
    return mk("strcat", tuple(out))


def tostr(t):
    if is_str(t) or t.op == "strcat":
        return t
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] == "builtins.str" and len(t.a[1]) == 1:
        return t
    if is_num(t) and num(t).denominator == 1:
        return const(str(int(num(t))))
    if is_int(t):
        return mk("call", mk("glob", "builtins.str"), (t,), ())
    return mk("call", mk("glob", "builtins.str"), (t,), ())


# ------------------------------------------------------------------ booleans
def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def _truthbool(t):
    return t.op == "const" and t.a[0] == "bool"


ITE_DEPTH = [0]


_ISB = {}
_ITE = {}
_BDD = {}
_ORD = {}


def is_bool(t):
    """a decision diagram over branch conditions with boolean leaves"""
    if t.op == "const":
        return t.a[0] == "bool"
    if t.op != "ite":
        return False
    r = _ISB.get(t)
    if r is None:
        r = is_bool(t.a[1]) and is_bool(t.a[2])
        _ISB[t] = r
    return r


def _ord(atom_):
    o = _ORD.get(atom_)
    if o is None:
        o = len(_ORD)
        _ORD[atom_] = o
    return o


def bdd_ite(f, g, h):
    if f is TRUE or g is h:
        return g
    if f is FALSE:
        return h
    if g is TRUE and h is FALSE:
        return f
    key = (f, g, h)
    r = _BDD.get(key)
    if r is not None:
        return r
    top = None
    for x in (f, g, h):
        if x.op == "ite":
            o = _ord(x.a[0])
            if top is None or o < top[0]:
                top = (o, x.a[0])
    v = top[1]

    def co(x, val):
        return (x.a[1] if val else x.a[2]) if x.op == "ite" and x.a[0] is v else x
    hi = bdd_ite(co(f, 1), co(g, 1), co(h, 1))
    lo = bdd_ite(co(f, 0), co(g, 0), co(h, 0))
    r = hi if hi is lo else mk("ite", v, hi, lo)
    _BDD[key] = r
    return r


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.a[1] else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "dead":
        return b
    if b.op == "dead":
        return a
    if c.op != "ite":
        c = mk("ite", c, TRUE, FALSE)
        _ord(c.a[0])
    if is_bool(a) and is_bool(b) and is_bool(c):
        return bdd_ite(c, a, b)
    key = (c, a, b)
    r = _ITE.get(key)
    if r is not None:
        return r
    p, q, s = c.a
    if q is TRUE and s is FALSE:
        x, y = _cof1(a, p, True), _cof1(b, p, False)
        r = x if x is y else mk("ite", p, x, y)
    else:
        # prefer keeping compound conditions as one gate per atom, shared through the memo
        x, y = ite(q, a, b), ite(s, a, b)
        x, y = _cof1(x, p, True), _cof1(y, p, False)
        r = x if x is y else mk("ite", p, x, y)
    _ITE[key] = r
    return r


def _cof1(t, c, val):
    while t.op == "ite" and t.a[0] is c:
        t = t.a[1] if val else t.a[2]
    return t


BOOL_ATOMS = {"eqz", "gtz", "isnone", "eq", "truth", "in", "is", "exists", "exc", "lt", "le", "isa"}


def atom(op, *a):
    t = mk(op, *a)
    return mk("ite", t, TRUE, FALSE)


CASADI_MAKERS = {"casadi." + n for n in (
    "DM", "SX", "MX", "DM.zeros", "SX.zeros", "MX.zeros", "DM.ones", "SX.ones", "MX.ones", "DM.eye", "SX.eye", "MX.eye", "DM.inf",
    "SX.sym", "MX.sym", "DM.nan", "diag", "mtimes", "reshape", "vec", "vertcat")}


def casadi_value(v):
    return v.op == "call" and v.a[0].op == "glob" and v.a[0].a[0] in CASADI_MAKERS or v.op == "seq" and v.a[0] in ("vcat", "hcat")


def c_isa(v, n):
    if v is NONE and n != "builtins.object":
        return FALSE
    if v.op == "ite" and not v.a[1:] == (TRUE, FALSE) and len(_leaves(v)) <= 8:
        return ite(_c(v.a[0]), c_isa(v.a[1], n), c_isa(v.a[2], n))
    if v.op == "seq" and v.a[0] in ("list", "tuple", "set") and n != "builtins.object":
        return TRUE if n == "builtins." + v.a[0] else FALSE
    if v.op in ("emptydict", "map", "ddict") and n.startswith("builtins."):
        return TRUE if n in ("builtins.dict", "builtins.object") else FALSE
    if casadi_value(v) and n.startswith("builtins.") and n != "builtins.object":
        return FALSE
    return atom("isa", v, n)


def _lead(p):
    items = p.a[0] if p.op == "poly" else None
    if items is None:
        return Fraction(1)
    for c, m in items:
        if m != ():
            return c
    return items[0][0]


def c_eqz(p):
    if is_num(p):
        return TRUE if num(p) == 0 else FALSE
    if p.op == "poly":
        l = _lead(p)
        if l != 1:
            p = mul(p, const_fr(1 / l))
        if is_nonneg_strict(p):
            return FALSE
    return atom("eqz", p)


def is_nonneg_strict(p):
    """non-negative part plus a positive constant."""
    if p.op != "poly":
        return False
    d = {m: c for c, m in p.a[0]}
    k = d.get((), 0)
    if k == 0:
        return False
    rest = sub(p, const_fr(k))
    if k > 0 and is_nonneg(rest):
        return True
    if k < 0 and is_nonneg(neg(rest)):
        return True
    return False


def c_gtz(p):
    """p > 0"""
    if is_num(p):
        return TRUE if num(p) > 0 else FALSE
    if is_int(p):
        if is_nonneg(p) and p.op != "poly":
            return bnot(c_eqz(p))
        if p.op == "poly":
            d = {m: c for c, m in p.a[0]}
            k = d.get((), Fraction(0))
            rest = sub(p, const_fr(k))
            if k >= 1 and is_nonneg(rest):
                return TRUE
            if k <= 0 and is_nonneg(neg(rest)):
                return FALSE
            if k == 0 and is_nonneg(rest):
                return bnot(c_eqz(p))
            if k == 1 and is_nonneg(neg(rest)):      # 1 - n > 0  <=> n == 0
                return c_eqz(neg(rest))
        if _lead(p) < 0:
            return bnot(c_gtz_raw(sub(ONE, p)))
    return c_gtz_raw(p)


def c_gtz_raw(p):
    if is_num(p):
        return TRUE if num(p) > 0 else FALSE
    if p.op == "poly":
        l = abs(_lead(p))
        if l != 1:
            p = mul(p, const_fr(1 / l))
    return atom("gtz", p)


def numericish(t):
    return kind(t) == "num" or is_int(t)


def c_eq(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        return c_isnone(b)
    if b is NONE:
        return c_isnone(a)
    if a.op == "ite":
        if len(_leaves(a)) <= 6:
            return ite(_c(a.a[0]), c_eq(a.a[1], b), c_eq(a.a[2], b))
    if b.op == "ite":
        if len(_leaves(b)) <= 6:
            return ite(_c(b.a[0]), c_eq(a, b.a[1]), c_eq(a, b.a[2]))
    if is_const(a) and is_const(b):
        return FALSE if a is not b else TRUE
    ka, kb = kind(a), kind(b)
    if ka and kb and ka != kb and {ka, kb} <= {"str", "num", "none", "seq", "map"}:
        return FALSE
    if numericish(a) or numericish(b):
        return c_eqz(sub(a, b))
    for x, y in ((a, b), (b, a)):
        if y.op == "const" and y.a[0] == "bool":
            # x == True / False on an unknown value: keep symbolic
            return atom("eq", x, y)
    if a.k > b.k:
        a, b = b, a
    return atom("eq", a, b)


def _leaves(t, out=None, lim=20):
    if out is None:
        out = []
    if t.op == "ite":
        for x in t.a[1:]:
            if len(out) > lim:
                return out
            _leaves(x, out, lim)
    else:
        out.append(t)
    return out


def _c(atom_):
    return mk("ite", atom_, TRUE, FALSE)


def c_lt(a, b):
    """a < b as a branch condition."""
    return c_gtz(sub(b, a)) if not (kind(a) == "str" or kind(b) == "str") else atom("lt", a, b)


def c_le(a, b):
    if kind(a) == "str" or kind(b) == "str":
        return atom("le", a, b)
    d = sub(b, a)
    if is_int(d):
        return c_gtz(add(d, ONE))
    return bnot(c_gtz(neg(d)))


NOTNONE = {"dead", "seq", "strcat", "poly", "map", "emptydict", "new", "len", "lam", "sum", "obj", "objw"}


def c_isnone(t):
    if t.op == "const":
        return TRUE if t is NONE else FALSE
    if t.op in NOTNONE or is_int(t) and t.op not in ("param", "attr", "getitem"):
        return FALSE
    if t.op == "ite":
        return ite(_c(t.a[0]), c_isnone(t.a[1]), c_isnone(t.a[2]))
    if t.op == "glob" or (t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].startswith("casadi.")):
        return FALSE
    if t.op == "fv" and t.a[1] == "i":
        return FALSE
    return atom("isnone", t)


def truth(t):
    """boolean (ite-of-bools) condition for the truthiness of t."""
    op = t.op
    if op == "const":
        return TRUE if t.a[1] else FALSE
    if op == "ite":
        return ite(_c(t.a[0]), truth(t.a[1]), truth(t.a[2]))
    if op == "vlt":
        return c_lt(*t.a)
    if op == "vle":
        return c_le(*t.a)
    if op == "veq":
        return c_eq(*t.a)
    if op == "vne":
        return bnot(c_eq(*t.a))
    if op == "not":
        return bnot(truth(t.a[0]))
    if op in BOOL_ATOMS:
        return _c(t)
    if op == "seq" and t.a[0] not in ("vcat", "hcat"):
        return bnot(c_eqz(length(t)))
    if op == "map":
        if any(u.op == "set" for u in t.a[1]):
            return TRUE
    if op == "emptydict":
        return FALSE
    if is_int(t) or kind(t) == "num":
        return bnot(c_eqz(t))
    if kind(t) in ("seq", "map") and op not in ("fv", "bv"):
        return bnot(c_eqz(length(t)))
    if op in ("lam", "new"):
        return TRUE
    return atom("truth", t)


def c_in(x, c):
    if c.op == "seq" and c.a[0] != "vcat" and all(s.op == "it" for s in c.a[1]):
        r = FALSE
        for s in reversed(c.a[1]):
            r = bor(c_eq(x, s.a[0]), r)
        return r
    if c.op == "emptydict":
        return FALSE
    if c.op == "keys":
        return c_in(x, c.a[0])
    if c.op in ("ddict", "map") and undd(c) is not c:
        return c_in(x, undd(c))
    if c.op == "map" and not any(u.op in ("del", "msplice") for u in c.a[1]):
        if any(u.op == "set" and u.a[0] is x for u in c.a[1]):
            return TRUE
        rest = tuple(u for u in c.a[1] if not _never_key(u, x))
        if len(rest) != len(c.a[1]):
            return c_in(x, mk("map", c.a[0], rest) if rest else c.a[0])
    if c.op == "map" and all(u.op in ("set", "msplice") or (u.op == "mwhen" and all(v.op in ("set", "msplice") for v in segs_of(u.a[1]))) for u in c.a[1]):
        r = c_in(x, c.a[0]) if c.a[0].op != "emptydict" else FALSE
        for u in c.a[1]:
            g = TRUE
            us = (u,)
            if u.op == "mwhen":
                g, us = _c(u.a[0]), segs_of(u.a[1])
            for v in us:
                r = bor(band(g, c_eq(x, v.a[0]) if v.op == "set" else c_in(x, v.a[0])), r)
        return r
    return atom("in", x, c)


# ----------------------------------------------------------------- sequences
EMPTY_ITEMS = ()


def it(t):
    return mk("it", t)


def sp(t):
    return mk("sp", t)


def segs_of(body):
    return body.a if body.op == "segs" else (body,)


def for_(n, ab):
    return mk("for", n, ab)


def when(c, segs):
    return mk("when", c, mk("segs", *segs))


def _empty_value(t):
    """a value that contributes nothing to a concatenation"""
    if t.op == "seq" and not t.a[1]:
        return True
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("casadi.MX", "casadi.DM", "casadi.SX") and not t.a[1] and not t.a[2]:
        return True
    return False


def shift_free(body):
    """open an abs with no use of its variable"""
    return body


def uses_bv0(body):
    return body.mx >= 0 and _uses(body, 0)


_USES = {}


def _uses(t, d):
    if isinstance(t, tuple):
        return any(_uses(x, d) for x in t)
    if not isinstance(t, T):
        return False
    if t.mx < d:
        return False
    key = (t, d)
    r = _USES.get(key)
    if r is not None:
        return r
    if t.op == "bv":
        r = t.a[0] == d
    elif t.op == "abs":
        r = _uses(t.a[1], d + 1)
    else:
        r = any(_uses(x, d) for x in t.a)
    _USES[key] = r
    return r


VERTCAT = mk("glob", "casadi.vertcat")      # applied to one value that need not be a matrix yet


def norm_segs(kd, segs):
    out = []
    vec = kd in ("vcat", "hcat")
    for s in segs:
        if s.op == "segs":
            out.extend(norm_segs(kd, s.a))
        elif s.op == "it":
            v = s.a[0]
            if vec:
                if _empty_value(v):
                    continue
                if v.op == "seq" and v.a[0] == kd:
                    out.extend(v.a[1])
                    continue
                if v.op == "call" and v.a[0] is VERTCAT:
                    s = it(v.a[1][0])
            out.append(s)
        elif s.op == "sp":
            v = s.a[0]
            if v.op == "seq" and (v.a[0] not in ("vcat", "hcat", "set") or v.a[0] == kd == "set"):
                if vec:
                    out.extend(norm_segs(kd, v.a[1]))
                else:
                    out.extend(v.a[1])
            elif v is EMPTYDICT:
                continue
            elif v.op == "ite" and v.fv is not None and kind(v) == "seq":
                out.append(when(_c(v.a[0]), (sp(v.a[1]),)))
                out.append(when(bnot(_c(v.a[0])), (sp(v.a[2]),)))
                out[-2:] = norm_segs(kd, out[-2:])
            else:
                out.append(s)
        elif s.op == "when":
            c = s.a[0]
            if c is TRUE:
                out.extend(norm_segs(kd, s.a[1].a))
            elif c is FALSE:
                continue
            else:
                inner = norm_segs(kd, s.a[1].a)
                if inner:
                    out.append(when(c, inner))
        elif s.op == "for":
            n, ab = s.a
            if n is ZERO:
                continue
            body = ab.a[1]
            bsegs = norm_segs(kd, segs_of(body))
            if not bsegs:
                continue
            body = mk("segs", *bsegs)
            if n is ONE:
                out.extend(norm_segs(kd, segs_of(open_abs(mk("abs", 1, body), (ZERO,)))))
                continue
            if is_num(n) and num(n).denominator == 1 and 0 < num(n) <= 6 and not uses_bv0(body):
                for i in range(int(num(n))):
                    out.extend(norm_segs(kd, segs_of(open_abs(mk("abs", 1, body), (const(i),)))))
                continue
            if len(bsegs) == 1:
                b0 = bsegs[0]
                if kd == "vcat" and b0.op == "it" and not uses_bv0(body):
                    z = unshift(b0.a[0])
                    if z.op == "call" and z.a[0].op == "glob" and z.a[0].a[0] in ("casadi.DM.zeros", "casadi.DM.ones") and len(z.a[1]) == 2 and z.a[1][1] is ONE:
                        out.append(it(mk("call", z.a[0], (mul(n, z.a[1][0]), ONE), ())))
                        continue
                if b0.op == "it" and b0.a[0].op == "getitem" and not vec:
                    g = b0.a[0]
                    if g.a[1].op == "bv" and g.a[1].a[0] == 0 and not _uses(g.a[0], 0):
                        base = unshift(g.a[0])
                        if n is length(base):
                            out.extend(norm_segs(kd, (sp(base),)))
                            continue
                if b0.op == "it" and b0.a[0].op == "getitem" and vec:
                    g = b0.a[0]
                    if g.a[1].op == "bv" and g.a[1].a[0] == 0 and not _uses(g.a[0], 0):
                        base = unshift(g.a[0])
                        if n is length(base):
                            out.append(sp(base))
                            continue
                if b0.op == "for" and not uses_bv0(mk("segs", b0)):
                    n2, ab2 = b0.a
                    if not _uses(ab2.a[1], 0):
                        m = mul(n, unshift(n2))
                        out.append(for_(m, mk("abs", 1, unshift(ab2.a[1], 1))))
                        continue
            out.append(for_(n, mk("abs", 1, body)))
        else:
            out.append(s)
    # merge complementary adjacent whens holding one item each
    i = 0
    res = []
    while i < len(out):
        s = out[i]
        if s.op == "when" and i + 1 < len(out) and out[i + 1].op == "when":
            s2 = out[i + 1]
            if s2.a[0] is bnot(s.a[0]):
                a, b = s.a[1].a, s2.a[1].a
                if len(a) == len(b) and all(x.op == y.op and x.op in ("it", "sp") for x, y in zip(a, b)) and len(a) == 1 and a[0].op == "it":
                    res.append(it(ite(s.a[0], a[0].a[0], b[0].a[0])))
                    i += 2
                    continue
        res.append(s)
        i += 1
    return tuple(res)


def unshift(t, lvl=0):
    """lower dangling bvs above lvl by one (the binder at lvl is unused)."""
    if isinstance(t, tuple):
        return tuple(unshift(x, lvl) for x in t)
    if not isinstance(t, T) or t.mx < lvl:
        return t
    if t.op == "bv":
        return mk("bv", t.a[0] - 1, *t.a[1:]) if t.a[0] > lvl else t
    if t.op == "abs":
        return mk("abs", t.a[0], unshift(t.a[1], lvl + 1))
    return rebuild(t.op, tuple(unshift(x, lvl) for x in t.a))


def seq(kd, segs):
    segs = norm_segs(kd, segs)
    if kd in ("vcat", "hcat"):
        if len(segs) == 1 and segs[0].op == "it":
            return segs[0].a[0]
        # vertical repetition of a zero block is one zero block
        if kd == "vcat" and len(segs) == 1 and segs[0].op == "for":
            n, ab = segs[0].a
            b = segs_of(ab.a[1])
            if len(b) == 1 and b[0].op == "it" and not uses_bv0(ab.a[1]):
                z = unshift(b[0].a[0])
                if z.op == "call" and z.a[0].op == "glob" and z.a[0].a[0] in ("casadi.DM.zeros", "casadi.DM.ones") and len(z.a[1]) == 2 and z.a[1][1] is ONE:
                    return mk("call", z.a[0], (mul(n, z.a[1][0]), ONE), ())
    return mk("seq", kd, segs)


def length(t):
    if t.op == "seq" and t.a[0] in ("list", "tuple"):
        n = ZERO
        for s in t.a[1]:
            n = add(n, _seglen(s))
        return n
    if t.op == "map" and kind(t.a[0]) != "map":
        # item assignment never changes the length of a list/array
        if all(u.op in ("set", "mfor", "mwhen") for u in t.a[1]):
            return length(t.a[0])
    if t.op == "keys":
        return length(t.a[0])
    if t.op in ("map", "ddict"):
        t = undd(t)
    if t.op == "emptydict":
        return ZERO
    if t.op == "map" and t.a[0] is EMPTYDICT:
        ks = keys(t)
        if ks.op == "seq":
            return length(ks)
    if is_str(t):
        return const(len(t.a[1]))
    if t.op == "ite":
        return ite(_c(t.a[0]), length(t.a[1]), length(t.a[2]))
    return mk("len", t)


def _seglen(s):
    if s.op == "it":
        return ONE
    if s.op == "sp":
        return length(s.a[0])
    if s.op == "when":
        n = ZERO
        for x in s.a[1].a:
            n = add(n, _seglen(x))
        return ite(s.a[0], n, ZERO)
    if s.op == "for":
        n, ab = s.a
        body = ab.a[1]
        m = ZERO
        for x in segs_of(body):
            m = add(m, _seglen(x))
        if not _uses(m, 0):
            return mul(n, unshift(m))
        return mk("sum", n, mk("abs", 1, m))
    return mk("len", mk("seq", "list", (s,)))


def sum_(n, ab):
    body = ab.a[1]
    if n is ZERO or body is ZERO:
        return ZERO
    if not uses_bv0(body):
        return mul(n, unshift(body))
    # linearity: split polynomial, pull out constant factors
    if body.op == "poly":
        tot = ZERO
        for c, m in body.a[0]:
            out_, in_ = [], []
            for x, e in m:
                (in_ if _uses(x, 0) else out_).append((x, e))
            fac = _unpoly({tuple((unshift(x), e) for x, e in out_): c})
            if in_:
                inner = _unpoly({tuple(in_): Fraction(1)})
                tot = add(tot, mul(fac, mk("sum", n, mk("abs", 1, inner))))
            else:
                tot = add(tot, mul(fac, n))
        return tot
    if n is ONE:
        return open_abs(ab, (ZERO,))
    return mk("sum", n, ab)


# ---------------------------------------------------------------------- maps
def mset(base, ups):
    """apply updates (set/del/mfor/mwhen) to a container value"""
    if base.op == "map":
        cur = list(base.a[1])
        root = base.a[0]
    else:
        cur = []
        root = base
    for u in ups:
        _push_update(root, cur, u)
    if not cur:
        return root
    # concrete list with constant index
    if root.op == "seq" and root.a[0] == "list":
        segs = list(root.a[1])
        while cur and cur[0].op == "set" and is_num(cur[0].a[0]):
            i = int(num(cur[0].a[0]))
            if all(s.op == "it" for s in segs) and -len(segs) <= i < len(segs):
                segs[i] = it(cur[0].a[1])
                cur.pop(0)
            else:
                break
        root = seq("list", segs)
        if cur and cur[0].op == "mfor" and len(segs) == 1 and segs[0].op == "for" and segs[0].a[0] is cur[0].a[0]:
            old, new = segs_of(segs[0].a[1].a[1]), segs_of(cur[0].a[1].a[1])
            if len(old) == 1 and old[0].op == "it" and len(new) == 1 and new[0].op == "set" and new[0].a[0].op == "bv" and new[0].a[0].a[0] == 0:
                f = fresh("i")
                v = segs_of(open_abs(cur[0].a[1], (f,)))[0].a[1]
                root = seq("list", (for_(cur[0].a[0], close(mk("segs", it(v)), (f,))),))
                cur.pop(0)
        if not cur:
            return root
    if root is EMPTYDICT and len(cur) == 1 and cur[0].op == "mfor":
        n, ab = cur[0].a
        body = segs_of(ab.a[1])
        if len(body) == 1 and body[0].op == "set" and body[0].a[0].op == "getitem" and body[0].a[0].a[0].op == "keys":
            f = fresh("i")
            k, v = segs_of(open_abs(ab, (f,)))[0].a
            d = k.a[0].a[0]
            if k.a[1] is f and f not in d.fv and v is getitem(d, k) and n is length(d):
                return d         # {k: d[k] for k in d}
    return mk("map", root, tuple(cur))


def _distinct(k1, k2):
    if is_const(k1) and is_const(k2):
        return k1 is not k2
    if is_num(sub_safe(k1, k2)):
        return num(sub_safe(k1, k2)) != 0
    return False


def sub_safe(a, b):
    if numericish(a) and numericish(b):
        return sub(a, b)
    return NONE


def _push_update(root, cur, u):
    if u.op == "mwhen":
        if u.a[0] is TRUE:
            for x in u.a[1].a:
                _push_update(root, cur, x)
            return
        if u.a[0] is FALSE or not u.a[1].a:
            return
    if u.op == "mfor":
        n, ab = u.a
        if n is ZERO or not segs_of(ab.a[1]):
            return
        if n is ONE:
            for x in segs_of(open_abs(ab, (ZERO,))):
                _push_update(root, cur, x)
            return
        # the same keys are written again: the earlier sweep is overwritten
        body = segs_of(ab.a[1])
        if len(body) == 1 and body[0].op == "set" and cur and cur[-1].op == "mfor" and cur[-1].a[0] is n:
            old = segs_of(cur[-1].a[1].a[1])
            if len(old) == 1 and old[0].op == "set" and old[0].a[0] is body[0].a[0]:
                f = fresh("i")
                if injective(segs_of(open_abs(ab, (f,)))[0].a[0], f):
                    cur.pop()
    if u.op == "set":
        k = u.a[0]
        # overwrite an earlier update of the same key when only distinct keys lie between
        j = len(cur) - 1
        while j >= 0 and cur[j].op == "set":
            if cur[j].a[0] is k:
                del cur[j]
                break
            if not _distinct(cur[j].a[0], k):
                break
            j -= 1
        # canonical order among distinct constant keys
        i = len(cur)
        while i > 0 and cur[i - 1].op == "set" and is_const(k) and is_const(cur[i - 1].a[0]) and cur[i - 1].a[0].k > k.k:
            i -= 1
        cur.insert(i, u)
        return
    if u.op == "msplice" and u.a[0].op in ("map", "emptydict") and kind(u.a[0]) == "map" and (u.a[0].op == "emptydict" or u.a[0].a[0] is EMPTYDICT):
        if u.a[0].op == "map":
            for x in u.a[0].a[1]:
                _push_update(root, cur, x)
        return
    cur.append(u)


DEAD = mk("dead")


def getitem(b, i):
    if b.op == "dead" or b.op == "seq" and not b.a[1] and i.op != "slice":
        return DEAD
    if (b is EMPTYDICT or b.op == "keys" and b.a[0] is EMPTYDICT) and not is_str(i):
        return DEAD          # an element of an empty container: no such iteration
    if b.op == "ite" and len(_leaves(b)) <= 8:
        return ite(_c(b.a[0]), getitem(b.a[1], i), getitem(b.a[2], i))
    if i.op == "ite" and len(_leaves(i)) <= 8 and b.op in ("map", "seq"):
        return ite(_c(i.a[0]), getitem(b, i.a[1]), getitem(b, i.a[2]))
    # x[len(x)-1] == x[-1]
    if b.op == "seq" and b.a[0] in ("list", "tuple"):
        r = _seq_get(b, i)
        if r is not None:
            return r
    if b.op == "map" and b.a[0].op == "ddict" and i.op == "getitem" and i.a[0].op == "keys" and i.a[0].a[0] is undd(b):
        b = undd(b)          # reading a key the dictionary has
    if b.op == "map":
        r = _map_get(b, i)
        if r is not None:
            return r
    if b.op == "bfor":
        pass
    if i.op == "poly" or is_num(i):
        d = sub(i, length(b)) if b.op not in ("map",) else None
        if d is not None and is_num(d) and num(d) < 0 and not is_num(i):
            return mk("getitem", b, d)
    if i.op == "slice" and b.op == "seq" and b.a[0] in ("list", "tuple"):
        r = _seq_slice(b, i)
        if r is not None:
            return r
    if i.op == "slice":
        lo, hi, st = i.a
        if st is NONE and b.op != "seq":
            # a bound counted from the end
            n = mk("len", b)
            lo, hi = [sub(x, n) if x.op == "poly" and is_num(sub(x, n)) and num(sub(x, n)) < 0 else x for x in (lo, hi)]
            i = mk("slice", lo, hi, st)
        if (lo is NONE or lo is ZERO) and (st is NONE or is_num(st) and num(st) > 0):
            if hi is NONE and st is NONE:
                return b
            return mk("getitem", b, mk("slice", ZERO, hi, st))
        if b.op == "getitem" and b.a[1].op == "slice" and False:
            pass
    return mk("getitem", b, i)


def _seq_get(b, i):
    segs = b.a[1]
    if is_num(i) and num(i).denominator == 1:
        n = int(num(i))
        ss = segs
        if n >= 0:
            for s in ss:
                if s.op == "it":
                    if n == 0:
                        return s.a[0]
                    n -= 1
                elif s.op == "for":
                    body = segs_of(s.a[1].a[1])
                    if len(body) == 1 and body[0].op == "it" and (len(segs) == 1 or n == 0):
                        r = open_abs(s.a[1], (const(n),))
                        return segs_of(r)[0].a[0]
                    return None
                else:
                    return None
        else:
            n = -n - 1
            for s in reversed(ss):
                if s.op == "it":
                    if n == 0:
                        return s.a[0]
                    n -= 1
                elif s.op == "for":
                    body = segs_of(s.a[1].a[1])
                    if len(body) == 1 and body[0].op == "it":
                        r = open_abs(s.a[1], (sub(s.a[0], const(n + 1)),))
                        return segs_of(r)[0].a[0]
                    return None
                else:
                    return None
        return None
    if len(segs) == 1 and segs[0].op == "for" and numericish(i):
        s = segs[0]
        body = segs_of(s.a[1].a[1])
        if len(body) == 1 and body[0].op == "it":
            return segs_of(open_abs(s.a[1], (i,)))[0].a[0]
    if len(segs) == 1 and segs[0].op == "sp" and i.op != "slice":
        return getitem(segs[0].a[0], i)
    if i.op == "bv" or i.op == "fv" or i.op == "poly":
        # index into [it*, for]: skip leading items when the index is known beyond them
        k = 0
        for s in segs:
            if s.op == "it":
                k += 1
            else:
                break
        if k and len(segs) == k + 1 and segs[k].op == "for" and numericish(i):
            d = sub(i, const(k))
            if is_nonneg(d):
                body = segs_of(segs[k].a[1].a[1])
                if len(body) == 1 and body[0].op == "it":
                    return segs_of(open_abs(segs[k].a[1], (d,)))[0].a[0]
            elif k == 1 and i.op in ("fv", "bv"):
                body = segs_of(segs[k].a[1].a[1])
                if len(body) == 1 and body[0].op == "it":
                    return ite(c_eqz(i), segs[0].a[0], segs_of(open_abs(segs[k].a[1], (d,)))[0].a[0])
        # [for, it*]: index i in the loop over the same count
    return None


def _seq_slice(b, i):
    lo, hi, st = i.a
    if st is not NONE and st is not ONE:
        return None
    segs = list(b.a[1])
    if lo is NONE:
        lo = ZERO
    if not is_num(lo):
        return None
    n = int(num(lo))
    if n < 0:
        return None
    while n > 0:
        if not segs or segs[0].op != "it":
            if segs and segs[0].op == "for":
                body = segs_of(segs[0].a[1].a[1])
                if len(body) == 1 and body[0].op == "it":
                    cnt = sub(segs[0].a[0], const(n))
                    segs[0] = for_(cnt, close_fn(lambda j: mk("segs", *segs_of(open_abs(segs0, (add(j, const(n0)),))))) ) if False else _shift_for(segs[0], n)
                    n = 0
                    break
            return None
        segs.pop(0)
        n -= 1
    if hi is not NONE:
        if not is_num(hi):
            return None
        m = int(num(hi))
        if m >= 0:
            m -= int(num(lo))
            if all(s.op == "it" for s in segs[:m]) and len(segs) >= m:
                return seq(b.a[0], segs[:max(m, 0)])
            return None
        m = -m
        while m > 0:
            if not segs or segs[-1].op != "it":
                if segs and segs[-1].op == "for":
                    body = segs_of(segs[-1].a[1].a[1])
                    if len(body) == 1 and body[0].op == "it":
                        segs[-1] = for_(sub(segs[-1].a[0], const(m)), segs[-1].a[1])
                        break
                return None
            segs.pop()
            m -= 1
    return seq(b.a[0], segs)


def _shift_for(s, n):
    f = fresh("i")
    body = open_abs(s.a[1], (add(f, const(n)),))
    return for_(sub(s.a[0], const(n)), close(body, (f,)))


def undd(t):
    """the same dictionary without the default factory (membership, keys, length)"""
    if t.op == "ddict":
        return EMPTYDICT
    if t.op == "map" and t.a[0].op == "ddict":
        return mk("map", EMPTYDICT, t.a[1])
    return t


def _never_key(u, k):
    """the update never touches key k"""
    if u.op in ("set", "del"):
        q = u.a[0]
        if _distinct(q, k):
            return True
        if is_str(k) and q.op == "strcat" and is_str(q.a[0][0]) and not k.a[1].startswith(q.a[0][0].a[1]):
            return True
        return is_str(k) and q.op == "bv"
    if u.op in ("mwhen", "mfor"):
        return all(_never_key(x, k) for x in segs_of(u.a[1].a[1] if u.op == "mfor" else u.a[1]))
    return False


def _map_get(b, k):
    root, ups = b.a
    if root is EMPTYDICT and len(ups) <= 8 and not is_const(k) and k.op not in ("strcat", "poly") and \
            not (k.op == "getitem" and k.a[0].op == "keys") and all(u.op == "set" and is_str(u.a[0]) for u in ups):
        # a literal table looked up with a computed key
        r = mk("getitem", b, k)
        for u in ups:
            r = ite(c_eq(k, u.a[0]), u.a[1], r)
        return r
    for idx in range(len(ups) - 1, -1, -1):
        u = ups[idx]
        if u.op == "set":
            if u.a[0] is k:
                return u.a[1]
            if _distinct(u.a[0], k):
                continue
            return None
        if u.op == "mfor":
            n, ab = u.a
            body = segs_of(ab.a[1])
            if len(body) == 1 and body[0].op == "set":
                kk = body[0].a[0]
                if kk.op == "bv" and kk.a[0] == 0:
                    if is_const(k) and not is_num(k):
                        continue
                    if (k.op in ("fv", "bv") or is_num(k) or k.op == "poly") and is_int(k):
                        return segs_of(open_abs(ab, (k,)))[0].a[1]
                    return None
                if kk.op == "strcat" and is_str(k):
                    p0 = kk.a[0][0]
                    if is_str(p0) and not k.a[1].startswith(p0.a[1]):
                        continue
                # solve kk(i) = k  for kk = prefix + str(i)
                f = fresh("i")
                opened = segs_of(open_abs(ab, (f,)))[0]
                sol = _match1(opened.a[0], k, f)
                if sol is not None:
                    return segs_of(open_abs(ab, (sol,)))[0].a[1]
                return None
            # several sets per iteration: all keyed differently
            if all(_never_key(x, k) for x in body):
                continue
            return None
        if u.op == "mwhen" and _never_key(u, k):
            continue
        if u.op == "msplice" and idx == 0 and root is EMPTYDICT:
            return getitem(u.a[0], k)      # dict(d)[k]
        return None
    if kind(root) == "map":
        return None
    if root.op == "emptydict":
        return None
    return getitem(root, k)


def injective(k, f):
    """different values of the index f give different keys k"""
    if k is f:
        return True
    if f not in k.fv:
        return False
    if k.op == "poly":
        return all((m == ((f, 1),)) or not any(f is b or f in b.fv for b, _ in m) for c, m in k.a[0])
    if k.op == "getitem":
        return k.a[0].op == "keys" and f not in k.a[0].fv and injective(k.a[1], f)
    if k.op == "call" and k.a[0].op == "glob" and k.a[0].a[0] in ("builtins.str", "builtins.repr") and len(k.a[1]) == 1:
        return injective(k.a[1][0], f)
    if k.op == "strcat":
        ps = [x for x in k.a[0] if f in x.fv]
        return len(ps) == 1 and ps[0] is k.a[0][-1] and injective(ps[0], f) and all(is_str(x) or x is ps[0] for x in k.a[0])
    return False


def _match1(pat, t, f):
    """solve pat[f := s] == t for one occurrence of f"""
    if pat is f:
        return t
    if pat.op != t.op or len(pat.a) != len(t.a):
        return None
    sol = None
    for x, y in zip(pat.a, t.a):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for p, q in zip(x, y):
                if p is q or p == q:
                    continue
                if not isinstance(p, T) or not isinstance(q, T):
                    return None
                s = _match1(p, q, f)
                if s is None or (sol is not None and sol is not s):
                    return None
                sol = s
        elif x is y or x == y:
            continue
        elif isinstance(x, T) and isinstance(y, T):
            s = _match1(x, y, f)
            if s is None or (sol is not None and sol is not s):
                return None
            sol = s
        else:
            return None
    return sol


# ------------------------------------------------------- generic rebuild etc.
def _r_poly(args):
    tot = ZERO
    for c, m in args[0]:
        p = const_fr(c)
        for x, e in m:
            if e > 0:
                for _ in range(e):
                    p = mul(p, x)
            else:
                for _ in range(-e):
                    p = mul(p, inv(x))
        tot = add(tot, p)
    return tot


def _r_call(args):
    return call(args[0], args[1], args[2])


def call(f, args, kw):
    return mk("call", f, args, kw)


CALL_HOOK = [None]


def _attr_of(t, nm):
    if t.op == "ite":
        return ite(_c(t.a[0]), _attr_of(t.a[1], nm), _attr_of(t.a[2], nm))
    if t.op == "objw":
        for k, v in t.a[1]:
            if k == nm:
                return v
        return _attr_of(t.a[0], nm)
    return mk("attr", t, nm)


def spread_kw(kw):
    """keyword arguments given as a dictionary with known keys are those keyword arguments"""
    for k, v in kw:
        if k == "**" and (v.op == "emptydict" or v.op == "map" and v.a[0] is EMPTYDICT and
                          all(u.op == "set" and is_str(u.a[0]) for u in v.a[1])):
            names = {x for x, _ in kw}
            new = tuple((u.a[0].a[1], u.a[1]) for u in v.a[1]) if v.op == "map" else ()
            if names & {x for x, _ in new} or sum(1 for x, _ in kw if x == "**") > 1:
                return kw
            return tuple(sorted(tuple(e for e in kw if e[0] != "**") + new))
    return kw


def rebuild(op, args):
    if op in ("call", "mcall") and args[-1] and any(k == "**" for k, _ in args[-1]):
        args = tuple(args[:-1]) + (spread_kw(args[-1]),)
    if op == "attr" and (args[0].op == "objw" or args[0].op == "ite" and len(_leaves(args[0])) <= 4 and
                         any(x.op == "objw" for x in _leaves(args[0]))):
        return _attr_of(args[0], args[1])
    if op == "poly":
        return _r_poly(args)
    if op == "seq":
        return seq(args[0], args[1])
    if op == "ite":
        return ite(truth(args[0]) if args[0].op not in ("const",) else args[0], args[1], args[2])
    if op == "eqz":
        return c_eqz(args[0])
    if op == "gtz":
        return c_gtz(args[0])
    if op == "eq":
        return c_eq(args[0], args[1])
    if op == "mcall" and args[1] in ("numel", "size1") and args[0].op == "call" and args[0].a[0] is VERTCAT and not args[2] and not args[3]:
        return mk("mcall", args[0].a[1][0], args[1], (), ())
    if op == "isnone":
        return c_isnone(args[0])
    if op == "isa" and len(args) == 2:
        return c_isa(args[0], args[1])
    if op == "truth":
        return truth(args[0])
    if op == "in":
        return c_in(args[0], args[1])
    if op == "strcat":
        return strcat(*args[0])
    if op == "getitem":
        return getitem(args[0], args[1])
    if op == "map":
        return mset(args[0], args[1])
    if op == "len":
        return length(args[0])
    if op == "sum":
        return sum_(args[0], args[1])
    if op == "pow":
        return power(args[0], args[1])
    if op == "bigmul":
        return mul(args[0], args[1])
    if op == "call":
        if CALL_HOOK[0]:
            return CALL_HOOK[0](args[0], args[1], args[2])
        return mk("call", *args)
    if op == "mu" and args[1] is ZERO:
        return args[2][args[0]]
    if op == "keys" and undd(args[0]) is not args[0]:
        args = (undd(args[0]),)
    if op == "keys" and kind(args[0]) != "map" and args[0].op not in ("ite", "ref", "fv"):
        return args[0]
    if op == "keys" and args[0].op == "map" and args[0].a[0] is EMPTYDICT and len(args[0].a[1]) == 1 and args[0].a[1][0].op == "mfor":
        n, ab = args[0].a[1][0].a
        body = segs_of(ab.a[1])
        if len(body) == 1 and body[0].op == "set":
            f = fresh("i")
            k = segs_of(open_abs(ab, (f,)))[0].a[0]
            if injective(k, f):
                return seq("list", (for_(n, close(mk("segs", it(k)), (f,))),))
    if op == "keys" and args[0].op == "ite":
        return ite(_c(args[0].a[0]), keys(args[0].a[1]), keys(args[0].a[2]))
    if op == "obj":
        return obj(args[0], args[1])
    if op == "exists":
        return exists(args[0], args[1])
    if op == "zipn":
        return zipn(args[0])
    if op == "min2":
        return min2(args)
    return mk(op, *args)


def min2(args):
    return mk("min2", *args)


def zipn(ns):
    ns = tuple(sorted(set(ns), key=lambda x: x.k))
    if len(ns) == 1:
        return ns[0]
    if all(n.op in ("poly", "len", "attr", "param", "const", "call", "mcall") for n in ns):
        # lengths that differ by a constant: the smallest
        ds = [sub(n, ns[0]) for n in ns]
        if all(is_num(d) for d in ds):
            return ns[min(range(len(ns)), key=lambda i: num(ds[i]))]
    return mk("zipn", ns)


def exists(n, ab):
    body = ab.a[1]
    if body is FALSE or n is ZERO:
        return FALSE
    if not uses_bv0(body):
        return band(bnot(c_eqz(n)), unshift(body))
    return atom("exists", n, ab)


def obj(base, effs):
    if base.op == "obj":
        effs = base.a[1] + tuple(effs)
        base = base.a[0]
    out = []
    todo = list(reversed(effs))
    while todo:
        e = todo.pop()
        if e.op == "ewhen":
            if e.a[0] is TRUE:
                todo.extend(reversed(e.a[1].a))
                continue
            if e.a[0] is FALSE or not e.a[1].a:
                continue
        if e.op == "efor":
            if e.a[0] is ZERO or not segs_of(e.a[1].a[1]):
                continue
            if e.a[0] is ONE:
                todo.extend(reversed(segs_of(open_abs(e.a[1], (ZERO,)))))
                continue
        out.append(e)
    if not out:
        return base
    return mk("obj", base, tuple(out))


def occurs(x, t, seen=None):
    """does the term x occur in t?"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(occurs(x, y, seen) for y in t)
    if not isinstance(t, T) or t in seen or not x.fv <= t.fv:
        return False
    if t is x:
        return True
    seen.add(t)
    return any(occurs(x, y, seen) for y in t.a)


def subst(t, m, memo=None):
    """replace free variables (fv/ref terms) according to dict m"""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, keys, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "abs":
        r = mk("abs", t.a[0], _subst(t.a[1], m, keys, memo))
    else:
        r = rebuild(t.op, tuple(_subst(x, m, keys, memo) for x in t.a))
    memo[t] = r
    return r


def close(body, fvs):
    """abstract the free variables -> abs node"""
    m = {f: j for j, f in enumerate(fvs)}
    return mk("abs", len(fvs), _close(body, m, frozenset(fvs), 0, {}))


def _close(t, m, keys, d, memo):
    if isinstance(t, tuple):
        return tuple(_close(x, m, keys, d, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t.fv.isdisjoint(keys):
        return t
    key = (t, d)
    r = memo.get(key)
    if r is not None:
        return r
    if t in m:
        r = mk("bv", d, m[t], t.a[1])
    elif t.op == "abs":
        r = mk("abs", t.a[0], _close(t.a[1], m, keys, d + 1, memo))
    else:
        r = rebuild(t.op, tuple(_close(x, m, keys, d, memo) for x in t.a))
    memo[key] = r
    return r


def open_abs(ab, vals):
    return _open(ab.a[1], vals, 0, {})


def _open(t, vals, d, memo):
    if isinstance(t, tuple):
        return tuple(_open(x, vals, d, memo) for x in t)
    if not isinstance(t, T) or t.mx < d:
        return t
    key = (t, d)
    r = memo.get(key)
    if r is not None:
        return r
    if t.op == "bv":
        if t.a[0] == d:
            r = vals[t.a[1]]
            if r.mx >= 0 and d > 0:
                r = shift_up(r, d)
        elif t.a[0] > d:
            r = mk("bv", t.a[0] - 1, *t.a[1:])
        else:
            r = t
    elif t.op == "abs":
        r = mk("abs", t.a[0], _open(t.a[1], vals, d + 1, memo))
    else:
        r = rebuild(t.op, tuple(_open(x, vals, d, memo) for x in t.a))
    memo[key] = r
    return r


def shift_up(t, by, lvl=0):
    if isinstance(t, tuple):
        return tuple(shift_up(x, by, lvl) for x in t)
    if not isinstance(t, T) or t.mx < lvl:
        return t
    if t.op == "bv":
        return mk("bv", t.a[0] + by, *t.a[1:]) if t.a[0] >= lvl else t
    if t.op == "abs":
        return mk("abs", t.a[0], shift_up(t.a[1], by, lvl + 1))
    return rebuild(t.op, tuple(shift_up(x, by, lvl) for x in t.a))


def subterms(t, seen=None):
    """iterate over all distinct subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


# ------------------------------------------------------------------- printing
def show(t, depth=9):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, Fraction) else str(t)
    if depth <= 0:
        return "..."
    op, a = t.op, t.a
    d = depth - 1
    if op == "const":
        return str(a[1]) if a[0] != "str" else repr(a[1])
    if op in ("param", "glob"):
        return a[0]
    if op == "attr":
        return show(a[0], d) + "." + a[1]
    if op == "fv":
        return "$%s%d" % (a[1], a[0])
    if op == "bv":
        return "#%d.%d" % (a[0], a[1])
    if op == "poly":
        out = []
        for c, m in a[0]:
            s = "*".join(show(x, d) + ("^%d" % e if e != 1 else "") for x, e in m)
            out.append(s if c == 1 and s else (str(c) + ("*" + s if s else "")))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == "seq":
        br = {"list": "[%s]", "tuple": "(%s,)", "vcat": "vertcat(%s)", "hcat": "horzcat(%s)", "set": "{%s}"}.get(a[0], a[0] + "[%s]")
        return br % ", ".join(show(x, d) for x in a[1])
    if op == "it":
        return show(a[0], depth)
    if op == "sp":
        return "*" + show(a[0], depth)
    if op == "for":
        return "FOR(%s: %s)" % (show(a[0], d), show(a[1], depth))
    if op == "abs":
        return "\\%s" % show(a[1], depth)
    if op == "segs":
        return "; ".join(show(x, depth) for x in a)
    if op == "when":
        return "WHEN(%s: %s)" % (show(a[0], d), show(a[1], depth))
    if op == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if op == "mcall":
        return "%s.%s(%s)" % (show(a[0], d), a[1], ", ".join([show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]))
    if op == "getitem":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a[:2])
    if op == "strcat":
        return "str<" + "+".join(show(x, d) for x in a[0]) + ">"
    return "%s{%s}" % (op, ", ".join(show(x, d) for x in a))


def keys(t):
    t = undd(t)
    return rebuild("keys", (t,))
