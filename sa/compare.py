"""Equality of value graphs modulo gated-join structure, and diagnosis of differences."""
import time
from . import terms as tm
from .terms import T, mk, TRUE, FALSE, ZERO, ONE, NONE, subst, open_abs, fresh, truth, rebuild, show


class Undecided(Exception):
    pass


class Diff(object):
    def __init__(self, a, b, path, assign):
        self.a, self.b, self.path, self.assign = a, b, path, assign

    def __repr__(self):
        return "Diff(%s: spec=%s | code=%s | under %s)" % ("/".join(self.path), show(self.a), show(self.b),
                                                         [("" if v else "not ") + show(x) for x, v in self.assign])


_HAS = {}


def contains(t, x):
    key = (t, x)
    r = _HAS.get(key)
    if r is not None:
        return r
    if t is x:
        r = True
    else:
        r = False
        stack = [t.a]
        while stack and not r:
            y = stack.pop()
            if isinstance(y, tuple):
                stack.extend(y)
            elif isinstance(y, T):
                if contains(y, x):
                    r = True
    _HAS[key] = r
    return r


def replace(t, x, v, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(replace(y, x, v, memo) for y in t)
    if not isinstance(t, T):
        return t
    if t is x:
        return v
    if not contains(t, x):
        return t
    r = memo.get(t)
    if r is None:
        r = rebuild(t.op, tuple(replace(y, x, v, memo) for y in t.a))
        memo[t] = r
    return r


_ATOMS = {}
DEADLINE = [float("inf")]       # CPU time at which the comparison under way gives up


def atoms(t):
    """closed branch conditions occurring in t (topmost first)"""
    r = _ATOMS.get(t)
    if r is not None:
        return r
    out = []
    seen = set()
    queue = [t]
    i = 0
    while i < len(queue):
        y = queue[i]
        i += 1
        if isinstance(y, tuple):
            queue.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op == "ite" and y.a[0].mx < 0 and y.a[0] not in out:
            out.append(y.a[0])
        queue.extend(y.a)
    _ATOMS[t] = out
    return out


def implied(a, v):
    """other atoms fixed by assigning a := v is computed lazily against a candidate"""
    def f(b):
        if b is a:
            return v
        if a.op == "isnone":
            x = a.a[0]
            if v:
                if b.op in ("truth", "isa") and b.a[0] is x:
                    return False
                if b.op == "eq" and (b.a[0] is x or b.a[1] is x) and (tm.is_const(b.a[0]) or tm.is_const(b.a[1])):
                    return False
                if b.op == "eqz" and b.a[0].op == "poly" and any(m == ((x, 1),) for c, m in b.a[0].a[0]) and len(b.a[0].a[0]) == 2:
                    return False
                if b.op == "eqz" and b.a[0] is x:
                    return False
        if a.op == "truth" and v:
            if b.op == "isnone" and b.a[0] is a.a[0]:
                return False
        if a.op == "isa" and v and b.op == "isnone" and b.a[0] is a.a[0]:
            return False
        if a.op == "isa" and v and b.op == "isa" and b.a[0] is a.a[0]:
            if a.a[1] != b.a[1] and exclusive(a.a[1], b.a[1]):
                return False
        if a.op == "eq" and v:
            for x, k in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if tm.is_const(k):
                    if b.op == "isnone" and b.a[0] is x:
                        return False
                    if b.op == "eq" and x in b.a:
                        o = b.a[1] if b.a[0] is x else b.a[0]
                        if tm.is_const(o) and o is not k:
                            return False
        if a.op == "eqz" and v:
            if b.op == "eqz":
                d = tm.sub(a.a[0], b.a[0])
                if tm.is_num(d) and tm.num(d) != 0:
                    return False
                if b.a[0] is not a.a[0] and tm.is_int(a.a[0]):
                    r = eval_under_zero(b.a[0], a.a[0])
                    if r is not None:
                        return r == 0
            if b.op == "gtz":
                r = eval_under_zero(b.a[0], a.a[0])
                if r is not None:
                    return r > 0
            if b.op == "isnone" and b.a[0] is a.a[0]:
                return False
        if a.op == "gtz":
            if b.op == "gtz":
                d = tm.sub(b.a[0], a.a[0])
                s = tm.add(b.a[0], a.a[0])
                if v and tm.is_num(d) and tm.num(d) >= 0:
                    return True
                if not v and tm.is_num(d) and tm.num(d) <= 0:
                    return False
                if v and tm.is_num(s) and tm.num(s) <= 0:
                    return False
            if b.op == "eqz":
                for sg in (1, -1):
                    d = tm.sub(b.a[0] if sg == 1 else tm.neg(b.a[0]), a.a[0])
                    if tm.is_num(d):
                        # a.p > 0 ; b.p = a.p + d
                        if v and tm.num(d) >= 0:
                            return False
                        if not v and tm.num(d) < 0:
                            return False
                        if not v and tm.num(d) > 0 and tm.is_int(a.a[0]) and False:
                            return None
        return None
    return f


def _linear(p):
    """p as sign * X + k with X free of a constant term (integer terms only)"""
    if not tm.is_int(p) or tm.is_num(p):
        return None
    d = {m: c for c, m in p.a[0]} if p.op == "poly" else {((p, 1),): 1}
    k = d.get((), 0)
    x = tm.sub(p, tm.const_fr(k)) if k else p
    l = tm._lead(x)
    if l < 0:
        return tm.neg(x), -1, k
    return x, 1, k


def feasible(assign, pick):
    """integer bounds: can the (in)equalities over one quantity hold together?"""
    r = _linear(pick.a[0])
    if r is None:
        return True
    X = r[0]
    lo = 0 if tm.is_nonneg(X) else None
    hi = None
    holes = set()
    for y, w in assign:
        if y.op not in ("eqz", "gtz"):
            continue
        q = _linear(y.a[0])
        if q is None or q[0] is not X:
            continue
        _, s, k = q
        if k.denominator != 1 if hasattr(k, "denominator") else False:
            return True
        k = int(k)
        if y.op == "eqz":
            v = -k * s          # s*X + k == 0
            if w:
                lo = v if lo is None else max(lo, v)
                hi = v if hi is None else min(hi, v)
            else:
                holes.add(v)
        else:                   # s*X + k > 0   /   <= 0
            up = (s < 0) == w   # gives an upper bound
            if s > 0:
                b = -k + 1 if w else -k
            else:
                b = k - 1 if w else k
            if up:
                hi = b if hi is None else min(hi, b)
            else:
                lo = b if lo is None else max(lo, b)
    if lo is not None and hi is not None:
        if hi - lo > 50:
            return True
        return any(v not in holes for v in range(lo, hi + 1))
    return True


def eval_under_zero(p, q):
    """value of p when q == 0, if constant.  q = x + k  =>  x = -k"""
    d = tm.sub(p, q)
    if tm.is_num(d):
        return tm.num(d)
    d = tm.add(p, q)
    if tm.is_num(d):
        return tm.num(d)
    return None


def exclusive(a, b):
    basic = {"builtins.list", "builtins.dict", "builtins.str", "builtins.tuple", "builtins.int", "builtins.float", "builtins.set"}
    return a in basic and b in basic


class Comparer(object):
    def __init__(self, budget=6000):
        self.budget = budget
        self.memo = {}
        self.leaves = 0
        self.skips = 0
        self.root = None        # the reference's whole term
        self.refatoms = []      # branch conditions the reference itself evaluates on this path

    def not_none(self, pick, a):
        """the reference computes with the value without ever asking whether it is None"""
        x = pick.a[0]
        if strict_use(a, x):
            return True
        if contains(self.root, pick):
            return False
        return any(strict_use(y, x) for y in self.refatoms)

    def tick(self):
        self.budget -= 1
        if self.budget < 0 or time.process_time() > DEADLINE[0]:
            raise Undecided("comparison budget exceeded")

    def eq(self, a, b, path=(), assign=()):
        """None when equal, else Diff"""
        if a is b:
            return None
        key = (a, b)
        if key in self.memo:
            return self.memo[key]
        self.tick()
        if self.root is None:
            self.root = a
        skips = self.skips
        r = self._eq(a, b, path, assign)
        if r is not None or skips == self.skips:
            # an equality that used earlier branch decisions holds under those only
            self.memo[key] = r
        return r

    def _eq(self, a, b, path, assign):
        # value-level comparisons vs boolean joins
        boolish = ("veq", "vne", "vlt", "vle")
        if (a.op in boolish) != (b.op in boolish):
            ta = a if a.op not in boolish else truth(a)
            tb = b if b.op not in boolish else truth(b)
            if _is_boolite(ta) and _is_boolite(tb):
                return self.eq(ta, tb, path, assign)
        if (a.op == "seq" and b.op == "seq") and {a.a[0], b.a[0]} == {"list", "tuple"} and path and path[-1] != "ret":
            b = mk("seq", a.a[0], b.a[1])
            if a is b:
                return None
        aa = atoms(a)
        ab = atoms(b)
        if aa or ab:
            pick = None
            for x in aa:
                if x in ab:
                    pick = x
                    break
            if pick is None:
                pick = aa[0] if aa else ab[0]
            vals = (True, False)
            if pick.op == "isnone" and pick not in aa and self.not_none(pick, a):
                vals = (False,)
                self.skips += 1
            mark = len(self.refatoms)
            if pick in aa:
                self.refatoms.append(pick)
            for v in vals:
                if len(assign) > 24:
                    raise Undecided("too many branch conditions")
                c = TRUE if v else FALSE
                a2, b2 = replace(a, pick, c), replace(b, pick, c)
                imp = implied(pick, v)
                ok = True
                for other in list(atoms(a2)) + [y for y in atoms(b2) if y not in atoms(a2)]:
                    w = imp(other)
                    if w is not None:
                        a2 = replace(a2, other, TRUE if w else FALSE)
                        b2 = replace(b2, other, TRUE if w else FALSE)
                # facts about earlier assignments may make this branch infeasible
                for (y, w) in assign:
                    z = implied(y, w)(pick)
                    if z is not None and z != v:
                        ok = False
                if ok and pick.op in ("eqz", "gtz") and not feasible(assign + ((pick, v),), pick):
                    ok = False
                if not ok:
                    self.skips += 1
                    continue
                d = self.eq(a2, b2, path, assign + ((pick, v),))
                if d is not None:
                    break
            else:
                d = None
            del self.refatoms[mark:]
            return d
        self.leaves += 1
        return self.struct(a, b, path, assign)

    def struct(self, a, b, path, assign):
        ia, ib = _updates(a), _updates(b)
        if ia is not None and ib is not None and not (len(ia) == len(ib) == 1 and ia[0] is a and ib[0] is b):
            if len(ia) != len(ib) and ia and ib and ia[0].op in ("ef", "efor", "ewhen"):
                a, b = tm.obj(mk("nil"), tuple(ia)), tm.obj(mk("nil"), tuple(ib))
            return self.seqs(tuple(ia), tuple(ib), a, b, path, assign)
        if a.op != b.op:
            return Diff(a, b, path, assign)
        if a.op == "abs":
            if a.a[0] != b.a[0]:
                return Diff(a, b, path, assign)
            tags = _tags(a) or _tags(b)
            fvs = tuple(fresh(tags.get(j, "i")) for j in range(a.a[0]))
            return self.eq(open_abs(a, fvs), open_abs(b, fvs), path, assign)
        if a.op == "poly":
            return self.polys(a, b, path, assign)
        if a.op in ("seq", "map", "obj") and len(a.a) == 2:
            d = None
            if a.op == "seq":
                if a.a[0] != b.a[0]:
                    return Diff(a, b, path, assign)
                if a.a[0] == "set":
                    return self.multiset(a.a[1], b.a[1], a, b, path, assign)
                return self.seqs(a.a[1], b.a[1], a, b, path + (a.op,), assign)
            d = self.eq(a.a[0], b.a[0], path + (a.op + ".base",), assign)
            if d is not None:
                return d
            return self.seqs(a.a[1], b.a[1], a, b, path + (a.op,), assign)
        if a.op == "segs":
            return self.seqs(_live_segs(a.a), _live_segs(b.a), a, b, path, assign)
        if a.op == "zipn":
            return None if self.zip_ok(a, b, path, assign) else Diff(a, b, path, assign)
        if len(a.a) != len(b.a):
            return Diff(a, b, path, assign)
        if a.op == "getitem" and a.a[0] is b.a[0] and tm.is_num(a.a[1]) and tm.is_num(b.a[1]):
            k = abs(tm.num(a.a[1]) - tm.num(b.a[1]))       # x[0] == x[-1] when len(x) == 1
            if (tm.num(a.a[1]) < 0) != (tm.num(b.a[1]) < 0):
                rest = tm.sub(tm.length(a.a[0]), tm.const_fr(k))
                if any(y.op == "eqz" and w and eval_under_zero(rest, y.a[0]) == 0 for y, w in assign):
                    return None
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            d = self.arg(x, y, a, b, path + ("%s%d" % (a.op, i),), assign)
            if d is not None:
                return d
        return None

    def arg(self, x, y, a, b, path, assign):
        if x is y:
            return None
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return Diff(a, b, path, assign)
            for p, q in zip(x, y):
                d = self.arg(p, q, a, b, path, assign)
                if d is not None:
                    return d
            return None
        if isinstance(x, T) and isinstance(y, T):
            if x.op == "zipn" or y.op == "zipn":
                if self.zip_ok(x, y, path, assign):
                    return None
            return self.eq(x, y, path, assign)
        if x == y:
            return None
        return Diff(a, b, path, assign)

    def zip_ok(self, x, y, path, assign):
        """sequences iterated together are taken to have one length; a constant offset is a difference"""
        xs = list(x.a[0]) if x.op == "zipn" else [x]
        ys = list(y.a[0]) if y.op == "zipn" else [y]
        same = False
        for p in list(xs):
            for q in list(ys):
                if p is q or self.eq(p, q, path, assign) is None:
                    same = True
                    if p in xs:
                        xs.remove(p)
                    ys.remove(q)
                    break
        for p in xs:
            for q in ys:
                d = tm.sub_safe(p, q)
                if tm.is_num(d) and tm.num(d) != 0:
                    return False
        return same

    def seqs(self, xs, ys, a, b, path, assign):
        xs, ys = _commute(xs), _commute(ys)
        if len(xs) == len(ys):
            first = None
            bad = 0
            for x, y in zip(xs, ys):
                d = self.eq(x, y, path, assign)
                if d is not None:
                    bad += 1
                    first = first or d
            if first is None:
                return None
            if bad == 1:
                return first
            return Diff(a, b, path, assign) if bad > 1 and not _same_shape(xs, ys) else first
        # updates of a container commute when their keys are distinct
        return Diff(a, b, path, assign)

    def multiset(self, xs, ys, a, b, path, assign):
        rest = list(ys)
        for x in xs:
            for y in rest:
                if self.eq(x, y, path, assign) is None:
                    rest.remove(y)
                    break
            else:
                return Diff(a, b, path, assign)
        if rest:
            return Diff(a, b, path, assign)
        return None

    def polys(self, a, b, path, assign):
        da = {m: c for c, m in a.a[0]}
        db = {m: c for c, m in b.a[0]}
        ra = [(m, c) for m, c in da.items() if db.get(m) != c]
        rb = [(m, c) for m, c in db.items() if da.get(m) != c]
        if len(ra) != len(rb):
            return Diff(a, b, path, assign)
        first = None
        for m, c in ra:
            ok = False
            for q in rb:
                m2, c2 = q
                if c2 != c or len(m2) != len(m):
                    continue
                dd = None
                # match factors greedily
                rest = list(m2)
                good = True
                for x, e in m:
                    hit = None
                    for y in rest:
                        if y[1] == e and self.eq(x, y[0], path, assign) is None:
                            hit = y
                            break
                    if hit is None:
                        good = False
                        break
                    rest.remove(hit)
                if good:
                    rb.remove(q)
                    ok = True
                    break
            if not ok:
                first = first or m
        if not rb and first is None:
            return None
        # one differing factor: descend
        if len(ra) == 1 and len(rb) == 1:
            (m, c), (m2, c2) = ra[0], rb[0]
            if c == c2 and len(m) == len(m2) == 1 and m[0][1] == m2[0][1]:
                return self.eq(m[0][0], m2[0][0], path + ("poly",), assign)
        return Diff(a, b, path, assign)


_UPD = {"ef": "e", "efor": "e", "ewhen": "e", "set": "m", "del": "m", "mfor": "m", "mwhen": "m", "msplice": "m"}


def _updates(t):
    """the live updates of a loop body / guarded block, None when t is something else"""
    xs = t.a if t.op == "segs" else (t,)
    fam = {_UPD.get(x.op) for x in xs if isinstance(x, T)}
    if len(fam) != 1 or None in fam:
        return None
    if fam == {"m"}:
        cur = []
        for x in xs:
            tm._push_update(None, cur, x)
        return cur
    o = tm.obj(mk("nil"), tuple(xs))
    return list(o.a[1]) if o.op == "obj" else []


_STRICT = {}


def strict_use(t, x):
    """is x indexed, dereferenced or computed with somewhere in t?"""
    key = (t, x)
    r = _STRICT.get(key)
    if r is not None:
        return r
    r = False
    seen = set()
    stack = [t]
    while stack and not r:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, T) or y in seen or not contains(y, x):
            continue
        seen.add(y)
        if y.op in ("getitem", "attr", "mcall", "len", "map", "obj") and y.a[0] is x:
            r = True
        elif y.op == "poly" and any(f is x for c, m in y.a[0] for f, e in m):
            r = True
        stack.extend(y.a)
    _STRICT[key] = r
    return r


def _live_segs(xs):
    if any(x.op == "when" and (x.a[0] is TRUE or x.a[0] is FALSE) for x in xs):
        return tm.norm_segs("list", xs)
    return xs


_GUARDED = ("when", "ewhen", "mwhen")


def _commute(xs):
    """neighbours under mutually exclusive conditions, in a canonical order"""
    if sum(1 for x in xs if isinstance(x, T) and x.op in _GUARDED) < 2:
        return xs
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(i, 0, -1):
            p, q = xs[j - 1], xs[j]
            if p.op in _GUARDED and q.op == p.op and q.k < p.k and tm.band(p.a[0], q.a[0]) is FALSE:
                xs[j - 1], xs[j] = q, p
            else:
                break
    return tuple(xs)


def _same_shape(xs, ys):
    return all(x.op == y.op for x, y in zip(xs, ys))


def _is_boolite(t):
    if t is TRUE or t is FALSE:
        return True
    return t.op == "ite" and all(x is TRUE or x is FALSE for x in tm._leaves(t, lim=64))


def _tags(ab):
    out = {}
    stack = [(ab.a[1], 0)]
    seen = set()
    while stack:
        t, d = stack.pop()
        if isinstance(t, tuple):
            stack.extend((x, d) for x in t)
            continue
        if not isinstance(t, T) or t.mx < d or (t, d) in seen:
            continue
        seen.add((t, d))
        if t.op == "bv":
            if t.a[0] == d and len(t.a) > 2:
                out[t.a[1]] = t.a[2]
        elif t.op == "abs":
            stack.append((t.a[1], d + 1))
        else:
            stack.extend((x, d) for x in t.a)
    return out
