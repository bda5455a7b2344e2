"""Random interpretation of value graphs.

A value graph that differs from its reference in normal form is only reported
when the two also differ as *functions*: both graphs are interpreted in finite
random models (entry values, attributes and library results are points of a
prime field identified by what they were computed from; containers, integers,
strings and conditions have their ordinary meaning; the size of every unknown
collection, the kind of every unknown value and the outcome of every unknown
condition are chosen by the model).  A model in which the graphs disagree is
the witness of the report.  Global value numbering by random interpretation
(Gulwani and Necula); no repository code is executed.
"""
import time
import zlib
from fractions import Fraction
from . import terms as tm
from .terms import T

P = (1 << 61) - 1
MAXITER = 64


class Abort(Exception):
    """this model is outside what is interpreted"""

class Slow(Abort):
    """this model takes too long"""



_SH = {}


def sh(s):
    v = _SH.get(s)
    if v is None:
        b = s.encode()
        v = _SH[s] = zlib.crc32(b) * 2654435761 + zlib.adler32(b) + len(b) * 7919
    return v


def h(*xs):
    # (hash(-1) == hash(-2): keep negative numbers apart)
    return hash(tuple(sh(x) if isinstance(x, str) else x if x.__class__ is not int or x >= 0 else (1 << 40) - x for x in xs)) % P


class O(object):
    """an unknown value"""
    __slots__ = ("fp",)

    def __init__(self, fp):
        self.fp = fp


class Slice(object):
    """a piece of an unknown sequence"""
    __slots__ = ("fp", "base", "lo", "hi")


class Seq(object):
    __slots__ = ("kind", "items", "_fp")

    def __init__(self, kind, items):
        self.kind, self.items, self._fp = kind, tuple(items), None

    @property
    def fp(self):
        if self._fp is None:
            xs = [fp(x) for x in self.items]
            if self.kind == "set":
                xs = sorted(set(xs))
            self._fp = h("seq", self.kind, *xs)
        return self._fp


class Map(object):
    """a container with known item assignments on top of a base (None: an empty dictionary)"""
    __slots__ = ("base", "d", "dead", "order", "_fp", "factory")

    def __init__(self, base):
        self.base, self.d, self.dead, self._fp, self.factory = base, {}, set(), None, None

    def copy(self):
        m = Map(self.base)
        m.d, m.dead, m.factory = dict(self.d), set(self.dead), self.factory
        return m

    @property
    def fp(self):
        if self._fp is None:
            it = sorted((k, fp(v[1])) for k, v in self.d.items())
            self._fp = h("map", fp(self.base) if self.base is not None else 0, self.factory or 0,
                         *([x for p in it for x in p] + [-1] + sorted(self.dead)))
        return self._fp


class Obj(object):
    __slots__ = ("base", "ops", "_fp")

    def __init__(self, base, ops):
        self.base, self.ops, self._fp = base, tuple(ops), None

    @property
    def fp(self):
        if self._fp is None:
            acc = fp(self.base)
            run = {}

            def flush(acc):
                return h("w", acc, *[x for k in sorted(run) for x in (sh(k), run[k])]) if run else acc
            for o in self.ops:
                if o[0] == "w":
                    run[o[1]] = fp(o[2])
                else:
                    acc = h("e", flush(acc), o[1])
                    run = {}
            self._fp = flush(acc)
        return self._fp


class Fn(object):
    __slots__ = ("fp",)


def fp(v):
    if v is None:
        return 11
    if v is True:
        return 13
    if v is False:
        return 17
    if isinstance(v, str):
        return h("str", v)
    if isinstance(v, Fraction):
        return h("num", v.numerator, v.denominator)
    return v.fp


def is_concrete(v):
    return v is None or isinstance(v, (bool, str, Fraction))


NONEK, NUMK = "none", "num"
BUILTIN = {"builtins.list": "list", "builtins.tuple": "tuple", "builtins.dict": "dict", "builtins.str": "str", "builtins.int": "int",
           "builtins.float": "float", "builtins.set": "set", "builtins.bool": "bool"}


# sizes and counts a model picks (different models favour different sizes)
PROFILES = ((0, 1, 1, 2, 2, 2, 3, 3, 1, 2, 4, 3, 2, 1, 0, 2), (0, 1, 1, 2, 2, 2, 3, 3, 1, 2, 4, 3, 2, 1, 0, 2),
            (0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2), (1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 0, 0, 3))


class Model(object):
    def __init__(self, seed):
        self.seed = seed
        self.big = ()          # lengths beyond the small ones
        self.ident = {}        # fp of an unknown -> concrete value it turned out to be
        self.kinds = {}        # fp of an unknown -> kind
        self.forced = {}       # (query, fp) -> value
        self.notnone = set()
        self.sizes = {}        # fp of an unknown -> number of elements
        self.dicts = set()     # unknowns used as dictionaries
        self.origin = {}       # fp of an unknown -> (container, position) it was read from
        self.asked = set()
        self.truths = {}
        self.dirty = False
        self.poke = ()
        self.deadline = time.process_time() + 1.5
        self.limit = self.deadline + 8.5
        self.steps = 0
        self.reset()

    def reset(self):
        self.memo = {}
        self.traj = {}
        self.loops = {}
        self.dirty = False

    # ------------------------------------------------------------- decisions
    def rnd(self, n, *key):
        return h("rnd", self.seed, *key) % n

    def unknown(self, f):
        f %= P
        if f in self.ident:
            return self.ident[f]
        return O(f)

    def become(self, o, v):
        if o.fp not in self.ident:
            self.ident[o.fp] = v
            self.dirty = True

    def flag(self, q, f, num=1, den=2):
        k = (q, f)
        if k in self.forced:
            return self.forced[k]
        return self.rnd(den, q, f) < num

    def small(self, q, f):
        """a non-negative integer the model is free to choose"""
        k = (q, f)
        if k in self.forced:
            return Fraction(self.forced[k])
        r = self.rnd(16, q, f)
        if self.big and r % 2:
            return Fraction(self.big[self.rnd(len(self.big), "big", q, f)] + self.rnd(3, "more", q, f))
        return Fraction(PROFILES[self.seed % 4][r])

    def kind_of(self, o, hint=None):
        k = self.kinds.get(o.fp)
        if k is None:
            if hint is not None and self.rnd(2, "kind", o.fp) == 0:
                k = hint
            elif hint is not None:
                k = "other"
            else:
                return None
            self.kinds[o.fp] = k
            if k in ("int", "float"):
                self.number(o)
        return k

    def number(self, o):
        """an unknown used as a number in a comparison, or as a count"""
        if isinstance(o, (Seq, Map, Obj)):
            return Fraction(self.rnd(7, "numof", fp(o)) - 2)
        v = Fraction((0, 1, 2, 3, 2, 1, -1, 4)[self.rnd(8, "num", o.fp)])
        if ("num", o.fp) in self.forced:
            v = self.forced[("num", o.fp)]
        if isinstance(o, O):
            self.become(o, v)
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env=()):
        if t.mx < 0:
            k = t
        else:
            d = t.mx + 1
            if d > len(env):
                raise Abort("dangling variable")
            k = (t, tuple(id(f) for f in env[-d:]))
        r = self.memo.get(k, self)
        if r is not self:
            return r[0]
        self.steps += 1
        if not self.steps & 1023 and time.process_time() > self.limit:
            raise Slow("interpretation takes too long")
        f = getattr(self, "t_" + t.op, None)
        v = f(t, env) if f is not None else self.generic(t, env)
        if t in self.poke:
            v = poked(v)
        self.memo[k] = (v, env)
        return v

    def arg(self, x, env):
        """fingerprint of a constructor argument"""
        if isinstance(x, T):
            if x.op == "abs":
                return self.absfp(x, env)
            return fp(self.ev(x, env))
        if isinstance(x, tuple):
            return h("t", *[self.arg(y, env) for y in x])
        if x is None:
            return 5
        if isinstance(x, (int, str)):
            return h("c", x)
        return h("r", repr(x))

    def absfp(self, ab, env):
        fr = tuple(O(h("bound", len(env), i)) for i in range(ab.a[0] + 1))
        b = ab.a[1]
        return h("abs", ab.a[0], *([self.arg(s, env + (fr,)) for s in tm.segs_of(b)]))

    def generic(self, t, env):
        return self.unknown(h("op", t.op, *[self.arg(x, env) for x in t.a]))

    def t_const(self, t, env):
        k, v = t.a
        if k == "num":
            return Fraction(v)
        if k in ("bool", "NoneType", "str"):
            return v
        return O(h("const", k, repr(v)))

    def t_param(self, t, env):
        f = h("param", str(t.a[0]))
        if t.a[0] in tm.INT_ATTRS:
            return self.unknown(f) if f % P in self.ident else self.small("int", f)
        return self.unknown(f)

    def t_glob(self, t, env):
        return O(h("glob", t.a[0]))

    def t_fv(self, t, env):
        return self.unknown(h("fv", str(t.a[1])))

    def t_bv(self, t, env):
        fr = env[-1 - t.a[0]]
        return fr[t.a[1]]

    def t_undef(self, t, env):
        return O(h("undef"))

    t_dead = t_undef

    # booleans
    def cond(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        return self.truth(v)

    def t_ite(self, t, env):
        return self.ev(t.a[1] if self.cond(t.a[0], env) else t.a[2], env)

    def truth(self, v):
        if v is None or isinstance(v, (bool, str)):
            return bool(v)
        if isinstance(v, Fraction):
            return v != 0
        if isinstance(v, Seq):
            if v.kind in ("vcat", "hcat"):
                return self.flag("truth", v.fp)
            return len(v.items) > 0
        if isinstance(v, Map):
            return self.length(v) > 0
        if isinstance(v, Obj) or isinstance(v, Fn):
            return True if isinstance(v, Fn) else self.flag("truth", v.fp)
        k = self.kinds.get(v.fp)
        if ("truth", v.fp) not in self.forced and (k in ("list", "dict", "tuple", "set") or ("len", v.fp) in self.asked):
            return self.length(v) > 0
        r = self.flag("truth", v.fp)
        self.truths[v.fp] = r
        return r

    def t_truth(self, t, env):
        return self.truth(self.ev(t.a[0], env))

    def t_isnone(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, Fraction) and t.a[0].op == "param":
            f = h("param", str(t.a[0].a[0])) % P
            if f not in self.kinds and f not in self.notnone and self.flag("none", f, 1, 3):
                self.become(O(f), None)
                return True
        if not isinstance(v, O):
            return v is None
        if v.fp in self.kinds or v.fp in self.notnone:
            return False
        if self.flag("none", v.fp, 1, 3):
            self.become(v, None)
            return True
        self.notnone.add(v.fp)
        return False

    def t_isa(self, t, env):
        v = self.ev(t.a[0], env)
        n = t.a[1] if isinstance(t.a[1], str) else fp(self.ev(t.a[1], env))
        if n == "builtins.object":
            return True
        if v is None:
            return False
        if isinstance(n, str):
            if n.endswith("abc.Sequence"):
                if isinstance(v, Seq):
                    return v.kind in ("list", "tuple")
                if isinstance(v, str):
                    return True
                if isinstance(v, O):
                    k = self.kinds.get(v.fp)
                    if k is None:
                        k = self.kind_of(v, "list")
                    return k in ("list", "tuple", "str")
                return False
            b = BUILTIN.get(n)
            if isinstance(v, bool):
                return b in ("bool", "int")
            if isinstance(v, str):
                return b == "str"
            if isinstance(v, Fraction):
                return b == ("int" if v.denominator == 1 else "float") if b else False
            if isinstance(v, Seq):
                return b == v.kind
            if isinstance(v, Map):
                if b:
                    return b == "dict" if v.base is None or self.kinds.get(fp(v.base)) == "dict" else self.isa_o(v, n, b)
            if b and isinstance(v, O):
                return self.isa_o(v, n, b)
            if b and isinstance(v, Obj):
                return False
        if isinstance(v, O):
            k = self.kinds.get(v.fp)
            if k is not None and k != "other":
                return False
            r = self.flag("isa:%s" % n, v.fp)
            if r:
                self.kinds[v.fp] = "other"
            return r
        return self.flag("isa:%s" % n, fp(v))

    def isa_o(self, v, n, b):
        if not isinstance(v, O):
            return self.flag("isa:%s" % n, fp(v))
        k = self.kind_of(v, b)
        return k == b

    def num_terms(self, p, env):
        """turn the unknown atoms of a polynomial into numbers"""
        ats = [x for c, m in p.a[0] for x, e in m] if p.op == "poly" else [p]
        for x in ats:
            v = self.ev(x, env)
            if isinstance(v, O):
                self.number(v)

    def numeric(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, Fraction):
            return v
        self.num_terms(t, env)
        if self.dirty:
            # decided on the next pass; any value will do here
            return self.number_of(v)
        return self.number_of(v)

    def number_of(self, v):
        if v is None or isinstance(v, str):
            return Fraction(0)
        f = fp(v)
        g = min(f, P - f)
        r = Fraction((0, 1, -1, 2)[self.rnd(4, "numof", g)])
        return r if g == f else -r

    def t_eqz(self, t, env):
        return self.numeric(t.a[0], env) == 0

    def t_gtz(self, t, env):
        return self.numeric(t.a[0], env) > 0

    def equal(self, a, b):
        if is_concrete(a) and is_concrete(b):
            return a == b and isinstance(a, bool) == isinstance(b, bool) or (isinstance(a, (bool, Fraction)) and isinstance(b, (bool, Fraction)) and a == b)
        if fp(a) == fp(b):
            return True
        if isinstance(a, O) and isinstance(b, (str, Fraction)) or isinstance(b, O) and isinstance(a, (str, Fraction)):
            o, c = (a, b) if isinstance(a, O) else (b, a)
            k = self.kinds.get(o.fp)
            if k not in (None, "other", "str", "int", "float"):
                return False
            if isinstance(c, str) and k in ("int", "float") or isinstance(c, Fraction) and k == "str":
                return False
            q = "is:%x" % fp(c)
            if self.flag(q, o.fp, 2, 5):
                self.become(o, c)
                return True
            return False
        if isinstance(a, O) and isinstance(b, O):
            x, y = self.origin.get(a.fp), self.origin.get(b.fp)
            if x and y and x[0] == y[0] and x[1] != y[1] and x[0] in self.dicts:
                return False
            x, y = sorted((a.fp, b.fp))
            r = self.flag("eq", h(x, y), 1, 3)
            if r:
                self.become(O(y), self.unknown(x))
            return r
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind and a.kind not in ("vcat", "hcat"):
            return len(a.items) == len(b.items) and all(self.equal(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (Seq, Map)) and is_concrete(b) or isinstance(b, (Seq, Map)) and is_concrete(a):
            if not any(isinstance(x, Seq) and x.kind in ("vcat", "hcat") for x in (a, b)):
                return False
        x, y = sorted((fp(a), fp(b)))
        return self.flag("eq", h(x, y))

    def t_eq(self, t, env):
        return self.equal(self.ev(t.a[0], env), self.ev(t.a[1], env))

    t_veq = t_eq

    def t_vne(self, t, env):
        return not self.t_eq(t, env)

    def t_is(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        return self.equal(a, b)

    def t_exc(self, t, env):
        return self.flag("exc", self.exc_key(t, env))

    def exc_key(self, t, env):
        return h(str(t.a[0]), *([str(t.a[1])] if isinstance(t.a[1], str) else [fp(self.ev(x, env)) for x in t.a[1]]))

    def t_in(self, t, env):
        return self.member(self.ev(t.a[0], env), self.ev(t.a[1], env))

    def member(self, x, c):
        if isinstance(c, Map):
            k = fp(x)
            if k in c.d:
                return True
            if k in c.dead:
                return False
            if any(self.equal(x, kv[0]) for kv in c.d.values()):
                return True
            return self.member(x, c.base) if c.base is not None else False
        if isinstance(c, Seq):
            return any(self.equal(x, y) for y in c.items)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, O):
            return any(self.equal(x, self.item(c, Fraction(i))) for i in range(int(self.length(c))))
        return self.flag("in", h(fp(x), fp(c)))

    def t_exists(self, t, env):
        n = self.count(t.a[0], env)
        b = t.a[1].a[1]
        return any(self.cond(b, env + ((Fraction(i),),)) for i in range(n))

    def t_first(self, t, env):
        n = self.count(t.a[0], env)
        b = t.a[1].a[1]
        for i in range(n):
            if self.cond(b, env + ((Fraction(i),),)):
                return Fraction(i)
        return Fraction(n)

    def t_wcount(self, t, env):
        b = t.a[0].a[1]
        for i in range(MAXITER):
            if not self.cond(b, env + ((Fraction(i),),)):
                return Fraction(i)
        raise Abort("unbounded loop")

    def t_rangen(self, t, env):
        lo, hi, st = [self.numeric(x, env) for x in t.a]
        if st == 0:
            return Fraction(0)
        n = (hi - lo) / st
        return Fraction(max(0, -((-n.numerator) // n.denominator)))

    def t_lt(self, t, env):
        return self.less(self.ev(t.a[0], env), self.ev(t.a[1], env))

    def t_le(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        return fp(a) == fp(b) or self.less(a, b)

    def less(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction) or isinstance(a, str) and isinstance(b, str):
            return a < b
        for v in (a, b):
            if isinstance(v, O):
                self.number(v)
        x, y = fp(a), fp(b)
        return (self.rnd(2, "lt", h(min(x, y), max(x, y))) == 0) == (x < y) and x != y

    # numbers
    def count(self, t, env):
        n = self.numeric(t, env)
        n = int(n) if n.denominator == 1 else int(n // 1)
        if n > MAXITER:
            raise Abort("long loop")
        if t.op != "const":
            self.loops[t] = max(n, self.loops.get(t, 0))
        return max(n, 0)

    def field(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Fraction):
            return v.numerator * pow(v.denominator, P - 2, P) % P
        return fp(v) % P

    def t_poly(self, t, env):
        tot, exact = Fraction(0), True
        ftot = 0
        for c, m in t.a[0]:
            r, fr = Fraction(c), None
            for x, e in m:
                v = self.ev(x, env)
                if isinstance(v, bool):
                    v = Fraction(int(v))
                if exact and isinstance(v, Fraction) and not (v == 0 and e < 0):
                    r *= v ** e
                else:
                    exact = False
                f = self.field(v)
                if e < 0 and f == 0:
                    f = h("inf")
                fr = (1 if fr is None else fr) * pow(f, e if e > 0 else -e * (P - 2), P) % P
            tot += r
            ftot = (ftot + self.field(Fraction(c)) * (1 if fr is None else fr)) % P
        if exact:
            return tot
        return self.from_field(ftot)

    def from_field(self, f):
        f %= P
        if f < 64:
            return Fraction(f)
        if f > P - 64:
            return Fraction(f - P)
        return self.unknown(f)

    def t_bigmul(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        return self.from_field(self.field(a) * self.field(b))

    def t_pow(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(b, Fraction) and b.denominator == 1 and 0 <= b <= 12:
            if isinstance(a, Fraction):
                return a ** int(b)
            return self.from_field(pow(self.field(a), int(b), P))
        return self.unknown(h("pow", fp(a), fp(b)))

    def t_floordiv(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(a, Fraction) and isinstance(b, Fraction) and b != 0:
            return Fraction(a // b)
        return self.unknown(h("floordiv", fp(a), fp(b)))

    def t_bin(self, t, env):
        a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
        if t.a[0] == "Mod" and isinstance(a, Fraction) and isinstance(b, Fraction) and b != 0:
            return a % b
        return self.unknown(h("bin", t.a[0], fp(a), fp(b)))

    def t_sum(self, t, env):
        n = self.count(t.a[0], env)
        b = t.a[1].a[1]
        tot, ftot, exact = Fraction(0), 0, True
        for i in range(n):
            v = self.ev(b, env + ((Fraction(i),),))
            if isinstance(v, bool):
                v = Fraction(int(v))
            if isinstance(v, Fraction):
                tot += v
            else:
                exact = False
            ftot = (ftot + self.field(v)) % P
        return tot if exact else self.from_field(ftot)

    def t_zipn(self, t, env):
        return Fraction(min(self.count(x, env) for x in t.a[0]))

    def t_min2(self, t, env):
        return min(self.numeric(x, env) for x in t.a)

    def t_len(self, t, env):
        return self.length(self.ev(t.a[0], env))

    def length(self, v):
        if isinstance(v, Seq):
            if v.kind == "set":
                return Fraction(len({fp(x) for x in v.items}))
            if v.kind in ("vcat", "hcat"):
                return self.small("len", v.fp)
            return Fraction(len(v.items))
        if isinstance(v, str):
            return Fraction(len(v))
        if v is None or isinstance(v, (Fraction, bool)):
            return Fraction(0)
        if isinstance(v, Map):
            if v.base is None:
                return Fraction(len(v.d))
            n = self.length(v.base)
            if isinstance(v.base, Seq) or self.kinds.get(fp(v.base)) == "list" or any(isinstance(k, Fraction) for k, _ in v.d.values()):
                return n - len(v.dead)
            return n + sum(1 for k, _ in v.d.values() if not self.member(k, v.base)) - len(v.dead)
        if isinstance(v, Slice):
            return v.hi - v.lo
        f = fp(v)
        self.asked.add(("len", f))
        n = self.small("len", f)
        if f in self.truths and bool(n) != self.truths[f]:
            n = Fraction(1) if self.truths[f] else Fraction(0)
        return n

    def t_slice(self, t, env):
        return Seq("slice", [self.ev(x, env) for x in t.a])

    # sequences
    def segs(self, segs, env, out, vec):
        for s in segs:
            op = s.op
            if op == "segs":
                self.segs(s.a, env, out, vec)
            elif op == "it":
                self.put(self.ev(s.a[0], env), out, vec)
            elif op == "sp":
                for x in self.items(self.ev(s.a[0], env)):
                    self.put(x, out, vec)
            elif op == "when":
                if self.cond(s.a[0], env):
                    self.segs(tm.segs_of(s.a[1]), env, out, vec)
            elif op == "for":
                n = self.count(s.a[0], env)
                for i in range(n):
                    self.segs(tm.segs_of(s.a[1].a[1]), env + ((Fraction(i),),), out, vec)
                    if len(out) > 4000:
                        raise Abort("long sequence")
            else:
                out.append(O(h("seg", self.arg(s, env))))
        return out

    def put(self, v, out, vec):
        if vec:
            if isinstance(v, Seq) and v.kind == vec:
                out.extend(v.items)
                return
            if isinstance(v, Seq) and not v.items:
                return
            if isinstance(v, O) and v.fp in EMPTIES:
                return
        out.append(v)

    def items(self, v):
        if isinstance(v, Seq):
            if v.kind in ("vcat", "hcat"):
                return [self.item(v, Fraction(i)) for i in range(int(self.length(v)))]
            if v.kind == "set":
                return sorted({fp(x): x for x in v.items}.values(), key=fp)
            return v.items
        if isinstance(v, Map):
            return self.keys(v)
        if isinstance(v, str):
            return list(v)
        if v is None or isinstance(v, (bool, Fraction)):
            return []
        n = int(self.length(v))
        return [self.item(v, Fraction(i)) for i in range(n)]

    def t_seq(self, t, env):
        kd = t.a[0]
        vec = kd if kd in ("vcat", "hcat") else None
        out = self.segs(t.a[1], env, [], vec)
        if vec and len(out) == 1:
            return out[0]
        return Seq(kd, out)

    def keys(self, v):
        if isinstance(v, Map):
            if v.base is None:
                return [k for k, _ in v.d.values()]
            base = self.items(v.base)
            if isinstance(v.base, Seq) or self.kinds.get(fp(v.base)) == "list":
                return [self.item(v, Fraction(i)) for i in range(len(base))]
            ks = [k for k in base if fp(k) not in v.dead]
            seen = {fp(k) for k in ks}
            return ks + [k for f, (k, _) in v.d.items() if f not in seen]
        return self.items(v)

    def t_keys(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, O):
            self.dict_like(v)
            return v
        return Seq("list", self.keys(v))

    def dict_like(self, v):
        while isinstance(v, Map) and v.base is not None:
            v = v.base
        if isinstance(v, O) and v.fp not in self.dicts:
            self.dicts.add(v.fp)
            self.dirty = True

    def t_values(self, t, env):
        v = self.ev(t.a[0], env)
        self.dict_like(v)
        return Seq("list", [self.item(v, k) for k in self.keys(v)])

    def t_items(self, t, env):
        v = self.ev(t.a[0], env)
        self.dict_like(v)
        return Seq("list", [Seq("tuple", (k, self.item(v, k))) for k in self.keys(v)])

    def t_getitem(self, t, env):
        return self.item(self.ev(t.a[0], env), self.ev(t.a[1], env))

    def item(self, b, i):
        if isinstance(b, Map):
            f = fp(i)
            if f in b.d:
                return b.d[f][1]
            for k, v in b.d.values():
                if self.same_key(k, i):
                    return v
            if b.base is not None:
                return self.item(b.base, i)
            if b.factory is not None:
                return self.unknown(h("default", b.factory))
            # position in the iteration order
            if isinstance(i, Fraction) and i.denominator == 1 and 0 <= i < len(b.d) and not any(isinstance(k, Fraction) for k, _ in b.d.values()):
                return list(b.d.values())[int(i)][0]
            return O(h("nokey", b.fp, f))
        if isinstance(b, Seq) and b.kind not in ("vcat", "hcat", "set"):
            if isinstance(i, Fraction) and i.denominator == 1:
                n = len(b.items)
                if -n <= i < n:
                    return b.items[int(i)]
                return O(h("outside", b.fp, fp(i)))
            if isinstance(i, Seq) and i.kind == "slice":
                xs = [None if x is None else x for x in i.items]
                if all(x is None or isinstance(x, Fraction) and x.denominator == 1 for x in xs):
                    try:
                        return Seq(b.kind, b.items[slice(*[None if x is None else int(x) for x in xs])])
                    except ValueError:
                        return O(h("badslice"))
        if isinstance(b, Seq) and b.kind == "set" and isinstance(i, Fraction):
            xs = self.items(b)
            if 0 <= i < len(xs):
                return xs[int(i)]
        if isinstance(b, Slice) and isinstance(i, Fraction) and i >= 0:
            return self.item(b.base, b.lo + i)
        if isinstance(b, str) and isinstance(i, Fraction) and i.denominator == 1 and -len(b) <= i < len(b):
            return b[int(i)]
        if isinstance(b, O) and isinstance(i, Fraction) and i < 0 and i.denominator == 1:
            n = self.length(b)
            if n + i >= 0:
                i = n + i
        if isinstance(i, Seq) and i.kind == "slice" and not isinstance(b, Seq):
            lo, hi, st = i.items
            if lo in (None, Fraction(0)) and hi is None and st is None:
                return b
            if lo is None:
                lo = Fraction(0)
            i = Seq("slice", (lo, hi, st))
        if isinstance(i, Seq) and i.kind == "list" and all(isinstance(x, Fraction) for x in i.items) and not isinstance(b, (Map, Seq)):
            pass
        q = h("item", fp(b), fp(i)) % P
        if isinstance(b, O) and isinstance(i, Fraction):
            self.origin[q] = (b.fp, i)
        return self.unknown(q)

    # dictionaries
    def same_key(self, a, b):
        """keys that may coincide (numbers index positions or elements and only equal themselves)"""
        if isinstance(a, O) and isinstance(b, (O, str)) or isinstance(b, O) and isinstance(a, str):
            return self.equal(a, b)
        return False

    def t_emptydict(self, t, env):
        return Map(None)

    def t_ddict(self, t, env):
        m = Map(None)
        m.factory = h("factory", *[self.arg(x, env) for x in t.a])
        return m

    def t_map(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, Map):
            m = b.copy()
        else:
            m = Map(b)
        self.updates(m, t.a[1], env)
        if isinstance(m.base, Seq) and m.base.kind == "list" and all(
                isinstance(k, Fraction) and k.denominator == 1 and -len(m.base.items) <= k < len(m.base.items) for k, _ in m.d.values()):
            xs = list(m.base.items)
            for k, v in m.d.values():
                xs[int(k)] = v
            if m.dead:
                return m
            return Seq("list", xs)
        if m.base is not None:
            for f, (k, v) in list(m.d.items()):
                if fp(self.item(m.base, k)) == fp(v):
                    del m.d[f]
            if not m.d and not m.dead:
                return m.base
        m._fp = None
        return m

    def updates(self, m, ups, env):
        for u in ups:
            op = u.op
            if op == "segs":
                self.updates(m, u.a, env)
            elif op == "set":
                k = self.ev(u.a[0], env)
                v = self.ev(u.a[1], env)
                if isinstance(k, Fraction) and k < 0 and isinstance(m.base, O):
                    n = self.length(m.base)
                    if n + k >= 0:
                        k = n + k
                self.put_key(m, k, v)
            elif op == "del":
                k = self.ev(u.a[0], env)
                f = fp(k)
                if isinstance(m.base, Seq) and m.base.kind == "list" and isinstance(k, Fraction) and not m.d:
                    xs = list(m.base.items)
                    if -len(xs) <= k < len(xs):
                        del xs[int(k)]
                        m.base = Seq("list", xs)
                        continue
                m.d.pop(f, None)
                if m.base is not None:
                    m.dead.add(f)
            elif op == "mwhen":
                if self.cond(u.a[0], env):
                    self.updates(m, tm.segs_of(u.a[1]), env)
            elif op == "mfor":
                for i in range(self.count(u.a[0], env)):
                    self.updates(m, tm.segs_of(u.a[1].a[1]), env + ((Fraction(i),),))
            elif op == "msplice":
                v = self.ev(u.a[0], env)
                if isinstance(v, Seq):
                    for p in v.items:
                        if isinstance(p, Seq) and len(p.items) == 2:
                            self.put_key(m, p.items[0], p.items[1])
                    continue
                if m.base is None and not m.d and not m.factory and isinstance(v, (O, Map)):
                    if isinstance(v, Map):
                        w = v.copy()
                        m.base, m.d, m.dead = w.base, w.d, w.dead
                    else:
                        m.base = v
                    continue
                for k in self.keys(v):
                    self.put_key(m, k, self.item(v, k))
            else:
                m.d[h("up", self.arg(u, env))] = (O(h("up")), O(h("up")))
        m._fp = None

    def put_key(self, m, k, v):
        f = fp(k)
        if f not in m.d:
            for g, (q, _) in m.d.items():
                if self.same_key(q, k):
                    f, k = g, q
                    break
        m.d[f] = (k, v)
        m.dead.discard(f)

    # objects
    def t_attr(self, t, env):
        return self.attr(self.ev(t.a[0], env), t.a[1])

    def attr(self, b, nm):
        if isinstance(b, Obj):
            for j in range(len(b.ops) - 1, -1, -1):
                o = b.ops[j]
                if o[0] == "w":
                    if o[1] == nm:
                        return o[2]
                else:
                    return self.plain_attr(fp(Obj(b.base, b.ops[:j + 1])), nm)
            return self.attr(b.base, nm)
        return self.plain_attr(fp(b), nm)

    def plain_attr(self, f, nm):
        q = h("attr", f, nm)
        if nm in tm.INT_ATTRS:
            return self.small("int", q)
        return self.unknown(q)

    def t_getattr(self, t, env):
        b = self.ev(t.a[0], env)
        n = self.ev(t.a[1], env) if isinstance(t.a[1], T) else t.a[1]
        if isinstance(n, str) and len(t.a) == 2:
            return self.attr(b, n)
        return self.unknown(h("getattr", fp(b), fp(n), *[self.arg(x, env) for x in t.a[2:]]))

    def t_objw(self, t, env):
        b = self.ev(t.a[0], env)
        ops = [("w", k, self.ev(v, env)) for k, v in t.a[1]]
        base, pre = (b.base, b.ops) if isinstance(b, Obj) else (b, ())
        ops = list(pre) + [o for o in ops if fp(self.attr(b, o[1])) != fp(o[2])]
        return Obj(base, ops) if ops else b

    def effects(self, segs, env, out):
        for e in segs:
            if e.op == "segs":
                self.effects(e.a, env, out)
            elif e.op == "ewhen":
                if self.cond(e.a[0], env):
                    self.effects(tm.segs_of(e.a[1]), env, out)
            elif e.op == "efor":
                for i in range(self.count(e.a[0], env)):
                    self.effects(tm.segs_of(e.a[1].a[1]), env + ((Fraction(i),),), out)
            else:
                out.append(("e", h("ef", *[self.arg(x, env) for x in e.a])))
        return out

    def t_obj(self, t, env):
        b = self.ev(t.a[0], env)
        ops = self.effects(t.a[1], env, [])
        if not ops:
            return b
        base, pre = (b.base, b.ops) if isinstance(b, Obj) else (b, ())
        return Obj(base, tuple(pre) + tuple(ops))

    # loops
    def t_mu(self, t, env):
        j, n, inits, ab = t.a
        n = self.count(n, env)
        d = ab.mx + 1
        key = (ab, inits, tuple(id(f) for f in env))
        tr = self.traj.get(key)
        if tr is None:
            tr = self.traj[key] = ([[self.ev(x, env) for x in inits]], env)
        tr = tr[0]
        bodies = tm.segs_of(ab.a[1])
        while len(tr) <= n:
            i = len(tr) - 1
            fr = (Fraction(i),) + tuple(tr[-1])
            tr.append([self.ev(b, env + (fr,)) for b in bodies])
        return tr[n][j]

    # strings
    def t_strcat(self, t, env):
        parts = []
        for x in t.a[0]:
            self.strpart(x, env, parts)
        return self.joined(parts)

    def joined(self, parts):
        out = []
        for v in parts:
            if isinstance(v, Fraction) and v.denominator == 1:
                v = str(int(v))
            if isinstance(v, str) and out and isinstance(out[-1], str):
                out[-1] += v
            elif v != "":
                out.append(v)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return self.unknown(h("strcat", *[fp(x) for x in out]))

    def strpart(self, x, env, parts):
        if x.op == "strfor":
            for i in range(self.count(x.a[0], env)):
                for s in tm.segs_of(x.a[1].a[1]):
                    self.strpart(s, env + ((Fraction(i),),), parts)
            return
        if x.op == "strcat":
            for y in x.a[0]:
                self.strpart(y, env, parts)
            return
        if x.op == "it":
            x = x.a[0]
        if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] == "builtins.str" and len(x.a[1]) == 1:
            parts.append(self.tostr(self.ev(x.a[1][0], env)))
            return
        parts.append(self.tostr(self.ev(x, env)))

    def tostr(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction) and v.denominator == 1:
            return str(int(v))
        if isinstance(v, (bool, type(None))):
            return str(v)
        return self.unknown(h("tostr", fp(v)))

    def t_join(self, t, env):
        s = self.ev(t.a[0], env)
        xs = self.items(self.ev(t.a[1], env))
        parts = []
        for i, x in enumerate(xs):
            if i:
                parts.append(s)
            parts.append(self.tostr(x))
        return self.joined(parts)

    # calls
    def t_mcall(self, t, env):
        b = self.ev(t.a[0], env)
        nm = t.a[1]
        rest = [self.arg(x, env) for x in t.a[2:]]
        if nm == "numel" and isinstance(b, Seq) and b.kind in ("vcat", "hcat"):
            return sum((self.numel(x) for x in b.items), Fraction(0))
        if nm == "numel":
            return self.numel(b)
        if nm == "index" and isinstance(b, Seq) and b.kind in ("list", "tuple") and len(t.a) > 2 and len(t.a[2]) == 1:
            x = self.ev(t.a[2][0], env)
            for i, y in enumerate(b.items):
                if self.equal(x, y):
                    return Fraction(i)
            raise Abort()
        q = h("mcall", fp(b), nm, *rest)
        if nm in tm.INT_METHODS:
            return self.small("int", q)
        return self.unknown(q)

    def numel(self, b):
        if isinstance(b, Seq) and b.kind in ("vcat", "hcat"):
            return sum((self.numel(x) for x in b.items), Fraction(0))
        if isinstance(b, Fraction):
            return Fraction(1)
        if isinstance(b, O) and b.fp in UNITS:
            return Fraction(1)
        if isinstance(b, O) and b.fp in self.sizes:
            return self.sizes[b.fp]
        return self.small("int", h("mcall", fp(b), "numel"))

    def t_call(self, t, env):
        f = t.a[0]
        args, kw = t.a[1], t.a[2] if len(t.a) > 2 else ()
        q = f.a[0] if f.op == "glob" else None
        if q is not None:
            m = CALLS.get(q)
            if m is not None and not kw and not any(isinstance(x, T) and x.op in ("sp", "for", "when") for x in args):
                v = m(self, [self.ev(x, env) for x in args])
                if v is not NotImplemented:
                    return v
            base = h("glob", q)
        else:
            base = fp(self.ev(f, env))
        pos = []
        for x in args:
            if isinstance(x, T) and x.op in ("sp", "for", "when", "segs", "it"):
                pos.extend(fp(y) for y in self.segs((x,), env, [], None))
            else:
                pos.append(self.arg(x, env))
        kws = []
        for k in kw:
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str):
                kws.append((sh(k[0]), self.arg(k[1], env)))
            else:
                kws.append((3, self.arg(k, env)))
        kws.sort()
        r = self.unknown(h("call", base, *(pos + [-7] + [x for k in kws for x in k])))
        if q is not None and isinstance(r, O) and not kw and r.fp not in self.sizes:
            sz = SIZES.get(q)
            if sz is not None and not any(isinstance(x, T) and x.op in ("sp", "for", "when") for x in args):
                n = sz(self, [self.ev(x, env) for x in args])
                if n is not None:
                    self.sizes[r.fp] = n
        return r

    def t_new(self, t, env):
        return O(h("new", t.a[0], self.arg(t.a[1], env)))


def _block(token):
    def f(m, args):
        n = args[0] if args else Fraction(1)
        k = args[1] if len(args) > 1 else Fraction(1)
        if not isinstance(n, Fraction) or k != 1 or len(args) > 2 or n > 40 or n < 0:
            return NotImplemented
        u = O(h("unit", token))
        return u if n == 1 else Seq("vcat", [u] * int(n))
    return f


def _list(m, args):
    if not args:
        return Seq("list", ())
    v = args[0]
    if len(args) == 1:
        return Seq("list", m.items(v))
    return NotImplemented


def _tuple(m, args):
    if len(args) == 1:
        return Seq("tuple", m.items(args[0]))
    return NotImplemented


def _set(m, args):
    if len(args) == 1:
        return Seq("set", m.items(args[0]))
    return NotImplemented


def _range(m, args):
    if all(isinstance(a, Fraction) and a.denominator == 1 for a in args) and 1 <= len(args) <= 3:
        try:
            r = range(*[int(a) for a in args])
        except ValueError:
            return NotImplemented
        if len(r) > MAXITER:
            raise Abort("long range")
        return Seq("list", [Fraction(i) for i in r])
    return NotImplemented


def _ext(fn):
    def f(m, args):
        xs = args
        if len(args) == 1 and isinstance(args[0], Seq) and args[0].kind in ("list", "tuple", "set"):
            xs = args[0].items
        if xs and all(isinstance(x, Fraction) for x in xs):
            return fn(xs)
        return NotImplemented
    return f


def _sorted(m, args):
    if len(args) == 1:
        xs = m.items(args[0])
        if all(isinstance(x, Fraction) for x in xs) or all(isinstance(x, str) for x in xs):
            return Seq("list", sorted(xs))
        if isinstance(args[0], (Seq, Map)):
            return Seq("list", sorted(xs, key=fp))
    return NotImplemented


def _bool(m, args):
    return m.truth(args[0]) if len(args) == 1 else NotImplemented


def _str(m, args):
    return m.tostr(args[0]) if len(args) == 1 else NotImplemented


def _sized(m, args):
    n = args[1] if len(args) == 2 else Fraction(1) if len(args) == 1 else None
    return n if isinstance(n, Fraction) and n.denominator == 1 and n >= 0 else None


def _filled(m, args):
    n = args[0] if len(args) == 1 else None
    return n if isinstance(n, Fraction) and n.denominator == 1 and n >= 0 else None


def _repeated(m, args):
    if len(args) == 2 and isinstance(args[1], Fraction) and args[1].denominator == 1 and args[1] >= 0:
        return m.numel(args[0]) * args[1]


def _same_size(m, args):
    return m.numel(args[0]) if args else None



SIZES = {"casadi.repmat": _repeated}
for _t in ("SX", "MX", "DM"):
    SIZES["casadi.%s.sym" % _t] = _sized
    for _n in ("zeros", "ones", "inf"):
        SIZES["casadi.%s.%s" % (_t, _n)] = _filled
for _n in ("substitute", "vec", "densify"):
    SIZES["casadi.%s" % _n] = _same_size


def _islice(m, args):
    if len(args) in (2, 3) and all(x is None or isinstance(x, Fraction) for x in args[1:]):
        xs = m.items(args[0])
        return Seq("list", list(xs)[slice(*[None if x is None else max(0, int(x)) for x in args[1:]])])
    return NotImplemented


def _chain(m, args):
    out = []
    for a in args:
        out.extend(m.items(a))
    return Seq("list", out)


def _zip(m, args):
    xs = [m.items(a) for a in args]
    return Seq("list", [Seq("tuple", p) for p in zip(*xs)]) if xs else NotImplemented


def _enum(m, args):
    if len(args) > 1 and not isinstance(args[1], Fraction):
        return NotImplemented
    k = args[1] if len(args) > 1 else Fraction(0)
    return Seq("list", [Seq("tuple", (k + i, x)) for i, x in enumerate(m.items(args[0]))])


CALLS = {"builtins.list": _list, "builtins.tuple": _tuple, "builtins.set": _set, "builtins.range": _range, "builtins.max": _ext(max),
         "builtins.min": _ext(min), "builtins.sorted": _sorted, "builtins.bool": _bool, "builtins.str": _str,
         "builtins.zip": _zip, "builtins.enumerate": _enum, "itertools.islice": _islice, "itertools.chain": _chain}
for _c in ("DM", "SX", "MX"):
    for _k in ("zeros", "ones"):
        CALLS["casadi.%s.%s" % (_c, _k)] = _block(_c + _k)
CALLS["casadi.vertcat"] = lambda m, xs: Seq("vcat", list(xs)) if len(xs) == 1 and not (isinstance(xs[0], Seq) and xs[0].kind == "list") else NotImplemented
UNITS = {h("unit", c + k) for c in ("DM", "SX", "MX") for k in ("zeros", "ones")}
EMPTIES = {h("call", h("glob", "casadi." + c), -7) for c in ("DM", "SX", "MX")}


# --------------------------------------------------------------- comparison
def prime(m, assign, env=()):
    """steer a model towards the branch outcomes under which the normal forms differ"""
    for a, want in sorted(assign, key=lambda x: not (x[0].op == "isnone" and x[1])):
        if a.fv or a.mx >= len(env):
            continue
        try:
            if a.op == "ite":
                force(m, a, want, env, (), 2)
            elif a.op == "isnone":
                v = m.ev(a.a[0], env)
                if isinstance(v, Fraction) and a.a[0].op == "param":
                    v = O(h("param", str(a.a[0].a[0])) % P)
                if isinstance(v, O):
                    if want:
                        m.forced["none", v.fp] = True
                        m.notnone.discard(v.fp)
                        m.kinds.pop(v.fp, None)
                        m.ident[v.fp] = None
                        m.memo, m.traj = {}, {}
                    else:
                        m.forced["none", v.fp] = False
            elif a.op == "isa" and isinstance(a.a[1], str):
                v = m.ev(a.a[0], env)
                b = BUILTIN.get(a.a[1]) or ("list" if a.a[1].endswith("abc.Sequence") else None)
                if isinstance(v, O) and (want or not m.forced.get(("none", v.fp))):
                    if want:
                        m.forced["none", v.fp] = False
                    if b:
                        if want:
                            m.kinds[v.fp] = b
                        else:
                            m.kinds.setdefault(v.fp, "other")
                    else:
                        m.forced["isa:%s" % a.a[1], v.fp] = want
                        if want:
                            m.kinds[v.fp] = "other"
            elif a.op == "truth":
                v = m.ev(a.a[0], env)
                if isinstance(v, O):
                    m.forced["truth", v.fp] = want
                    m.truths[v.fp] = want
            elif a.op == "in":
                x, c = m.ev(a.a[0], env), m.ev(a.a[1], env)
                if isinstance(c, O):
                    n = int(m.length(c))
                    if want and n == 0:
                        m.forced["len", c.fp] = n = 1
                    pick = m.rnd(n, "pick", fp(x), c.fp) if want else -1
                    for i in range(n):
                        y = m.item(c, Fraction(i))
                        if isinstance(y, O):
                            q = ("is:%x" % fp(x), y.fp) if isinstance(x, (str, Fraction)) else ("eq", h(*sorted((fp(x), y.fp))))
                            if i == pick or not want:
                                m.forced[q] = want
            elif a.op == "eq":
                x, y = m.ev(a.a[0], env), m.ev(a.a[1], env)
                for o, c in ((x, y), (y, x)):
                    if isinstance(o, O) and isinstance(c, (str, Fraction)):
                        m.forced["is:%x" % fp(c), o.fp] = want
                if isinstance(x, O) and isinstance(y, O):
                    m.forced["eq", h(*sorted((x.fp, y.fp)))] = want
            elif a.op == "exc":
                m.forced["exc", m.exc_key(a, env)] = want
            elif a.op in ("eqz", "gtz"):
                _solve(m, a, want, env)
            elif a.op == "exists" and not want and a.a[0].op == "len":
                v = m.ev(a.a[0].a[0], env)
                if isinstance(v, O):
                    m.forced["len", v.fp] = 0
        except Abort:
            pass


def _query(m, t, env=()):
    """the free choice behind an integer atom"""
    if t.op == "mcall" and t.a[1] == "numel":
        v = m.ev(t.a[0], env)
        if isinstance(v, O) and v.fp in m.sizes:
            return None
        if isinstance(v, O):
            return "int", h("mcall", fp(v), "numel")
    if t.op == "mcall" and t.a[1] in tm.INT_METHODS and t.a[1] != "numel":
        return "int", h("mcall", fp(m.ev(t.a[0], env)), t.a[1], *[m.arg(x, env) for x in t.a[2:]])
    if t.op == "len":
        v = m.ev(t.a[0], env)
        if isinstance(v, O):
            return "len", v.fp
    if t.op == "attr" and t.a[1] in tm.INT_ATTRS:
        v = m.ev(t.a[0], env)
        if not isinstance(v, Obj):
            return "int", h("attr", fp(v), t.a[1])
    if t.op == "param" and t.a[0] in tm.INT_ATTRS:
        return "int", h("param", str(t.a[0]))
    if t.op in ("param", "attr", "getitem", "mcall", "call"):
        v = m.ev(t, env)
        if isinstance(v, O):
            return "num", v.fp
    return None


def _solve(m, a, want, env=()):
    p = a.a[0]
    if p.op == "poly":
        ats = [(c, mm[0][0]) for c, mm in p.a[0] if len(mm) == 1 and mm[0][1] == 1]
    else:
        ats = [(Fraction(1), p)]
    for _ in range(8):
        m.reset()
        v = m.numeric(p, env)
        if m.dirty:
            m.reset()
            v = m.numeric(p, env)
        ok = (v == 0) == want if a.op == "eqz" else (v > 0) == want
        if ok or not ats:
            return
        target = Fraction(0) if (a.op == "eqz") == want else Fraction(1 + m.rnd(2, "t", p.k.hex()))
        i = m.rnd(len(ats), "pick", p.k.hex(), _)
        c, x = ats[i]
        q = _query(m, x, env)
        if q is None or q in m.forced and _ < 4:
            continue
        cur = m.ev(x, env)
        if not isinstance(cur, Fraction):
            cur = Fraction(0)
        new = cur + (target - v) / c
        if q[0] != "num" and new < 0:
            new = Fraction(0)
        if q[0] == "num" or new.denominator == 1 and 0 <= new <= 8:
            m.forced[q] = new if q[0] == "num" else int(new)
            if q[0] == "num":
                m.ident.pop(q[1], None)
        m.reset()


def outcome(m, s):
    """what a summarised call does in model m"""
    raised = set()
    left = set()
    for g, ty, eff in s.raises:
        if m.cond(g, ()):
            raised.add(ty.a[1] if len(ty.a) > 1 and isinstance(ty.a[1], str) else m.arg(ty, ()))
            for b, nm in eff:
                left.add(h("loc", fp(m.ev(b)), nm or ""))
    if raised:
        return ("raise", frozenset(raised), frozenset(left)), {}
    heap = {}
    for (b, nm), v in s.effects.items():
        bv = m.ev(b)
        init = m.attr(bv, nm) if nm else bv
        val = m.ev(v)
        if fp(val) != fp(init):
            heap[h("loc", fp(bv), nm or "")] = fp(val)
    ret = None if s.ret.op == "noreturn" else m.ev(s.ret)
    return ("return", fp(ret)), heap


def _path(m, g, env=()):
    """branch conditions (with their outcomes) that decide a guard"""
    out = []
    while g.op == "ite":
        v = m.cond(g.a[0], env)
        if g.a[0].op != "ite":
            out.append((g.a[0], v))
        g = g.a[1] if v else g.a[2]
    return out


def force(m, g, want, env, keep, depth=0):
    """steer the free choices of the model so that a condition gets the wanted outcome"""
    for k in range(10):
        if m.cond(g, env) == want:
            return True
        if time.process_time() > m.deadline:
            return False
        p = [(x, v) for x, v in _path(m, g, env) if x not in keep and not x.fv]
        p.sort(key=lambda xv: m.rnd(1 << 30, "force", k, depth, xv[0].k.hex()))
        for x, v in p:
            if x.op == "exists":
                b = x.a[1].a[1]
                for i in range(min(m.count(x.a[0], env), 8)):
                    if depth < 3 and m.cond(b, env + ((Fraction(i),),)) == v:
                        force(m, b, not v, env + ((Fraction(i),),), keep, depth + 1)
                    if not v:
                        break
            else:
                prime(m, ((x, not v),), env)
            m.reset()
            if m.cond(x, env) != v:
                break
        else:
            return False
    return False


def avoid(m, s, keep):
    """move the model off the branches on which the reference raises"""
    for k in range(4):
        bad = [g for g, _, _ in s.raises if m.cond(g, ())]
        if not bad:
            return True
        for g in bad:
            force(m, g, False, (), keep)
    return False


def poked(v):
    """another value of the same kind"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, Fraction):
        return v + 1
    if isinstance(v, Seq):
        return Seq(v.kind, list(v.items) + [O(h("poked"))])
    return O(h("poked", fp(v)))


def observed(m, s, t, before):
    """does the value of term t of summary s matter for what the call does in this model"""
    if t.op in ("const", "undef", "dead", "noreturn") or not occurs(s, t):
        return True
    m.reset()
    m.poke = (t,)
    keep = dict(m.ident), dict(m.kinds), dict(m.sizes), set(m.dicts), dict(m.origin), set(m.asked), set(m.notnone)
    try:
        return outcome(m, s) != before
    except (Abort, RecursionError):
        return True
    finally:
        m.ident, m.kinds, m.sizes, m.dicts, m.origin, m.asked, m.notnone = keep
        m.poke = ()
        m.reset()


def iterated(m, x, y):
    """are the loops in which two terms differ run through at all"""
    mine = _counts(x) ^ _counts(y) or _counts(x) | _counts(y)
    top = _counts(x, True) | _counts(y, True)
    return all(not s or max(m.loops.get(c, 0) for c in s) > 0 for s in (mine, top))


_COUNTS = {}


def _counts(t, outer=False):
    """number-of-iterations terms of the (outermost) loops in a term"""
    r = _COUNTS.get((t, outer))
    if r is None:
        r = set()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op in ("mu", "for", "efor", "mfor", "sum", "exists"):
                    r.update(c for c in x.a[:2] if isinstance(c, T) and c.op not in ("abs", "const"))
                    if outer:
                        continue
                todo.extend(x.a)
        _COUNTS[t, outer] = r = frozenset(r)
    return r


def occurs(s, t):
    from .compare import contains
    for g, ty, eff in s.raises:
        if contains(g, t) or contains(ty, t) or any(contains(b, t) for b, nm in eff):
            return True
    return any(contains(b, t) or contains(v, t) for (b, nm), v in s.effects.items()) or contains(s.ret, t)


def run(m, a, b, assign, calm=False, loops=False, pairs=()):
    """-> difference (or None), whether the branch outcomes of the difference are realised"""
    keep = {x for x, _ in assign}
    for _ in range(8):
        m.reset()
        prime(m, assign)
        m.reset()
        if calm:
            avoid(m, a, keep)
            m.reset()
        ra = outcome(m, a)
        rb = outcome(m, b)
        if not m.dirty:
            break
    else:
        raise Abort("unstable model")
    hit = True
    for x, want in assign:
        if x.fv or x.mx >= 0:
            continue
        if m.cond(x, ()) != want:
            hit = False
            break
    d = None
    if ra[0][0] == "raise" or rb[0][0] == "raise":
        if ra[0] != rb[0]:
            d = "exit %s, reference exit %s" % (_exit(rb[0]), _exit(ra[0]))
    elif ra[0] != rb[0]:
        d = "returned value"
    elif ra[1] != rb[1]:
        d = "state written"
    if loops and 2 * sum(1 for n in m.loops.values() if n > 0) < len(m.loops):
        hit = False         # nothing much is iterated here
    if hit and d is None and pairs and not any(iterated(m, x, y) and observed(m, a, x, ra) and observed(m, b, y, rb) for x, y in pairs):
        hit = False         # whatever stands at the differing position, nobody sees it
    return d, (2 if ra[0][0] == "return" else 1) if hit else 0


def _exit(r):
    return "raises " + "/".join(sorted(map(str, r[1]))) if r[0] == "raise" else "returns"


BUDGET = 20.0      # seconds of processor time per summarisation


def sizes(ts, lim=4000):
    """integers the differing parts compare or index with: lengths beyond them have to be tried as well"""
    out, seen, todo = {3}, set(), [t for t in ts if isinstance(t, tm.T)]
    while todo and len(seen) < lim:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "const" and t.a[0] == "num" and t.a[1] == int(t.a[1]) and 3 < abs(t.a[1]) <= 12:
            out.add(int(abs(t.a[1])))
        for x in t.a:
            if isinstance(x, tm.T):
                todo.append(x)
            elif isinstance(x, tuple):
                todo.extend(y for y in x if isinstance(y, tm.T))
    return sorted(out)


def refute(a, b, assigns, tries=48, returning=True, loops=False):
    """a: reference, b: code.  -> (difference or None, models in which the suspected branch is taken, models interpreted)

    returning: only models in which the reference returns count as taking the branch"""
    hits = n = 0
    stop = time.process_time() + (BUDGET if time.process_time() < 400 else BUDGET / 8)
    pairs = {}
    for d in assigns:
        pairs.setdefault(tuple(d.assign), []).append((d.a, d.b))
    assigns = list(pairs)[:14] or [()]
    per = max(8, tries // len(assigns))
    big = sizes(x for v in list(pairs.values())[:14] for p in v[:4] for x in p)
    for k, asg in enumerate(assigns):
        got = 0
        for i in range(per * 3):
            if time.process_time() > stop:
                break
            m = Model(1 + i + 1000 * k)
            if i % 4 == 3:
                m.big = big
            full = i % 3 != 2
            part = asg if full else tuple(x for x in asg if m.rnd(3, "part", x[0].k.hex()) == 0) if i % 2 else ()
            try:
                d, hit = run(m, a, b, part, i % 2 == 0, loops, pairs.get(asg, ())[:4] if full else ())
            except Slow:
                n += 1
                continue
            except (Abort, RecursionError):
                continue
            n += 1
            if hit > returning and full:
                hits += 1
                got += 1
            if d is not None:
                return (d, m), hits, n
            if got >= per:
                break
    return None, hits, n
