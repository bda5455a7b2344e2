"""Value-flow analysis of one function: computes, for every exit, the value
graph of the result and of every location the function can write.

This is a dataflow analysis over the syntax tree with gated joins at branches
and closed forms / binders at loops.  No path is enumerated, no constraint is
solved and nothing is executed.
"""
import ast
import os
import copy
from . import terms as tm
from .terms import (T, mk, const, NONE, TRUE, FALSE, ZERO, ONE, UNDEF, EMPTYDICT, add, sub, mul, div, neg,
                    ite, band, bor, bnot, truth, seq, it, sp, getitem, length, fresh, close, subst, open_abs,
                    is_num, is_str, num, kind, strcat, tostr)
from .repo import FuncInfo, ClassInfo, _BUILTINS


NO_RAISE = {"values", "keys", "items", "append", "extend", "get", "copy", "range", "len", "enumerate", "zip", "list", "dict", "tuple",
            "setdefault", "update", "str", "isinstance", "sorted", "reversed", "format", "join", "debug", "info", "warning"}


def _comprehension(e):
    """filter(f, xs) / map(f, *xs) as a list comprehension"""
    f = e.args[0]
    names = ["__elem%d" % i for i in range(len(e.args) - 1)]
    load = [ast.Name(n, ast.Load()) for n in names]
    if len(names) == 1:
        tgt, src = ast.Name(names[0], ast.Store()), e.args[1]
    else:
        tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
        src = ast.Call(ast.Name("zip", ast.Load()), e.args[1:], [])
    if e.func.id == "filter":
        test = load[0] if isinstance(f, ast.Constant) and f.value is None else ast.Call(f, load, [])
        new = ast.ListComp(load[0], [ast.comprehension(tgt, src, [test], 0)])
    else:
        new = ast.ListComp(ast.Call(f, load, []), [ast.comprehension(tgt, src, [], 0)])
    return ast.fix_missing_locations(ast.copy_location(new, e))


class Unsupported(Exception):
    pass


def attr_default(bt, nm):
    if bt.op == "call" and bt.a[0].op == "glob" and bt.a[0].a[0] == "copy.copy" and len(bt.a[1]) == 1 and nm != "__class__":
        return mk("attr", bt.a[1][0], nm)      # a shallow copy starts with the same attributes
    return mk("attr", bt, nm)


class Obj(object):
    __slots__ = ("term", "attrs", "cls")

    def __init__(self, term, attrs=None, cls=None):
        self.term = term
        self.attrs = attrs if attrs is not None else {}
        self.cls = cls


class State(object):
    __slots__ = ("locals", "store", "guard")

    def __init__(self, loc, store, guard=TRUE):
        self.locals = loc
        self.store = store
        self.guard = guard

    def copy(self, guard=TRUE):
        return State(dict(self.locals), dict(self.store), guard)


class Exit(object):
    __slots__ = ("kind", "guard", "value", "state")

    def __init__(self, kind_, guard, value, state):
        self.kind = kind_
        self.guard = guard
        self.value = value
        self.state = state


class Frame(object):
    def __init__(self, fi, module, cls, selfcls, depth, parent=None):
        self.fi = fi
        self.module = module
        self.cls = cls              # class the code is defined in (for super)
        self.selfcls = selfcls      # dynamic class of self
        self.exits = []
        self.depth = depth
        self.parent = parent
        self.closure = {}
        self.tries = 0
        self.genref = None
        self.selfname = None
        self.alias = {}             # local name -> (value, holder, keys): the element of a container it was bound to


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault",
            "add", "discard", "popitem", "appendleft"}
IGNORED_CALLS = {"builtins.print", "warnings.warn", "logging.info", "logging.debug", "logging.warning", "sys.stdout.flush",
                 "sys.stdout.write", "gc.collect"}

INLINE_DEPTH = 14


def _is_log(q):
    p = q.split(".")
    return len(p) > 1 and p[-1] in ("debug", "info", "warning", "warn", "error", "exception", "critical", "log") and \
        "log" in p[-2].lower()


class Policy(object):
    """which repository functions are expanded at call sites"""

    def __init__(self, known=(), opaque=(), inline_all=False, transparent=(), inline_ctor=(), self_opaque=False):
        self.self_opaque = self_opaque
        self.known = known
        self.opaque = set(opaque)
        self.inline_all = inline_all
        self.transparent = set(transparent)
        self.inline_ctor = set(inline_ctor)

    def inline(self, fi, on_self, overridden):
        short = (fi.cls.name + "." if fi.cls else "") + fi.name
        if fi.name in self.opaque or short in self.opaque:
            return False
        if fi.name in self.transparent or short in self.transparent:
            return True
        if fi.kind == "decorated":
            return False
        if overridden:
            return False
        if self.inline_all:
            return True
        if fi.qual not in self.known and not fi.spec:
            return True
        if fi.kind in ("property", "setter"):
            return True
        if on_self and not self.self_opaque:
            return True
        if fi.name.startswith("_") and not self.self_opaque and not fi.name.startswith("__"):
            return True
        return False


REFINFO = {}
_refuid = [0]


CHOICE = {}


def newref(info):
    _refuid[0] += 1
    r = mk("ref", _refuid[0])
    REFINFO[r] = info
    return r


class Summary(object):
    def __init__(self):
        self.ret = None
        self.raises = []       # (guard, exc type, effects dict)
        self.effects = {}      # (ident term, attr|None) -> term
        self.unsupported = None
        self.inlined = set()


class Evaluator(object):
    def __init__(self, repo, policy, attr_types, param_types, spec=None, max_steps=60000, purity=None):
        self.repo = repo
        self.policy = policy
        self.attr_types = attr_types
        self.param_types = param_types
        self.spec = spec            # fallback provider of helper functions (SpecSet)
        self.steps = 0
        self.max_steps = max_steps
        self.purity = purity
        self.refmemo = {}
        self.inlined = set()
        self.callstack = []
        self.closures = {}
        self.mutcache = {}
        self.desugared = {}
        self.trykeys = {}
        self.trylog = None
        self.stored = []

    # ------------------------------------------------------------ entry point
    def summarize(self, fi, selfcls, spec_params=None, extra_defaults=True):
        node = fi.node
        fr = Frame(fi, fi.module, fi.cls, selfcls, 0)
        st = State({}, {}, TRUE)
        args = node.args
        allargs = args.posonlyargs + args.args
        is_method = fi.cls is not None and fi.kind not in ("static",)
        for i, a in enumerate(allargs):
            nm = a.arg
            if i == 0 and is_method:
                r = self.named_ref(("param", "self"), mk("param", "self"))
                st.store[r] = Obj(mk("param", "self"), {}, selfcls if fi.kind != "class" else None)
                st.locals[nm] = r
                fr.selfname = nm
                continue
            self._bind_param(st, fr, a, spec_params, fi)
        for a in args.kwonlyargs:
            self._bind_param(st, fr, a, spec_params, fi)
        if args.vararg:
            nm = args.vararg.arg
            r = self.named_ref(("param", "*args"), mk("param", "*args"))
            st.store[r] = Obj(mk("param", "*args"))
            st.locals[nm] = r
        if args.kwarg:
            nm = args.kwarg.arg
            r = self.named_ref(("param", "**kwargs"), mk("param", "**kwargs"))
            st.store[r] = Obj(mk("param", "**kwargs"))
            st.locals[nm] = r
        self.callstack.append(fi.qual)
        end, ret = self.run_body(fr, st, node)
        self.callstack.pop()
        s = Summary()
        raises = []
        for e in fr.exits:
            if e.kind == "raise":
                raises.append((e.guard, e.value, self.effects(e.state)))
        s.raises = raises
        if end is None:
            s.ret = mk("noreturn")
            s.effects = {}
        else:
            s.ret = self.res(end, ret)
            s.effects = self.effects(end)
            s.final = end
        s.inlined = set(self.inlined)
        s.shares = self.share_facts(end)
        return s

    def share_facts(self, end):
        """(location, location) that hold one and the same container, (location, parameter) kept or copied"""
        out = set()
        for base, nm, v, what in self.stored:
            if end is not None and base in end.store:
                now = end.store[base].attrs.get(nm)
                if now is not None and now.op == "ref" and now is not v:
                    continue
            out.add(what)
        return out

    def note_store(self, st, base, nm, v):
        if v.op != "ref" or v not in REFINFO:
            return
        p = self.path(base)
        if p is None:
            return
        here = tm.show(p) + "." + nm
        o = st.store.get(v)
        info = REFINFO[v]
        if info[0] == "named" and info[1][0] == "param":
            self.stored.append((base, nm, v, ("keeps", here, info[1][1])))
        if info[0] != "new" or o is None:
            return
        t = o.term
        if t.op == "seq" and t.a[0] == "list" and len(t.a[1]) == 1 and t.a[1][0].op == "sp" or \
                t.op == "map" and t.a[0] is EMPTYDICT and len(t.a[1]) == 1 and t.a[1][0].op == "msplice":
            x = (t.a[1][0]).a[0]
            if x.op == "param":
                self.stored.append((base, nm, v, ("copies", here, x.a[0])))
        if kind(t) in ("seq", "map") and t.op in ("seq", "map", "emptydict", "ddict") and not (t.op == "seq" and t.a[0] == "tuple"):
            for r, other in st.store.items():
                for n2, w in other.attrs.items():
                    if w is v and (r is not base or n2 != nm):
                        q = self.path(r)
                        if q is not None:
                            self.stored.append((base, nm, v, ("shares",) + tuple(sorted((here, tm.show(q) + "." + n2)))))

    def _bind_param(self, st, fr, a, spec_params, fi):
        nm = a.arg
        if spec_params is not None and nm not in spec_params:
            # an added optional parameter: analysed at its default
            d = self._default_of(fi.node, nm)
            if d is not None:
                st.locals[nm] = self.ev(d, st, fr)
                return
        t = mk("param", nm)
        r = self.named_ref(("param", nm), t)
        st.store[r] = Obj(t, {}, self.param_cls(a, fi.module))
        st.locals[nm] = r

    @staticmethod
    def _default_of(node, nm):
        args = node.args
        pos = args.posonlyargs + args.args
        nd = len(args.defaults)
        for i, a in enumerate(pos):
            if a.arg == nm:
                j = i - (len(pos) - nd)
                return args.defaults[j] if j >= 0 else None
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if a.arg == nm:
                return d
        return None

    def param_cls(self, a, module):
        if a.annotation is not None:
            c = self.ann_cls(a.annotation, module)
            if c is not None:
                return c
        q = self.param_types.get(a.arg)
        return self.repo.find_class(q) if q else None

    def ann_cls(self, ann, module):
        try:
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                ann = ast.parse(ann.value, mode="eval").body
            if isinstance(ann, ast.Subscript):
                v = ast.unparse(ann.value)
                if v in ("Optional", "typing.Optional"):
                    return self.ann_cls(ann.slice, module)
                return None
            r = self.repo._resolve_expr(module, ann)
            if r and r[0] == "class":
                return r[1]
        except Exception:
            return None
        return None

    # ---------------------------------------------------------------- helpers
    def named_ref(self, key, term):
        r = self.refmemo.get(key)
        if r is None:
            r = newref(("named", key, term))
            self.refmemo[key] = r
        return r

    def alloc(self, st, term, cls=None, origin=None):
        r = newref(("new", origin if origin is not None and self.external(origin) else None))
        st.store[r] = Obj(term, {}, cls)
        return r

    def external(self, t):
        """may the object denoted by the value be reachable from outside the function?"""
        while t.op in ("obj", "objw", "map"):
            t = t.a[0]
        if t.op in ("getitem", "attr"):
            while t.op in ("getitem", "attr"):
                t = t.a[0]
            return t.op not in ("new", "seq", "emptydict")
        if t.op in ("mcall", "mres"):
            return t.a[1] in self.repo.method_names or t.a[1] in ("get", "pop", "setdefault")
        if t.op == "call":
            return t.a[0].op == "glob" and self.repo.resolve_qual(t.a[0].a[0])[0] == "func"
        return t.op in ("fv", "bv")

    def heap(self, st, ident, r):
        """record the final state of an object reached through an opaque value"""
        h = self.named_ref(("heap",), mk("heap"))
        cur = self.obj(st, h).term
        st.store[h] = Obj(tm.mset(cur, (mk("set", ident, r),)), {}, None)

    def default_obj(self, r):
        info = REFINFO[r]
        if info[0] == "attr":
            return Obj(attr_default(info[1], info[2]), {}, info[3])
        if info[0] == "item":
            return Obj(getitem(info[2], info[3]) if not isinstance(info[2], tuple) else None, {}, info[4])
        if info[0] == "named":
            return Obj(info[2])
        raise Unsupported("dangling reference")

    def obj(self, st, r):
        o = st.store.get(r)
        if o is None:
            o = self.default_obj(r)
            st.store[r] = o
        return o

    def res(self, st, t, seen=()):
        """deep-resolve references to value terms"""
        if isinstance(t, tuple):
            return tuple(self.res(st, x, seen) for x in t)
        if not isinstance(t, T):
            return t
        refs = [x for x in t.fv if x.op == "ref"]
        if not refs:
            return t
        m = {}
        for r in refs:
            m[r] = self.res_ref(st, r, seen)
        return subst(t, m)

    def res_ref(self, st, r, seen=()):
        if r in seen:
            info = REFINFO[r]
            if info[0] == "named":
                return info[2]
            return mk("cycle")
        o = self.obj(st, r)
        seen2 = seen + (r,)
        base = self.res(st, o.term, seen2)
        if base.op == "clo":
            base = self.clo_term(base, st)
        if not o.attrs:
            return base
        writes = []
        for nm in sorted(o.attrs):
            v = self.res(st, o.attrs[nm], seen2)
            if v is not mk("attr", base, nm):
                writes.append((nm, v))
        if not writes:
            return base
        return mk("objw", base, tuple(writes))

    def ident(self, st, r):
        """identity of an object (without pending attribute writes)"""
        if r.op != "ref":
            return self.res(st, r)
        return self.res(st, self.obj(st, r).term)

    def val(self, st, t):
        if t.op == "clo":
            return self.clo_term(t, st)
        if not t.fv:
            return t
        return self.res(st, t)

    def argval(self, st, t):
        """value passed to an opaque call: objects rooted outside are passed by identity"""
        if t.op == "ref":
            o = self.obj(st, t)
            if o.attrs and o.cls is not None and REFINFO[t][0] != "new":
                return self.res(st, o.term)
        return self.val(st, t)

    def set_content(self, st, r, term):
        o = self.obj(st, r)
        if r in CHOICE:
            self._through(st, r, lambda x, g: self.set_content(st, x, ite(g, term, self.obj(st, x).term)))
        st.store[r] = Obj(term, dict(o.attrs), o.cls)
        self.touch(st, r)

    def _root(self, r):
        info = REFINFO[r]
        while info[0] == "attr" and info[4] is not None:
            info = REFINFO[info[4]]
        return info[0]

    def path(self, r):
        """identity of a named location, None for anonymous ones"""
        info = REFINFO[r]
        if info[0] == "named":
            return info[2]
        if info[0] == "attr" and info[4] is not None:
            p = self.path(info[4])
            return mk("attr", p, info[2]) if p is not None else None
        return None

    def _stable(self, r):
        """the location is still reached by the path it had on entry (its holder was not changed by an opaque call)"""
        info = REFINFO[r]
        if info[0] == "attr" and info[4] is not None:
            p = self.path(info[4])
            return p is None or p is info[1]
        return True

    def touch(self, st, r):
        """propagate a modification of a part to the element / fresh object that holds it"""
        info = REFINFO[r]
        if info[0] == "item":
            c = info[1]
            if c.op == "ref":
                cur = self.obj(st, c).term
                self.set_content(st, c, tm.mset(cur, (mk("set", info[3], r),)))
                ci = REFINFO[c]
                if ci[0] == "new" and ci[1] is None and self.obj(st, r).attrs:
                    self.heap(st, mk("getitem", info[2], info[3]), r)
        elif info[0] == "new":
            if info[1] is not None:
                self.heap(st, info[1], r)
        elif info[0] == "attr" and info[4] is None:
            if self.external(info[1]):
                self.heap(st, mk("attr", info[1], info[2]), r)
        elif info[0] == "attr" and info[4] is not None and (self._root(r) in ("item", "new") or not self._stable(r)):
            b = info[4]
            o = self.obj(st, b)
            if info[2] not in o.attrs:
                at = dict(o.attrs)
                at[info[2]] = r
                st.store[b] = Obj(o.term, at, o.cls)
            self.touch(st, b)

    def effects(self, st):
        out = {}
        for r, o in list(st.store.items()):
            info = REFINFO[r]
            if info[0] == "new":
                continue
            if info[0] == "attr":
                base, nm = info[1], info[2]
                if self._fresh_rooted(base) or not self._stable(r):
                    continue
                dflt = mk("attr", base, nm)
                v = self.res(st, o.term)
                key = (base, nm)
            elif info[0] == "named":
                dflt = info[2]
                v = self.res(st, o.term)
                key = (dflt, None)
            else:
                v = None
            if v is not None and v is not dflt and not dflt.fv:
                if not (info[0] == "attr" and self._overwritten(st, info)):
                    out[key] = v
            ident = None
            for an, av in o.attrs.items():
                if ident is None:
                    ident = self.res(st, o.term)
                    if info[0] == "attr":
                        ident = self.path(r) or mk("attr", info[1], info[2])
                    elif info[0] == "named":
                        ident = info[2]
                    elif info[0] == "item":
                        ident = mk("getitem", info[2], info[3])
                if av.op == "ref" and REFINFO[av][0] == "attr" and REFINFO[av][4] is r and REFINFO[av][2] == an and self._stable(av):
                    continue
                rv = self.res(st, av)
                if rv is not mk("attr", ident, an):
                    if ident.fv or info[0] == "item" and self._fresh_rooted(ident):
                        continue
                    out[(ident, an)] = rv
        return out

    def _overwritten(self, st, info):
        """the attribute slot itself was rebound after/before its old content changed"""
        for r, o in st.store.items():
            if info[2] in o.attrs:
                i2 = REFINFO[r]
                base = None
                if i2[0] == "named":
                    base = i2[2]
                elif i2[0] == "attr":
                    base = mk("attr", i2[1], i2[2])
                if base is info[1]:
                    return True
        return False

    def _fresh_rooted(self, t):
        while t.op in ("attr", "getitem", "obj", "objw", "map"):
            t = t.a[0]
        return t.op in ("new", "call", "seq", "emptydict", "mcall", "fv", "mres", "ite", "mu", "undef", "vlt", "vle", "veq", "vne", "poly")

    # ------------------------------------------------------------- statements
    def run_body(self, fr, st, node):
        """-> (state at normal return or None, return value)"""
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))
        if is_gen:
            fr.genref = self.alloc(st, seq("list", ()))
        st2 = self.block(cells(node), st, fr)
        rets = [e for e in fr.exits if e.kind == "return"]
        fr.exits = [e for e in fr.exits if e.kind != "return"]
        if st2 is not None:
            rets.append(Exit("return", st2.guard, NONE, st2))
        if not rets:
            return None, None
        cur = rets[-1]
        rstate, rval = cur.state, cur.value
        if is_gen:
            rval = fr.genref
        for e in reversed(rets[:-1]):
            v = fr.genref if is_gen else e.value
            rstate, rval = self.merge(e.guard, e.state, rstate, v, rval)
        rstate.guard = TRUE
        return rstate, rval

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis step budget exceeded")

    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.tick()
            st = self.stmt(s, st, fr)
            if st is not None and st.guard is FALSE:
                return None
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %d" % (type(s).__name__, s.lineno))
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.locals[a.asname or a.name.split(".")[0]] = mk("glob", a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            q = (s.module or "") + "." + a.name
            st.locals[a.asname or a.name] = self.qual_value(q)
        return st

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.ev(v, st, fr)
            return st
        if isinstance(v, ast.Call):
            self.call_expr(v, st, fr, stmt=True)
            return st
        self.ev(v, st, fr)
        return st

    def s_Assert(self, s, st, fr):
        c = truth(self.val(st, self.ev(s.test, st, fr)))
        if c is not TRUE:
            fr.exits.append(Exit("raise", band(st.guard, bnot(c)), const("AssertionError"), st.copy()))
            st.guard = band(st.guard, c)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.exits.append(Exit("return", st.guard, v, st))
        return None

    def s_Raise(self, s, st, fr):
        nm = "?"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else "?")
            if isinstance(e, ast.Name) and e.id in st.locals:
                nm = "?"
                t = self.val(st, st.locals[e.id])
                while t.op in ("obj", "objw", "call", "new") and isinstance(t.a[0], T):
                    t = t.a[0]
                if t.op == "glob" or t.op == "new" and isinstance(t.a[0], str):
                    nm = t.a[0].split(".")[-1]
        else:
            nm = "reraise"
        fr.exits.append(Exit("raise", st.guard, const(nm), st))
        return None

    def s_Break(self, s, st, fr):
        fr.exits.append(Exit("break", st.guard, NONE, st))
        return None

    def s_Continue(self, s, st, fr):
        fr.exits.append(Exit("continue", st.guard, NONE, st))
        return None

    def s_FunctionDef(self, s, st, fr):
        st.locals[s.name] = self.make_closure(s, st, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        raise Unsupported("nested class")

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.lvalue(t.value, st, fr)
                k = self.index(t.slice, st, fr)
                cur = self.obj(st, base).term
                self.set_content(st, base, tm.mset(cur, (mk("del", self.val(st, k)),)))
            elif isinstance(t, ast.Attribute):
                base = self.lvalue(t.value, st, fr)
                self.write_attr(st, base, t.attr, UNDEF, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
            if isinstance(t, ast.Name):
                self.note_alias(t.id, s.value, v, st, fr)
        return st

    def note_alias(self, name, e, v, st, fr):
        fr.alias.pop(name, None)
        if not isinstance(e, ast.Subscript) or st.locals.get(name) is not v or v.op != "getitem":
            return
        keys = []
        while isinstance(e, ast.Subscript):
            k = self.val(st, self.index(e.slice, st, fr))
            if k.op == "slice" or kind(k) not in (None, "str", "num"):
                return
            keys.insert(0, k)
            e = e.value
        b = e
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name):
            h = self.ev(e, st, fr)
            if h.op == "ref":
                fr.alias[name] = (v, h, keys)

    def aliased(self, name, st, fr):
        """the element of a container that a local name stands for, as a location (None if it is not one)"""
        a = fr.alias.get(name)
        if a is None or st.locals.get(name) is not a[0] or a[1] not in st.store:
            return None
        r = a[1]
        for k in a[2]:
            cur = self.subscript(st, r, k, fr)
            r = cur if cur.op == "ref" else self.item_ref(st, r, k)
        if self.val(st, r) is not self.val(st, a[0]):
            return None
        st.locals[name] = r
        return r

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.lvalue(t.value, st, fr)
            cur = self.read_attr(st, base, t.attr, fr)
        elif isinstance(t, ast.Subscript):
            base = self.lvalue(t.value, st, fr)
            k = self.index(t.slice, st, fr)
            cur = self.subscript(st, base, k, fr)
        else:
            raise Unsupported("augmented target")
        rhs = self.ev(s.value, st, fr)
        cv, rv = self.val(st, cur), self.val(st, rhs)
        nv = self.binop(type(s.op).__name__, cv, rv)
        if isinstance(s.op, ast.Add) and cur.op == "ref" and (kind(cv) == "seq" or kind(cv) is None and rv.op == "seq" and rv.a[0] == "list"):
            raw = self.obj(st, cur).term
            self.set_content(st, cur, seq("list", (sp(raw), sp(self.unref_seq(st, rhs)))))
            return st
        if (isinstance(s.op, ast.Add) and isinstance(t, ast.Name) and cur.op in ("getitem", "attr", "param")
                and rv.op == "seq" and rv.a[0] == "list" and kind(cv) in (None, "seq")):
            # += of a list changes the list in place
            self.method_call(cur, "extend", [rhs], {}, st, fr, s, t)
            return st
        if isinstance(t, ast.Name):
            st.locals[t.id] = nv
        elif isinstance(t, ast.Attribute):
            self.write_attr(st, base, t.attr, nv, fr)
        else:
            self.write_item(st, base, k, nv, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.locals[t.id] = self.anchor(st, v)
        elif isinstance(t, ast.Attribute):
            base = self.lvalue(t.value, st, fr)
            self.write_attr(st, base, t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.lvalue(t.value, st, fr)
            k = self.index(t.slice, st, fr)
            self.write_item(st, base, k, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = const(-(n - 1 - i)) if n - 1 - i else NONE
                    self.assign(e.value, self.subscript(st, v, mk("slice", const(i), hi, NONE), fr), st, fr)
                else:
                    idx = i if not stars or i < stars[0] else i - n
                    self.assign(e, self.subscript(st, v, const(idx), fr), st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported("assignment target")

    def anchor(self, st, v):
        """an anonymous object bound to a name gets an identity"""
        if v.op in ("call", "mcall", "mres", "obj", "objw", "new", "seq", "map", "emptydict") and not (v.op == "seq" and v.a[0] == "tuple"):
            r = v
            while r.op in ("obj", "objw"):
                r = r.a[0]
            return self.alloc(st, v, self.repo.find_class(r.a[0]) if r.op == "new" and isinstance(r.a[0], str) else None, self.val(st, v) if v.op in ("call", "mcall", "mres") else None)
        return v

    def s_If(self, s, st, fr):
        c = truth(self.val(st, self.ev(s.test, st, fr)))
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        return self.branch(c, st, fr, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def branch(self, c, st, fr, ft, ff):
        g0 = st.guard
        mark = len(fr.exits)
        a = ft(st.copy())
        for e in fr.exits[mark:]:
            e.guard = band(g0, band(c, e.guard))
        mark2 = len(fr.exits)
        b = ff(st.copy())
        nc = bnot(c)
        for e in fr.exits[mark2:]:
            e.guard = band(g0, band(nc, e.guard))
        if a is None and b is None:
            return None
        if a is None:
            b.guard = band(g0, band(nc, b.guard))
            return b
        if b is None:
            a.guard = band(g0, band(c, a.guard))
            return a
        ga, gb = a.guard, b.guard
        r, _ = self.merge(c, a, b)
        r.guard = band(g0, ite(c, ga, gb))
        return r

    def merge(self, c, a, b, va=None, vb=None):
        """state equal to a where c holds and b elsewhere"""
        if c is TRUE:
            return a.copy(), va
        if c is FALSE:
            return b.copy(), vb
        out = State({}, {}, TRUE)
        # store
        for r in list(a.store) + [r for r in b.store if r not in a.store]:
            oa = a.store.get(r)
            ob = b.store.get(r)
            if oa is ob:
                out.store[r] = oa
                continue
            if oa is None:
                if REFINFO[r][0] == "new":
                    out.store[r] = ob
                    continue
                oa = self.default_obj(r)
            if ob is None:
                if REFINFO[r][0] == "new":
                    out.store[r] = oa
                    continue
                ob = self.default_obj(r)
            if oa.term is ob.term:
                term = oa.term
            else:
                ea, eb = elements(oa.term), elements(ob.term)
                if ea is not None and eb is not None and list(ea) == list(eb):
                    term = oa.term
                    for k in ea:
                        if ea[k] is not eb[k]:
                            term = tm.mset(term, (mk("set", k, self.join_vals(c, a, b, ea[k], eb[k], out)),))
                else:
                    term = self.join(c, oa.term, ob.term)
            attrs = {}
            for nm in set(oa.attrs) | set(ob.attrs):
                x = oa.attrs.get(nm)
                y = ob.attrs.get(nm)
                if x is None:
                    x = self._slot(a, r, oa, nm)
                if y is None:
                    y = self._slot(b, r, ob, nm)
                attrs[nm] = x if x is y else self.join_vals(c, a, b, x, y, out)
            out.store[r] = Obj(term, attrs, oa.cls or ob.cls)
        for nm in set(a.locals) | set(b.locals):
            x = a.locals.get(nm, UNDEF)
            y = b.locals.get(nm, UNDEF)
            if x is y:
                out.locals[nm] = x
            else:
                out.locals[nm] = self.join_vals(c, a, b, x, y, out)
        rv = None
        if va is not None:
            rv = va if va is vb else self.join_vals(c, a, b, va, vb, out)
        return out, rv

    def _slot(self, st, r, o, nm):
        """what an attribute that was not rebound holds: its object (whose content may have changed)"""
        t = self.res(st, o.term)
        bt = t.a[0] if t.op == "objw" else t
        k = self.refmemo.get(("attr", r, bt, nm))
        if k is not None and k in st.store:
            return k
        return mk("attr", t, nm)

    def join_vals(self, c, a, b, x, y, out):
        """join two values living in different states"""
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        cls = None
        if x.op == "ref" and y.op == "ref":
            ox, oy = self.obj(a, x), self.obj(b, y)
            cls = ox.cls if ox.cls is oy.cls else None
        elif x.op == "ref" and y is NONE:
            cls = self.obj(a, x).cls
        elif y.op == "ref" and x is NONE:
            cls = self.obj(b, y).cls
        elif x.op == "ref" or y.op == "ref":
            s0, r0 = (a, x) if x.op == "ref" else (b, y)
            cls = self.obj(s0, r0).cls
        vx, vy = self.val(a, x), self.val(b, y)
        t = self.join(c, vx, vy)
        if cls is not None or kind(t) in ("seq", "map"):
            r = newref(("new", None))
            out.store[r] = Obj(t, {}, cls)
            sx = x if self._preexists(x, a, b) else None
            sy = y if self._preexists(y, a, b) else None
            if (sx is not None or sy is not None) and x is not y:
                CHOICE[r] = (c, sx, sy)
            return r
        sx = x if self._preexists(x, a, b) else None
        sy = y if self._preexists(y, a, b) else None
        if (sx is not None or sy is not None) and x is not y:
            r = newref(("new", None))
            out.store[r] = Obj(t, {}, cls)
            CHOICE[r] = (c, sx, sy)
            return r
        return t

    def _preexists(self, r, a, b):
        if r.op != "ref":
            return False
        return REFINFO[r][0] in ("named", "attr", "item") or (r in a.store and r in b.store)

    def _through(self, st, r, f):
        """a modification through a conditional alias reaches the object it denotes"""
        c, x, y = CHOICE[r]
        if x is not None:
            f(x, c)
        if y is not None:
            f(y, tm.bnot(c))

    def join(self, c, x, y):
        if x is y:
            return x
        # growth of a common prefix
        j = _join_growth(c, x, y)
        if j is not None:
            return j
        return ite(c, x, y)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        if s.orelse:
            return self.block(_desugar_else(s), st, fr)
        itv = self.ev(s.iter, st, fr)

        def bind(elem, x):
            self.assign(s.target, elem, x, fr)

        return self.iterate(itv, bind, lambda x: self.block(s.body, x, fr), st, fr)

    def iterate(self, itv, bind, body, st, fr):
        """run body over the iterable value"""
        v = self.iter_norm(st, itv)
        for piece in v:
            if st is None:
                return None
            if piece[0] == "one":
                st = self.loop_once(piece[1], bind, body, st, fr)
                if st == "break":
                    raise Unsupported("break in unrolled loop")
            else:
                _, n, elem = piece
                st = self.loop(n, elem, bind, body, st, fr)
        return st

    def loop_once(self, elem, bind, body, st, fr):
        mark = len(fr.exits)
        g0 = st.guard
        x = st.copy()
        bind(elem, x)
        end = body(x)
        new = fr.exits[mark:]
        del fr.exits[mark:]
        keep = []
        for e in new:
            if e.kind == "continue":
                if end is None:
                    end = e.state
                    end.guard = e.guard
                else:
                    g = bor(e.guard, end.guard)
                    end, _ = self.merge(e.guard, e.state, end)
                    end.guard = g
            elif e.kind == "break":
                raise Unsupported("break in unrolled loop")
            else:
                e.guard = band(g0, e.guard)
                keep.append(e)
        fr.exits.extend(keep)
        if end is None:
            return None
        end.guard = band(g0, end.guard)
        return end

    def iter_norm(self, st, v):
        """-> list of ('one', elem) | ('loop', n, f(idx)->elem)"""
        raw = v
        t = v
        if v.op == "ref":
            o = self.obj(st, v)
            t = o.term
        if t.op == "seq" and t.a[0] in ("list", "tuple", "set"):
            segs = t.a[1]
            if len(segs) <= 64:
                out = []
                ok = True
                for s in segs:
                    if s.op == "it":
                        out.append(("one", s.a[0]))
                    elif s.op == "sp":
                        out.extend(self.iter_norm(st, s.a[0]))
                    elif s.op == "for":
                        n, ab = s.a
                        b = tm.segs_of(ab.a[1])
                        if len(b) == 1 and b[0].op == "it" and v.op == "ref" and len(segs) == 1 and t.a[0] == "list" and \
                                (b[0].a[0].op in ("map", "emptydict") or b[0].a[0].op == "seq" and b[0].a[0].a[0] == "list"):
                            out.append(("loop", n, lambda i: self._elem_of(v, t, i)))
                        elif len(b) == 1 and b[0].op == "it":
                            out.append(("loop", n, lambda i, ab=ab: tm.segs_of(open_abs(ab, (i,)))[0].a[0]))
                        else:
                            ok = False
                            break
                    else:
                        ok = False
                        break
                if ok:
                    return out
        t = self.val(st, v)
        if v.op in ("items", "values") or v.op == "call" and v.a[0].op == "glob" and v.a[0].a[0] in ("builtins.enumerate", "builtins.zip", "builtins.reversed", "itertools.chain"):
            t = v
        if t.op == "seq" and t.a[0] in ("list", "tuple") and v.op == "ref" and t is not self.obj(st, v).term:
            return self.iter_norm(st, t)
        if t.op == "call" and t.a[0].op == "glob":
            q = t.a[0].a[0]
            args = t.a[1]
            kw = dict(t.a[2])
            if q == "builtins.range":
                lo, hi, step = args
                if step is ONE:
                    n = sub(hi, lo)
                    if is_num(n) and 0 <= num(n) <= 6 and num(n).denominator == 1:
                        return [("one", add(lo, const(k))) for k in range(int(num(n)))]
                    if is_num(n) and num(n) < 0:
                        return []
                    return [("loop", n, lambda i: add(lo, i))]
                if is_num(step) and num(step) == -1:
                    n = sub(lo, hi)
                    return [("loop", n, lambda i: sub(lo, i))]
                n = mk("rangen", lo, hi, step)
                return [("loop", n, lambda i: add(lo, mul(i, step)))]
            if q == "builtins.enumerate":
                start = args[1] if len(args) > 1 else kw.get("start", ZERO)
                inner = self.iter_norm(st, args[0])
                out = []
                off = start
                for p in inner:
                    if p[0] == "one":
                        out.append(("one", seq("tuple", (it(off), it(p[1])))))
                        off = add(off, ONE)
                    else:
                        out.append(("loop", p[1], lambda i, p=p, off=off: seq("tuple", (it(add(off, i)), it(p[2](i))))))
                        off = add(off, p[1])
                return out
            if q == "builtins.zip":
                inners = [self.iter_norm(st, a) for a in args]
                if all(all(p[0] == "one" for p in x) for x in inners):
                    k = min(len(x) for x in inners) if inners else 0
                    return [("one", seq("tuple", [it(x[j][1]) for x in inners])) for j in range(k)]
                if all(len(x) == 1 and x[0][0] == "loop" for x in inners):
                    n = tm.zipn(tuple(x[0][1] for x in inners))
                    return [("loop", n, lambda i: seq("tuple", [it(x[0][2](i)) for x in inners]))]
                args = [self.val(st, a) for a in args]
                n = tm.zipn(tuple(length(a) for a in args))
                return [("loop", n, lambda i: seq("tuple", [it(getitem(a, i)) for a in args]))]
            if q == "builtins.reversed":
                inner = self.iter_norm(st, args[0])
                out = []
                for p in reversed(inner):
                    if p[0] == "one":
                        out.append(p)
                    else:
                        out.append(("loop", p[1], lambda i, p=p: p[2](sub(sub(p[1], ONE), i))))
                return out
            if q in ("itertools.chain",):
                out = []
                for a in args:
                    out.extend(self.iter_norm(st, a))
                return out
        if t.op == "getitem" and t.a[1].op == "slice" and t.a[1].a[2] is NONE and v.op != "ref":
            lo, hi, _ = t.a[1].a
            if (lo is NONE or tm.is_num(lo) and tm.num(lo) >= 0) and (hi is NONE or tm.is_num(hi) and tm.num(hi) < 0):
                # part of a sequence: a loop over a negative number of elements is empty
                lo = ZERO if lo is NONE else lo
                n = sub(length(t.a[0]), lo)
                n = n if hi is NONE else add(n, hi)
                return [("loop", n, lambda i: getitem(t.a[0], add(i, lo)))]
        if t.op == "getitem" and t.a[1].op == "slice" and t.a[1].a[0] is NONE and t.a[1].a[1] is NONE and t.a[1].a[2] is const(-1):
            n = length(t.a[0])
            return [("loop", n, lambda i: getitem(t.a[0], sub(sub(n, ONE), i)))]
        if t.op in ("items", "values") and t.a[0].op == "ref":
            r = t.a[0]
            d = self.obj(st, r).term
            if d.op == "emptydict":
                return []
            if d.op == "map" and d.a[0] is EMPTYDICT and all(u.op == "set" for u in d.a[1]):
                if t.op == "values":
                    return [("one", u.a[1]) for u in d.a[1]]
                return [("one", seq("tuple", (it(u.a[0]), it(u.a[1])))) for u in d.a[1]]
            ks = tm.keys(self.val(st, r))
            if t.op == "values":
                return [("loop", length(self.val(st, r)), lambda i: self._elem_of(r, d, getitem(ks, i)))]
            return [("loop", length(self.val(st, r)), lambda i: seq("tuple", (it(getitem(ks, i)), it(self._elem_of(r, d, getitem(ks, i))))))]
        if t.op == "items":
            d = t.a[0]
            ks = tm.keys(d)
            if d.op == "map" and d.a[0] is EMPTYDICT and all(u.op == "set" for u in d.a[1]):
                return [("one", seq("tuple", (it(u.a[0]), it(u.a[1])))) for u in d.a[1]]
            return [("loop", length(d), lambda i: seq("tuple", (it(getitem(ks, i)), it(getitem(d, getitem(ks, i))))))]
        if t.op == "values":
            d = t.a[0]
            ks = tm.keys(d)
            if d.op == "map" and d.a[0] is EMPTYDICT and all(u.op == "set" for u in d.a[1]):
                return [("one", u.a[1]) for u in d.a[1]]
            return [("loop", length(d), lambda i: getitem(d, getitem(ks, i)))]
        if t.op == "keys":
            return self._iter_keys(st, t.a[0])
        if t.op in ("map", "emptydict") and kind(t) == "map":
            return self._iter_keys(st, t)
        if v.op == "ref":
            return [("loop", length(t), lambda i: self._elem_of(v, t, i))]
        return [("loop", length(t), lambda i: getitem(t, i))]

    def _elem_of(self, ref, t, i):
        return mk("lazyitem", ref, t, i)

    def _iter_keys(self, st, d):
        d = tm.undd(d)
        if d is EMPTYDICT:
            return []
        if d.op == "map" and d.a[0] is EMPTYDICT and all(u.op == "set" for u in d.a[1]):
            return [("one", u.a[0]) for u in d.a[1]]
        if d.op == "map" and d.a[0] is EMPTYDICT and len(d.a[1]) == 1 and d.a[1][0].op == "mfor":
            n, ab = d.a[1][0].a
            b = tm.segs_of(ab.a[1])
            if len(b) == 1 and b[0].op == "set" and b[0].a[0].op == "bv":
                return [("loop", n, lambda i: i)]
        ks = tm.keys(d)
        if kind(d) == "map":
            return [("loop", length(d), lambda i: getitem(ks, i))]
        return [("loop", length(d), lambda i: getitem(d, i))]

    def force(self, st, elem):
        if elem.op == "lazyitem":
            ref, t, i = elem.a
            return self.subscript(st, ref, i, None)
        if elem.op == "seq" and elem.a[0] == "tuple" and any(s.op == "it" and s.a[0].op in ("lazyitem", "seq") for s in elem.a[1]):
            return seq("tuple", tuple(it(self.force(st, s.a[0])) if s.op == "it" else s for s in elem.a[1]))
        return elem

    def s_While(self, s, st, fr):
        if s.orelse:
            return self.block(_desugar_else(s), st, fr)

        def cond(x):
            return truth(self.val(x, self.ev(s.test, x, fr)))

        return self.loop(None, None, None, lambda x: self.block(s.body, x, fr), st, fr, cond=cond)

    def loop_local(self, r, lv):
        """does the identity of the reference depend on the variables of this loop?"""
        info = REFINFO[r]
        if info[0] == "attr":
            if not info[1].fv.isdisjoint(lv):
                return True
            return info[4] is not None and self.loop_local(info[4], lv)
        if info[0] == "item":
            if not info[2].fv.isdisjoint(lv) or not info[3].fv.isdisjoint(lv):
                return True
            return info[1].op == "ref" and self.loop_local(info[1], lv)
        return r in lv

    def snapshot_diff(self, pre, post, lv=frozenset()):
        """locations written between two states"""
        ch = []
        for nm, v in post.locals.items():
            if pre.locals.get(nm) is not v:
                ch.append(("l", nm))
        for r, o in post.store.items():
            p = pre.store.get(r)
            if p is o:
                continue
            if r in lv or self.loop_local(r, lv):
                continue
            if p is None:
                if REFINFO[r][0] == "new":
                    continue
                p = self.default_obj(r)
            if p.term is not o.term:
                ch.append(("c", r))
            for nm, v in o.attrs.items():
                if p.attrs.get(nm) is not v:
                    ch.append(("a", r, nm))
        return ch

    def loc_get(self, st, loc):
        if loc[0] == "l":
            return st.locals.get(loc[1], UNDEF)
        if loc[0] == "c":
            return self.obj(st, loc[1]).term
        if loc[0] == "e":
            return elements(self.obj(st, loc[1]).term)[loc[2]]
        o = self.obj(st, loc[1])
        v = o.attrs.get(loc[2])
        if v is None:
            v = mk("attr", self.ident(st, loc[1]), loc[2])
        return v

    def _loc_start(self, st, loc):
        v = self.loc_get(st, loc)
        while v.op == "ref":
            v = self.obj(st, v).term
        return v

    def loc_cls(self, st, loc):
        v = None
        if loc[0] == "l":
            v = st.locals.get(loc[1])
        elif loc[0] == "a":
            v = self.obj(st, loc[1]).attrs.get(loc[2])
        if v is not None and v.op == "ref":
            return self.obj(st, v).cls
        return None

    def loc_set(self, st, loc, v, wrap=False, cls=None):
        if loc[0] == "c":
            o = self.obj(st, loc[1])
            st.store[loc[1]] = Obj(v, dict(o.attrs), o.cls)
            return
        if wrap or cls is not None or kind(v) in ("seq", "map"):
            v = self.alloc(st, v, cls)
        if loc[0] == "e":
            o = self.obj(st, loc[1])
            st.store[loc[1]] = Obj(tm.mset(o.term, (mk("set", loc[2], v),)), dict(o.attrs), o.cls)
        elif loc[0] == "l":
            st.locals[loc[1]] = v
        else:
            o = self.obj(st, loc[1])
            at = dict(o.attrs)
            at[loc[2]] = v
            st.store[loc[1]] = Obj(o.term, at, o.cls)
        return v if v.op == "ref" else None

    def loop(self, n, elem, bind, body, st, fr, cond=None):
        idx = fresh("i")
        carried = []
        whole = set()
        for attempt in range(6):
            x = st.copy()
            phis = {}
            lv = {idx}
            for loc in carried:
                f = fresh(tm.phitag(self._loc_start(st, loc)))
                phis[loc] = f
                lv.add(f)
                w = self.loc_set(x, loc, f, wrap=True, cls=self.loc_cls(st, loc))
                if w is not None:
                    lv.add(w)
            lv = frozenset(lv)
            base = x.copy()
            mark = len(fr.exits)
            cnd = None
            if cond is not None:
                cnd = cond(x)
            if bind is not None:
                bind(self.force(x, elem(idx)), x)
            end = body(x)
            exits = fr.exits[mark:]
            del fr.exits[mark:]
            wiped = [r for r, o in st.store.items() if o.attrs and any(
                s.store.get(r) is not None and not set(o.attrs) <= set(s.store[r].attrs) for s in
                ([end] if end is not None else []) + [e.state for e in exits if e.kind == "continue"])]
            if wiped:
                # attributes assigned before the loop may be overwritten in it by name
                for r in wiped:
                    o = st.store[r]
                    st.store[r] = Obj(self.res(st, r), {}, o.cls)
                continue
            brk = []
            for e in exits:
                if e.kind == "continue":
                    if end is None:
                        end = e.state
                        end.guard = e.guard
                    else:
                        g = bor(e.guard, end.guard)
                        end, _ = self.merge(e.guard, e.state, end)
                        end.guard = g
                else:
                    brk.append(e)
            changed = set()
            if end is not None:
                for loc in self.snapshot_diff(base, end, lv):
                    changed.add(loc)
            for e in brk:
                pass
            new = []
            drop = set()
            for c in changed:
                if c[0] == "c" and c not in phis and c[1] not in whole:
                    ea, eb = elements(self.obj(base, c[1]).term), elements(self.obj(end, c[1]).term)
                    if ea is not None and eb is not None and set(ea) == set(eb):
                        new.extend(("e", c[1], k) for k in ea if ea[k] is not eb[k] and ("e", c[1], k) not in phis)
                        continue
                    whole.add(c[1])
                    drop |= {l for l in carried if l[0] == "e" and l[1] is c[1]}
                if c not in phis:
                    new.append(c)
            if drop:
                carried = [l for l in carried if l not in drop]
            if not new:
                break
            carried = carried + new
        else:
            raise Unsupported("loop effects do not stabilise")
        # drop carried locations that turned out unchanged
        sysm = []
        resolved = {}
        for loc in carried:
            x0 = self.loc_get(st, loc)
            x0 = self.val(st, x0) if x0 is not UNDEF else UNDEF
            b = self.loc_get(end, loc) if end is not None else phis[loc]
            b = self.val(end, b) if end is not None else b
            sysm.append((loc, x0, phis[loc], b))
        # the last element of a list that grows by one every iteration is a variable of its own
        for loc, x0, p, b in list(sysm):
            if x0 is UNDEF or not (b.op == "seq" and b.a[0] == "list" and b.a[1][0] is sp(p) and b.a[1][-1].op == "it"):
                continue
            lastp = mk("getitem", p, const(-1))
            if not any(tm.occurs(lastp, e[3]) for e in sysm):
                continue
            q = fresh(tm.phitag(getitem(x0, const(-1))))
            m = {lastp: q}
            sysm = [(l, i0, pp, tm._subst(bb, m, frozenset((p,)), {})) for l, i0, pp, bb in sysm]
            v = tm._subst(b.a[1][-1].a[0], m, frozenset((p,)), {})
            sysm.append((("x", q), getitem(x0, const(-1)), q, v))
        return self.close_loop(n, idx, sysm, st, fr, brk, end, cnd)

    def close_loop(self, n, idx, sysm, st, fr, brk, end, cnd):
        phiset = {p for _, _, p, _ in sysm}
        partial = {}      # phi -> closed form at iteration idx
        final = {}
        pending = list(sysm)
        count = [n]

        def depends(t, excl=()):
            return any((f in t.fv) for f in phiset if f not in partial and f not in excl)

        def inst(t):
            return subst(t, partial) if partial else t

        progress = True
        late = []
        while pending and progress:
            progress = False
            rest = []
            for (loc, x0, p, b) in pending:
                b = inst(b)
                if b is p:
                    partial[p] = x0
                    final[loc] = ("const", x0)
                    progress = True
                    continue
                others = any(f in b.fv for f in phiset if f is not p and f not in partial)
                if others:
                    rest.append((loc, x0, p, b))
                    continue
                if p not in b.fv:
                    prev = subst(b, {idx: sub(idx, ONE)})
                    partial[p] = prev if x0 is UNDEF else ite(tm.c_eqz(idx), x0, prev)
                    final[loc] = ("last", x0, b)
                    progress = True
                    continue
                g = split_growth(b, p)
                if g is not None:
                    partial[p] = grow(x0, g, idx, idx)
                    final[loc] = ("grow", x0, g)
                    progress = True
                    continue
                b2 = own_element(b, p, x0, idx)
                g = split_growth(b2, p) if b2 is not None else None
                if g is not None:
                    partial[p] = grow(x0, g, idx, idx)
                    final[loc] = ("grow", x0, g)
                    progress = True
                    continue
                g = latch(b, p, x0, idx)
                if g is not None:
                    c, k = g
                    partial[p] = ite(tm.exists(idx, close(c, (idx,))), k, x0)
                    final[loc] = ("latch", x0, c, k)
                    progress = True
                    continue
                rest.append((loc, x0, p, b))
            pending = rest
            if pending and not progress:
                # strongly connected remainder -> joint recurrence
                # pick the set of phis that is closed under dependency and minimal
                comp = self._mu_component(pending, phiset, partial)
                self._close_mu(comp, idx, partial, final)
                pending = [e for e in pending if e[0] not in final]
                progress = True
        # iteration count of a while loop
        if cnd is not None:
            c = inst(cnd)
            n = while_count(c, idx)
        # exits inside the loop
        G = FALSE
        ex = []
        for e in brk:
            g = inst(self.val(e.state, e.guard))
            G = bor(G, g)
            ex.append((e, g))
        out = st.copy(st.guard)
        fin = {}
        for loc, x0, p, b in sysm:
            kindf = final[loc]
            fin[loc] = self._finalize(kindf, n, idx, partial)
        for loc, x0, p, b in sysm:
            if loc[0] == "x":
                continue
            self.loc_set(out, loc, fin[loc], cls=self.loc_cls(end, loc) if end is not None else None)
        if not ex:
            if end is None:
                # body never completes: at most one iteration, no exits (cannot happen)
                return out
            return out
        if n.op == "wcount" and n.a[0].op == "abs" and n.a[0].a[1] is TRUE and idx in G.fv:
            # while True: leaves where the first exit condition holds (termination is assumed)
            anyx = TRUE
            first = mk("wcount", close(bnot(G), (idx,)))
        else:
            anyx = tm.exists(n, close(G, (idx,)))
            first = mk("first", n, close(G, (idx,))) if idx in G.fv else ZERO
        brk_states = []
        # at the first leaving iteration one of the (disjoint) exit guards holds: the last in a fixed order is implied
        implied = max(ex, key=lambda eg: (tm.show(eg[1], 8), eg[0].kind))[0] if len(ex) > 1 else None
        at_first = {id(e): subst(subst(g, partial), {idx: first}) for e, g in ex}
        for e, g in ex:
            gi = at_first[id(e)]
            if e is implied:
                gi = TRUE
                for e2, _ in ex:
                    if e2 is not e:
                        gi = band(gi, bnot(at_first[id(e2)]))
            s2 = self._subst_state(e.state, partial, idx, first)
            guard = band(anyx, gi)
            v = e.value
            v = subst(subst(self.val(e.state, v), partial), {idx: first}) if e.kind == "return" else v
            if e.kind == "return":
                # only one exit kind: guard of the exit is the existence itself
                fr.exits.append(Exit("return", band(st.guard, guard if len(ex) > 1 else anyx), v, s2))
            elif e.kind == "raise":
                fr.exits.append(Exit("raise", band(st.guard, guard if len(ex) > 1 else anyx), v, s2))
            elif e.kind == "break":
                brk_states.append((guard if len(ex) > 1 else anyx, s2))
            else:
                raise Unsupported("exit kind")
        non_break = FALSE
        for e, g in ex:
            if e.kind != "break":
                non_break = TRUE
        if end is None and not brk_states and n is not None:
            # every iteration leaves the function: falls through only when empty
            out.guard = band(st.guard, bnot(anyx))
            return out
        live = bnot(anyx)
        if not brk_states:
            out.guard = band(st.guard, live)
            return out
        g0 = st.guard
        if non_break is TRUE:
            lg = live
            for g, s2 in brk_states:
                lg = bor(lg, g)
        else:
            lg = TRUE
        for g, s2 in brk_states:
            out2, _ = self.merge(g, s2, out)
            out = out2
        out.guard = band(g0, lg)
        return out

    def _subst_state(self, s, partial, idx, first):
        out = State({}, {}, TRUE)
        m = {}

        def f(t):
            return subst(subst(t, partial), {idx: first})
        lv = frozenset([idx])
        own = {}
        for r, o in s.store.items():
            if REFINFO[r][0] != "new" and not o.attrs and self.loop_local(r, lv) and o.term is self.default_obj(r).term:
                own[r] = o.term     # only read, and its identity belongs to the iteration

        def v_(t):
            return f(self.val(s, t) if t in own else t)
        for r, o in s.store.items():
            if r not in own:
                out.store[r] = Obj(f(o.term), {k: v_(v) for k, v in o.attrs.items()}, o.cls)
        for k, v in s.locals.items():
            out.locals[k] = v_(v)
        return out

    def _finalize(self, kf, n, idx, partial):
        if kf[0] == "const":
            return kf[1]
        if kf[0] == "last":
            x0, b = kf[1], kf[2]
            last = subst(b, {idx: sub(n, ONE)})
            return last if x0 is UNDEF else ite(tm.c_eqz(n), x0, last)
        if kf[0] == "grow":
            return grow(kf[1], kf[2], n, idx)
        if kf[0] == "latch":
            return ite(tm.exists(n, close(kf[2], (idx,))), kf[3], kf[1])
        if kf[0] == "mu":
            _, j, inits, ab = kf
            return mk("mu", j, n, inits, ab)
        raise Unsupported("finalize")

    def _mu_component(self, pending, phiset, partial):
        deps = {}
        byphi = {p: e for e in pending for p in (e[2],)}
        for e in pending:
            deps[e[2]] = {f for f in e[3].fv if f in byphi}
        # transitive closure, choose smallest closed set
        best = None
        for p in byphi:
            seen = set()
            stack = [p]
            while stack:
                q = stack.pop()
                if q in seen:
                    continue
                seen.add(q)
                stack.extend(deps[q])
            if best is None or len(seen) < len(best):
                best = seen
        return [byphi[p] for p in best]

    def _close_mu(self, comp, idx, partial, final):
        mask = mk("fv", 0, "mask", ())
        allphi = [e[2] for e in comp]
        mm = {p: mask for p in allphi}
        mm[idx] = mask

        def order(e):
            return (tm.show(e[1], 6), tm.show(subst(subst(e[3], partial), mm), 6))
        keyed = sorted(comp, key=order)
        phis = [e[2] for e in keyed]
        bodies = tuple(subst(e[3], {p: partial[p] for p in partial}) for e in keyed)
        ab = close(mk("segs", *bodies), tuple([idx] + phis))
        inits = tuple(e[1] for e in keyed)
        for j, e in enumerate(keyed):
            partial[e[2]] = mk("mu", j, idx, inits, ab)
            final[e[0]] = ("mu", j, inits, ab)

    # ----------------------------------------------------------- try / with
    def s_With(self, s, st, fr):
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and \
                ast.unparse(s.items[0].context_expr.func) in ("suppress", "contextlib.suppress"):
            c = s.items[0].context_expr
            t = c.args[0] if len(c.args) == 1 else ast.Tuple(c.args, ast.Load())
            new = self.desugared.get(id(s))
            if new is None:
                new = self.desugared[id(s)] = ast.Try(s.body, [ast.ExceptHandler(t, None, [ast.Pass()])], [], [])
            return self.s_Try(new, st, fr)
        for i in s.items:
            v = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("enter", self.argval(st, v)), st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        ordn = self.trykeys.get(id(s))
        if ordn is None:
            names = " ".join(sorted({ast.unparse(n.func).split(".")[-1] for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call)} - NO_RAISE))
            ordn = "%s #%d" % (names, sum(1 for v in self.trykeys.values() if v.rsplit(" #", 1)[0] == names))
            self.trykeys[id(s)] = ordn
        pre = st.copy()
        g0 = st.guard
        mark = len(fr.exits)
        st.guard = TRUE
        outer, self.trylog = self.trylog, []
        end = self.block(s.body, st, fr)
        log, self.trylog = self.trylog, outer
        seen = set()
        log = [x for x in log if not (x in seen or seen.add(x))]
        exits = fr.exits[mark:]
        del fr.exits[mark:]
        if end is not None and s.orelse:
            end = self.block(s.orelse, end, fr)
            exits += fr.exits[mark:]
            del fr.exits[mark:]
        keep, caught = [], []
        names = []
        for h in s.handlers:
            names.append("*" if h.type is None else ast.unparse(h.type))
        for e in exits:
            if e.kind == "raise" and s.handlers and ("*" in names or "Exception" in names or any(e.value.a[1] in nm for nm in names)):
                caught.append(e)
            else:
                keep.append(e)
        results = []
        for h, nm in zip(s.handlers, names):
            hs = pre.copy()
            if h.name:
                hs.locals[h.name] = mk("excval", nm)
            c = mk("ite", mk("exc", nm, tuple(log) if log else ordn), TRUE, FALSE)
            if nm == "ValueError" and len(log) == 1 and log[0].op == "mcall" and log[0].a[1] == "index" and len(log[0].a[2]) == 1:
                c = bnot(tm.c_in(log[0].a[2][0], log[0].a[0]))
            hend = self.block(h.body, hs, fr)
            hex_ = fr.exits[mark:]
            del fr.exits[mark:]
            for e in hex_:
                e.guard = band(c, e.guard)
            for e in keep:
                e.guard = band(bnot(c), e.guard)
            keep.extend(hex_)
            results.append((c, hend))
        cur = end
        for c, hend in reversed(results):
            if hend is None:
                if cur is not None:
                    cur.guard = band(bnot(c), cur.guard)
                continue
            if cur is None:
                cur = hend
                cur.guard = band(c, cur.guard)
                continue
            g = ite(c, hend.guard, cur.guard)
            cur, _ = self.merge(c, hend, cur)
            cur.guard = g
        if s.finalbody:
            if cur is not None:
                g = cur.guard
                cur.guard = TRUE
                cur = self.block(s.finalbody, cur, fr)
                if cur is not None:
                    cur.guard = band(g, cur.guard)
            for e in keep:
                g = e.guard
                e.state.guard = TRUE
                st2 = self.block(s.finalbody, e.state, fr)
                if st2 is not None:
                    e.state = st2
                e.guard = g
        for e in keep:
            e.guard = band(g0, e.guard)
        fr.exits.extend(keep)
        if cur is None:
            return None
        cur.guard = band(g0, cur.guard)
        return cur

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, fr)

    def evv(self, e, st, fr):
        return self.val(st, self.ev(e, st, fr))

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr)

    def name(self, nm, st, fr):
        if nm in st.locals:
            return self.force(st, st.locals[nm])
        if nm in fr.closure:
            return fr.closure[nm]
        return self.global_value(nm, fr.module, st, fr)

    def global_value(self, nm, module, st, fr):
        r = self.repo.lookup(module, nm) if module is not None else None
        if r is None:
            if nm in _BUILTINS:
                if nm == "None":
                    return NONE
                return mk("glob", "builtins." + nm)
            if self.spec is not None:
                h = self.spec.helper(nm)
                if h is not None:
                    return mk("glob", "spec:" + nm)
            return mk("glob", "?" + nm)
        return self.entity(r)

    def qual_value(self, q):
        return self.entity(self.repo.resolve_qual(q))

    def entity(self, r):
        k, x = r
        if k == "class":
            return mk("glob", x.qual)
        if k == "func" or k == "method":
            return mk("glob", x.qual)
        if k == "module":
            return mk("glob", x)
        if k == "const":
            m, nm = x
            v = m.consts[nm]
            if nm not in m.multi:
                cv = _literal(v)
                if cv is not None:
                    return cv
                # alias of another entity / call such as float("inf")
                if isinstance(v, (ast.Name, ast.Attribute)):
                    rr = self.repo._resolve_expr(m, v)
                    if rr is not None:
                        return self.entity(rr)
            return mk("glob", m.name + "." + nm)
        if k == "classattr":
            ci, nm = x
            return mk("attr", mk("glob", ci.qual), nm)
        if k == "ext":
            return ext_glob(x)
        return mk("glob", "?")

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        if e.attr == "nz":
            # the variables of a model are dense vectors of symbols
            v = self.val(st, base)
            if v.op == "attr" and v.a[1] in ("x", "y", "u", "p", "theta") and v.a[0].op == "attr" and v.a[0].a[1] == "model":
                return seq("list", (tm.for_(mcall(v, "numel", (), ()), mk("abs", 1, mk("segs", it(getitem(tm.shift_up(v, 1), mk("bv", 0, 0, "i")))))),))
        return self.read_attr(st, base, e.attr, fr)

    def cls_of(self, st, v):
        if v.op == "ref":
            return self.obj(st, v).cls
        return None

    def read_attr(self, st, base, nm, fr):
        base = self.force(st, base)
        if base.op == "glob":
            q = base.a[0]
            r = self.repo.resolve_qual(q)
            if r[0] == "module":
                return self.qual_value(q + "." + nm)
            if r[0] == "class":
                f = self.repo.find_method(r[1], nm)
                if f is not None:
                    return mk("glob", f.qual)
                return mk("attr", base, nm)
            if r[0] == "ext" and not q.startswith("builtins."):
                return ext_glob(q + "." + nm)
            return self.wrap_attr(st, base, nm, None)
        if base.op == "super":
            ci = self.repo.resolve_qual(base.a[0])[1]
            f = self.repo.find_method(fr.selfcls, nm, after=ci)
            if f is not None and f.kind != "property":
                return mk("bound", base, nm)
            raise Unsupported("super attribute")
        if base.op == "ref":
            o = self.obj(st, base)
            if nm in o.attrs:
                return self.force(st, o.attrs[nm])
            if o.cls is not None:
                f = self.repo.find_method(o.cls, nm)
                if f is not None and f.kind == "property":
                    if self.may_inline(f, self.is_self(fr, base), o.cls):
                        return self.invoke(f, [base], {}, st, fr, selfcls=o.cls)
                    return self.wrap_attr(st, base, nm, self.attr_cls(o.cls, nm))
                if f is not None:
                    return mk("bound", base, nm)
            if o.term.op == "ite" and not o.attrs and len(tm._leaves(o.term)) <= 4 and o.cls is None:
                t = self.val(st, base)
                return self.attr_term(t, nm)
            return self.wrap_attr(st, base, nm, self.attr_cls(o.cls, nm))
        if base.op == "bound":
            return mk("attr", self.val(st, base), nm)
        t = self.val(st, base)
        if t.op in ("ite", "objw"):
            return self.attr_term(t, nm)
        return self.wrap_attr(st, base, nm, self.attr_cls(None, nm))

    def attr_term(self, t, nm):
        if t.op == "ite" and len(tm._leaves(t)) <= 4:
            return ite(tm._c(t.a[0]), self.attr_term(t.a[1], nm), self.attr_term(t.a[2], nm))
        if t.op == "objw":
            for k, v in t.a[1]:
                if k == nm:
                    return v
            return self.attr_term(t.a[0], nm)
        if t is NONE:
            return mk("attr", t, nm)
        return mk("attr", t, nm)

    def attr_cls(self, cls, nm):
        if cls is not None:
            for c in self.repo.mro(cls):
                q = self.attr_types.get((c.name, nm))
                if q:
                    return self.repo.find_class(q)
        q = self.attr_types.get((None, nm))
        return self.repo.find_class(q) if q else None

    def wrap_attr(self, st, base, nm, cls):
        bt = self.ident(st, base)
        if bt.op == "objw":
            bt = bt.a[0]
        key = ("attr", base if base.op == "ref" else None, bt, nm)
        r = self.refmemo.get(key)
        if r is None:
            r = newref(("attr", bt, nm, cls, base if base.op == "ref" else None))
            self.refmemo[key] = r
        if r not in st.store:
            st.store[r] = Obj(attr_default(bt, nm), {}, cls)
        return r

    def is_self(self, fr, base):
        f = fr
        while f is not None:
            if f.selfname is not None and getattr(f, "selfref", None) is base:
                return True
            f = None
        return REFINFO.get(base, (None,))[0] == "named" and REFINFO[base][1] == ("param", "self")

    def lvalue(self, e, st, fr):
        """evaluate an expression as an object that is about to be modified"""
        v = self.ev(e, st, fr)
        if v.op == "ref":
            return v
        if v.op == "glob":
            return self.named_ref(("glob", v.a[0]), v)
        if isinstance(e, ast.Subscript):
            b = self.lvalue(e.value, st, fr)
            return self.item_ref(st, b, self.val(st, self.index(e.slice, st, fr)))
        if v.op == "ite":
            if any(x.op == "ref" for x in tm._leaves(v, lim=64)):
                raise Unsupported("update of a conditionally chosen object at line %d" % e.lineno)
        r = isinstance(e, ast.Name) and self.aliased(e.id, st, fr) or self.alloc(st, v, None, self.val(st, v))
        if isinstance(e, ast.Name):
            st.locals[e.id] = r
        return r

    def write_attr(self, st, base, nm, v, fr):
        if base.op != "ref":
            return
        self.note_store(st, base, nm, v)
        o = self.obj(st, base)
        if o.cls is not None:
            f = self.repo.find_method(o.cls, nm, table="setters")
            if f is not None:
                if self.may_inline(f, self.is_self(fr, base), o.cls):
                    self.invoke(f, [base, v], {}, st, fr, selfcls=o.cls)
                    return
        if v.op == "lam" or v.op == "clo":
            v = self.val(st, v)
        if base in CHOICE:
            self._through(st, base, lambda x, g: self._cond_write_attr(st, x, nm, v, g, fr))
        at = dict(o.attrs)
        at[nm] = v
        st.store[base] = Obj(o.term, at, o.cls)
        if self._root(base) in ("item", "new") or not self._stable(base):
            self.touch(st, base)

    def _cond_write_attr(self, st, x, nm, v, g, fr):
        old = self.val(st, self.read_attr(st, x, nm, fr))
        self.write_attr(st, x, nm, ite(g, self.val(st, v), old), fr)

    def write_item(self, st, base, k, v, fr):
        o = self.obj(st, base)
        if o.cls is not None:
            f = self.repo.find_method(o.cls, "__setitem__")
            if f is not None:
                self.invoke(f, [base, k, v], {}, st, fr, selfcls=o.cls)
                return
        kk = self.val(st, k)
        if v.op == "clo":
            v = self.val(st, v)
        self.set_content(st, base, tm.mset(o.term, (mk("set", kk, v),)))

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        k = self.index(e.slice, st, fr)
        return self.subscript(st, base, k, fr)

    def index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return mk("slice", self.evv(s.lower, st, fr) if s.lower else NONE,
                      self.evv(s.upper, st, fr) if s.upper else NONE,
                      self.evv(s.step, st, fr) if s.step else NONE)
        if isinstance(s, ast.Tuple):
            return seq("tuple", [it(self.index(x, st, fr)) for x in s.elts])
        return self.evv(s, st, fr)

    def subscript(self, st, base, k, fr):
        base = self.force(st, base)
        k = self.val(st, k)
        if base.op == "ref":
            o = self.obj(st, base)
            if o.cls is not None:
                f = self.repo.find_method(o.cls, "__getitem__") if fr is not None else None
                if f is not None:
                    return self.invoke(f, [base, k], {}, st, fr, selfcls=o.cls)
            raw = o.term
            g = getitem(raw, k)
            if g.op == "ref":
                return g
            if g.op == "getitem" and k.op != "slice":
                rb = self.res(st, raw)
                g2 = getitem(rb, k) if rb is not raw else g
                if g2.op == "getitem":
                    cls = self.item_cls(st, base)
                    key = ("item", base, g2)
                    r = self.refmemo.get(key)
                    if r is None:
                        r = newref(("item", base, g2.a[0], g2.a[1], cls))
                        self.refmemo[key] = r
                    if r not in st.store:
                        st.store[r] = Obj(g2, {}, cls)
                    return r
                return g2
            if k.op != "slice" and (g.op in ("map", "emptydict") or g.op == "seq" and g.a[0] == "list"):
                return self.item_ref(st, base, k)
            return g
        if base.op == "seq":
            g = getitem(base, k)
            if g.op == "ref":
                return g
            if g.op == "lazyitem":
                return self.force(st, g)
            if g.op in ("bound", "clo"):
                return g
        return getitem(self.val(st, base), k)

    def item_ref(self, st, base, k):
        g = mk("getitem", self.res(st, self.obj(st, base).term), k)
        key = ("item", base, g)
        r = self.refmemo.get(key)
        if r is None:
            r = newref(("item", base, g.a[0], g.a[1], self.item_cls(st, base)))
            self.refmemo[key] = r
        if r not in st.store:
            st.store[r] = Obj(getitem(*g.a), {}, self.item_cls(st, base))
        return r

    def item_cls(self, st, base):
        info = REFINFO.get(base)
        if info and info[0] == "attr":
            q = self.attr_types.get(("[]", info[2]))
            return self.repo.find_class(q) if q else None
        if info and info[0] == "named" and info[1][0] == "param":
            q = self.attr_types.get(("[]", info[1][1]))
            return self.repo.find_class(q) if q else None
        return None

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, self.val(st, a), self.val(st, b))

    def binop(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "BitOr" and kind(a) == "map" and kind(b) == "map":
            return tm.mset(a, (mk("msplice", b),))
        if op == "BitOr" and tm.is_set(a) and tm.is_set(b):
            return seq_union(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return tm.power(a, b)
        if op == "FloorDiv":
            return tm.floordiv(a, b)
        if op == "Mod" and kind(a) == "str":
            args = [s.a[0] for s in b.a[1]] if b.op == "seq" and b.a[0] == "tuple" else [b]
            return percent_format(a, args)
        if op == "MatMult":
            return ext_call("casadi.mtimes", (a, b), ())
        if op in ("BitAnd", "BitOr") and a.k > b.k:
            a, b = b, a
        return mk("bin", op, a, b)

    def e_UnaryOp(self, e, st, fr):
        v = self.evv(e.operand, st, fr)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return bnot(truth(v))
        return mk("un", type(e.op).__name__, v)

    def e_BoolOp(self, e, st, fr):
        vals = e.values
        cur = self.ev(vals[0], st, fr)
        for nx in vals[1:]:
            c = truth(self.val(st, cur))
            if not isinstance(e.op, ast.And):
                c = bnot(c)
            if c is FALSE:
                continue
            if c is TRUE:
                cur = self.ev(nx, st, fr)
                continue
            cur = self.cond_eval(c, st, fr, lambda x, nx=nx: self.ev(nx, x, fr), lambda x, cur=cur: cur,
                                 boolish=True)
        return cur

    def cond_eval(self, c, st, fr, ft, ff, boolish=False):
        box = {}

        def t(x):
            box["t"] = ft(x)
            return x

        def f(x):
            box["f"] = ff(x)
            return x
        g0 = st.guard
        a = st.copy()
        b = st.copy()
        mark = len(fr.exits)
        t(a)
        for e in fr.exits[mark:]:
            e.guard = band(g0, band(c, e.guard))
        m2 = len(fr.exits)
        f(b)
        for e in fr.exits[m2:]:
            e.guard = band(g0, band(bnot(c), e.guard))
        ga, gb = a.guard, b.guard
        r, v = self.merge(c, a, b, box["t"], box["f"])
        st.locals = r.locals
        st.store = r.store
        st.guard = band(g0, ite(c, ga, gb))
        return v

    def e_IfExp(self, e, st, fr):
        c = truth(self.evv(e.test, st, fr))
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        return self.cond_eval(c, st, fr, lambda x: self.ev(e.body, x, fr), lambda x: self.ev(e.orelse, x, fr))

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            v = self.compare(type(op).__name__, left, right, st)
            res = v if res is None else band(truth(res), truth(v))
            left = right
        return res

    def compare(self, op, l, r, st):
        if op in ("Is", "IsNot"):
            if l.op == "ref" and l is r:
                c = TRUE
            else:
                a, b = self.argval(st, l), self.argval(st, r)
                if a is NONE or b is NONE:
                    c = tm.c_isnone(b if a is NONE else a)
                elif tm.is_const(a) and tm.is_const(b):
                    c = TRUE if a is b else FALSE
                else:
                    x, y = (a, b) if a.k <= b.k else (b, a)
                    c = TRUE if (x is y and False) else tm.atom("is", x, y)
            return bnot(c) if op == "IsNot" else c
        a, b = self.argval(st, l), self.argval(st, r)
        if op == "In":
            return tm.c_in(a, b)
        if op == "NotIn":
            return bnot(tm.c_in(a, b))
        if op == "Eq":
            if a is NONE or b is NONE or (tm.is_const(a) and tm.is_const(b)):
                return tm.c_eq(a, b)
            if a.k > b.k:
                a, b = b, a
            if tm.is_int(a) and tm.is_int(b):
                return tm.c_eq(a, b)
            return mk("veq", a, b)
        if op == "NotEq":
            if a is NONE or b is NONE or (tm.is_const(a) and tm.is_const(b)):
                return bnot(tm.c_eq(a, b))
            if a.k > b.k:
                a, b = b, a
            if tm.is_int(a) and tm.is_int(b):
                return bnot(tm.c_eq(a, b))
            return mk("vne", a, b)
        ints = tm.is_int(a) and tm.is_int(b)
        if op == "Lt":
            return tm.c_lt(a, b) if ints else mk("vlt", a, b)
        if op == "Gt":
            return tm.c_lt(b, a) if ints else mk("vlt", b, a)
        if op == "LtE":
            return tm.c_le(a, b) if ints else mk("vle", a, b)
        if op == "GtE":
            return tm.c_le(b, a) if ints else mk("vle", b, a)
        raise Unsupported("compare")

    def e_Tuple(self, e, st, fr):
        return self._lit("tuple", e.elts, st, fr)

    def e_List(self, e, st, fr):
        return self.alloc(st, self._lit("list", e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.alloc(st, self._lit("set", e.elts, st, fr))

    def _lit(self, kd, elts, st, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.append(sp(self.unref_seq(st, self.ev(x.value, st, fr))))
            else:
                v = self.ev(x, st, fr)
                segs.append(it(v))
        return seq(kd, segs)

    def unref_seq(self, st, v):
        """content of a sequence value, keeping element references"""
        v = self.force(st, v)
        if v.op == "ref":
            o = self.obj(st, v)
            if o.term.op == "seq":
                return o.term
            return self.val(st, v)
        return v

    def e_Dict(self, e, st, fr):
        ups = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                ups.append(mk("msplice", self.evv(v, st, fr)))
            else:
                kk = self.evv(k, st, fr)
                vv = self.ev(v, st, fr)
                if vv.op == "clo":
                    vv = self.val(st, vv)
                ups.append(mk("set", kk, vv))
        return self.alloc(st, tm.mset(EMPTYDICT, ups))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evv(v.value, st, fr)
                if v.format_spec is not None:
                    parts.append(mk("fmt", x, ast.unparse(v.format_spec)))
                else:
                    parts.append(tostr(x))
        return strcat(*parts)

    def e_FormattedValue(self, e, st, fr):
        return tostr(self.evv(e.value, st, fr))

    def e_Starred(self, e, st, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        cur = self.obj(st, fr.genref).term
        self.set_content(st, fr.genref, seq("list", (sp(cur), it(v))))
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        cur = self.obj(st, fr.genref).term
        self.set_content(st, fr.genref, seq("list", (sp(cur), sp(self.unref_seq(st, v)))))
        return NONE

    def e_Lambda(self, e, st, fr):
        return self.make_closure(e, st, fr)

    def make_closure(self, node, st, fr):
        uid = len(self.closures) + 1
        self.closures[uid] = (node, fr, dict(fr.closure), dict(st.locals))
        return mk("clo", uid, id(self))

    def clo_term(self, t, st):
        node, fr, clo, loc = self.closures[t.a[0]]
        args = node.args
        names = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if args.vararg:
            names.append(args.vararg.arg)
        if args.kwarg:
            names.append(args.kwarg.arg)
        fvs = [fresh("arg") for _ in names]
        if len(self.callstack) > INLINE_DEPTH:
            return mk("lamdeep")
        self.callstack.append("<lambda>")
        try:
            s2 = State(dict(zip(names, fvs)), dict(st.store), TRUE)
            fr2 = self._closure_frame(node, fr, clo, loc, st)
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, s2, fr2)
                out = self.val(s2, v)
            else:
                e2, v = self.run_body(fr2, s2, node)
                out = self.val(e2, v) if e2 is not None else mk("noreturn")
        finally:
            self.callstack.pop()
        return mk("lam", close(out, tuple(fvs))) if fvs else mk("lam", out)

    def _closure_frame(self, node, fr, clo, loc, st):
        fr2 = Frame(fr.fi, fr.module, fr.cls, fr.selfcls, fr.depth + 1, fr)
        fr2.closure = dict(clo)
        fr2.closure.update(loc)
        return fr2

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, "set", st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def e_DictComp(self, e, st, fr):
        acc = self.alloc(st, EMPTYDICT)
        saved = dict(st.locals)

        def leaf(x):
            k = self.evv(e.key, x, fr)
            v = self.ev(e.value, x, fr)
            cur = self.obj(x, acc).term
            self.set_content(x, acc, tm.mset(cur, (mk("set", k, v),)))
            return x
        out = self.comp_loops(e.generators, leaf, st, fr)
        self._comp_finish(out, st, saved)
        return acc

    def comp(self, e, kd, st, fr):
        acc = self.alloc(st, seq(kd, ()))
        saved = dict(st.locals)

        def leaf(x):
            v = self.ev(e.elt, x, fr)
            cur = self.obj(x, acc).term
            self.set_content(x, acc, seq(kd, (sp(cur), it(v))) if cur.op == "seq" or kd == "list" else seq(kd, (sp(cur), it(v))))
            return x
        out = self.comp_loops(e.generators, leaf, st, fr)
        self._comp_finish(out, st, saved)
        return acc

    def _comp_finish(self, out, st, saved):
        if out is None:
            raise Unsupported("comprehension never completes")
        st.store = out.store
        st.guard = out.guard
        st.locals = saved

    def comp_loops(self, gens, leaf, st, fr):
        g = gens[0]
        rest = gens[1:]

        def body(x):
            def inner(y):
                if rest:
                    return self.comp_loops(rest, leaf, y, fr)
                return leaf(y)
            if not g.ifs:
                return inner(x)
            c = TRUE
            for f in g.ifs:
                c = band(c, truth(self.evv(f, x, fr)))
            if c is TRUE:
                return inner(x)
            if c is FALSE:
                return x
            return self.branch(c, x, fr, inner, lambda y: y)
        itv = self.ev(g.iter, st, fr)
        x = st.copy(st.guard)
        return self.iterate(itv, lambda el, s2: self.assign(g.target, el, s2, fr), body, x, fr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        r = self.e_Call_(e, st, fr)
        if self.trylog is not None:
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if nm not in NO_RAISE and nm not in tm.INT_METHODS:
                v = self.val(st, r)
                if v.op in ("call", "mcall"):
                    self.trylog.append(v)
        return r

    def e_Call_(self, e, st, fr):
        return self.call_expr(e, st, fr, stmt=False)

    def call_args(self, e, st, fr):
        args, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                u = self.unref_seq(st, v)
                if u.op == "seq" and all(s.op == "it" for s in u.a[1]):
                    args.extend(s.a[0] for s in u.a[1])
                else:
                    args.append(sp(self.val(st, u)))
            else:
                args.append(self.shared(a, st, fr))
        for k in e.keywords:
            v = self.shared(k.value, st, fr)
            if k.arg is None:
                t = self.val(st, v)
                raw = self.obj(st, v).term if v.op == "ref" else t
                if raw.op == "map" and raw.a[0] is EMPTYDICT and all(u.op == "set" and is_str(u.a[0]) for u in raw.a[1]):
                    for u in raw.a[1]:
                        kw.append((u.a[0].a[1], u.a[1]))
                elif raw is EMPTYDICT:
                    pass
                else:
                    kw.append((None, t))
            else:
                kw.append((k.arg, v))
        return args, kw

    def shared(self, a, st, fr):
        """value of an argument; a local holding an anonymous object gets an identity, so that a callee's updates reach it"""
        v = self.ev(a, st, fr)
        if isinstance(a, ast.Name) and a.id in st.locals and v is st.locals[a.id] and \
                v.op in ("seq", "map", "emptydict", "call", "mcall", "mres", "getitem", "obj", "objw", "poly", "ite", "new"):
            v = self.alloc(st, v, None, self.val(st, v))
            st.locals[a.id] = v
        return v

    def call_expr(self, e, st, fr, stmt):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Name, ast.Attribute)) and \
                _is_log(ast.unparse(e.func)):
            return NONE
        f = e.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super" and "super" not in st.locals:
            args, kw = self.call_args(e, st, fr)
            return self.super_call(f.attr, args, kw, st, fr, f.value)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Attribute) \
                and f.value.func.attr == "setdefault" and len(f.value.args) == 2 and not f.value.keywords and not isinstance(f.value.args[0], ast.Starred):
            # D.setdefault(k, v).m(...)  ==  D.setdefault(k, v); D[k].m(...)
            self.ev(f.value, st, fr)
            new = self.desugared.get(id(e))
            if new is None:
                sub = ast.copy_location(ast.Subscript(f.value.func.value, f.value.args[0], ast.Load()), f)
                new = self.desugared[id(e)] = ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(sub, f.attr, ast.Load()), f), e.args, e.keywords), e)
            return self.call_expr(new, st, fr, stmt)
        if isinstance(f, ast.Name) and f.id == "next" and f.id not in st.locals and 1 <= len(e.args) <= 2 and not e.keywords \
                and isinstance(e.args[0], ast.GeneratorExp):
            new = self.desugared.get(id(e))
            if new is None:
                g = e.args[0]
                body = [ast.Return(g.elt)]
                for c in reversed(g.generators):
                    for t in reversed(c.ifs):
                        body = [ast.If(t, body, [])]
                    body = [ast.For(c.target, c.iter, body, [])]
                body.append(ast.Return(e.args[1]) if len(e.args) == 2 else ast.Raise(ast.Name("StopIteration", ast.Load()), None))
                new = ast.FunctionDef("<next>", ast.arguments([], [], None, [], [], None, []), body, [])
                for n in ast.walk(new):
                    if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                        ast.copy_location(n, e)
                self.desugared[id(e)] = new
            return self.call_value(self.make_closure(new, st, fr), [], [], st, fr, False)
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st, fr)
            args, kw = self.call_args(e, st, fr)
            return self.method_call(base, f.attr, args, kw, st, fr, stmt, f.value)
        if isinstance(f, ast.Name) and f.id == "locals" or isinstance(f, ast.Name) and f.id in ("exec", "eval"):
            raise Unsupported(f.id)
        if isinstance(f, ast.Name) and f.id in ("filter", "map") and f.id not in st.locals and len(e.args) >= 2 and not e.keywords \
                and not any(isinstance(a, ast.Starred) for a in e.args) and (f.id == "map" or len(e.args) == 2):
            new = self.desugared.get(id(e))
            if new is None:
                new = self.desugared[id(e)] = _comprehension(e)
            return self.ev(new, st, fr)
        fv = self.ev(f, st, fr)
        args, kw = self.call_args(e, st, fr)
        return self.call_value(fv, args, kw, st, fr, stmt)

    def super_call(self, name, args, kw, st, fr, supercall):
        cls = fr.cls
        selfcls = fr.selfcls
        selfref = getattr(fr, "selfref", None)
        if selfref is None:
            selfref = self.refmemo.get(("param", "self"))
        if isinstance(supercall, ClassInfo):
            cls = supercall
        elif supercall.args:
            r = self.repo._resolve_expr(fr.module, supercall.args[0])
            if r and r[0] == "class":
                cls = r[1]
        if selfcls is None or cls is None:
            raise Unsupported("super outside class")
        f = self.repo.find_method(selfcls, name, after=cls)
        if f is None:
            if name == "__init__":
                return NONE
            # no further implementation in the package
            st_args = tuple(self.argval(st, a) for a in args)
            return mk("supercall", name, st_args)
        if not self.may_inline(f, True, selfcls, is_super=True):
            return self.opaque_method(selfref, f, name, args, kw, st, fr)
        return self.invoke(f, [selfref] + args, kw, st, fr, selfcls=selfcls)

    def overridden(self, f, cls):
        """does a subclass of cls provide another implementation?"""
        key = ("ovr", f.qual, cls.qual)
        if key in self.mutcache:
            return self.mutcache[key]
        r = False
        for m in self.repo.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.repo.mro(c):
                    g = self.repo.find_method(c, f.name)
                    if g is not None and g is not f:
                        r = True
        self.mutcache[key] = r
        return r

    def may_inline(self, f, on_self, cls, is_super=False):
        if len(self.callstack) > INLINE_DEPTH or self.callstack.count(f.qual) >= 2:
            return False
        ovr = False
        if not on_self and cls is not None and not is_super:
            ovr = self.overridden(f, cls)
        if _is_abstract(f):
            return False
        return self.policy.inline(f, on_self, ovr)

    def bind(self, f, args, kw, st, fr, skip_self=False):
        """bind call arguments to the callee's parameters -> dict name -> value (missing -> default expr)"""
        node = f.node
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            pos = pos[1:]
        out = {}
        rest = []
        if any(x.op == "sp" for x in args):
            # splat of unknown length: spread positionally
            flat = []
            for i, x in enumerate(args):
                if x.op == "sp":
                    npos = len(pos) - len(flat)
                    if a.vararg and npos <= 0:
                        flat.append(x)
                        continue
                    if x.a[0].op == "param" and a.vararg and i == len(args) - 1 and len(flat) >= len(pos):
                        flat.append(x)
                        continue
                    for j in range(max(npos, 0)):
                        flat.append(getitem(x.a[0], const(j)))
                else:
                    flat.append(x)
            args = flat
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        unk = []
        for k, v in kw.items() if isinstance(kw, dict) else kw:
            if k is None:
                unk.append(v)
            elif k in pos or k in kwonly:
                out[k] = v
            else:
                extra.append((k, v))
        nd = len(a.defaults)
        allpos = a.posonlyargs + a.args
        defaults = {}
        for i, x in enumerate(allpos):
            j = i - (len(allpos) - nd)
            if j >= 0:
                defaults[x.arg] = a.defaults[j]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        dfr = Frame(f, f.module, f.cls, None, 0)
        for nm in pos + kwonly:
            if nm in out:
                continue
            if nm in defaults:
                dv = self.default_value(f, defaults[nm], st, dfr)
            else:
                dv = UNDEF
            for u in unk:
                key = const(nm)
                dv0 = self.val(st, dv) if dv is not UNDEF else UNDEF
                present = tm.c_in(key, u)
                g = getitem(u, key)
                dv = ite(present, g, dv0) if dv is not UNDEF else g
            out[nm] = dv
        if a.vararg:
            segs = [x if x.op == "sp" else it(x) for x in rest]
            out[a.vararg.arg] = seq("tuple", segs)
        elif rest:
            raise Unsupported("too many arguments for %s" % f.qual)
        if a.kwarg:
            cur = EMPTYDICT
            for u in unk:
                if cur is EMPTYDICT and not (pos or kwonly):
                    cur = u
                else:
                    dels = tuple(mk("del", const(nm)) for nm in sorted(set(pos + kwonly)))
                    cur = tm.mset(cur if cur is not EMPTYDICT else u, dels if cur is EMPTYDICT else (mk("msplice", u),))
            ups = [mk("set", const(k), v) for k, v in extra]
            out[a.kwarg.arg] = tm.mset(cur, ups)
        elif extra:
            raise Unsupported("unknown keyword for %s: %s" % (f.qual, extra[0][0]))
        return out

    def default_value(self, f, expr, st, dfr):
        return self.ev(expr, st, dfr)

    def invoke(self, f, args, kw, st, fr, selfcls=None):
        """expand a repository function at the call"""
        if len(self.callstack) > INLINE_DEPTH:
            raise Unsupported("inline depth")
        self.inlined.add(f.qual)
        if isinstance(kw, list):
            kw = kw
        is_method = f.cls is not None and f.kind not in ("static",)
        bound = self.bind(f, args[1:] if is_method else args, kw, st, fr, skip_self=is_method)
        node = f.node
        loc = {}
        fr2 = Frame(f, f.module, f.cls, selfcls, fr.depth + 1 if fr else 1)
        if is_method:
            pn = (node.args.posonlyargs + node.args.args)[0].arg
            loc[pn] = args[0]
            fr2.selfname = pn
            fr2.selfref = args[0]
        st2 = State(loc, dict(st.store), TRUE)
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if a.arg in bound:
                v = bound[a.arg]
                v = self.type_arg(v, a, f, st2)
                loc[a.arg] = v
        if node.args.vararg:
            loc[node.args.vararg.arg] = bound[node.args.vararg.arg]
        if node.args.kwarg:
            loc[node.args.kwarg.arg] = self.alloc(st2, bound[node.args.kwarg.arg])
        self.callstack.append(f.qual)
        try:
            end, ret = self.run_body(fr2, st2, node)
        finally:
            self.callstack.pop()
        return self._after_call(end, ret, fr2, st, fr)

    def type_arg(self, v, a, f, st2):
        """give an untyped value the class its annotation / name announces"""
        if v.op == "ref":
            return v
        if v.op in ("const", "poly", "clo", "lam", "glob", "undef", "seq"):
            return v
        cls = self.param_cls(a, f.module)
        if cls is None:
            return v
        r = newref(("new", None))
        st2.store[r] = Obj(v, {}, cls)
        return r

    def _after_call(self, end, ret, fr2, st, fr):
        g0 = st.guard
        live = TRUE
        for e in fr2.exits:
            if e.kind == "raise":
                s = e.state
                es = State(dict(st.locals), s.store, TRUE)
                fr.exits.append(Exit("raise", band(g0, e.guard), e.value, es))
                live = band(live, bnot(e.guard))
        if end is None:
            st.guard = FALSE
            return NONE
        st.store = end.store
        st.guard = band(g0, live)
        return ret

    def call_value(self, fv, args, kw, st, fr, stmt):
        fv = self.force(st, fv)
        if fv.op == "clo":
            node, f0, clo, loc = self.closures[fv.a[0]]
            return self.call_closure(node, f0, clo, loc, args, kw, st, fr)
        if fv.op == "bound":
            return self.method_call(fv.a[0], fv.a[1], args, kw, st, fr, stmt, None)
        if fv.op == "glob":
            return self.call_global(fv.a[0], args, kw, st, fr, stmt)
        if fv.op == "ref":
            o = self.obj(st, fv)
            if o.term.op == "clo":
                return self.call_value(o.term, args, kw, st, fr, stmt)
            if o.cls is not None:
                f = self.repo.find_method(o.cls, "__call__")
                if f is not None:
                    return self.invoke(f, [fv] + args, dict(kw), st, fr, selfcls=o.cls)
        t = self.val(st, fv)
        if t.op == "lam" and t.a[0].op != "abs" and not args and not kw:
            return t.a[0]
        if t.op == "lam" and t.a[0].op == "abs" and not kw and t.a[0].a[0] == len(args) and not any(a.op == "sp" for a in args):
            return open_abs(t.a[0], tuple(self.argval(st, a) for a in args))
        if t.op == "getitem" and elements(t.a[0]) and all(x.op in ("lam", "clo", "glob") for x in elements(t.a[0]).values()):
            es = list(elements(t.a[0]).items())
            t = es[-1][1]
            for k, x in reversed(es[:-1]):
                t = mk("ite", tm.c_eq(fv.a[1] if fv.op == "getitem" else self.val(st, fv).a[1], k), x, t)
        if t.op == "ite" and len(tm._leaves(t)) <= 6 and any(x.op in ("glob", "lam", "clo") for x in tm._leaves(t)):
            return self.cond_eval(tm._c(t.a[0]), st, fr,
                                  lambda x: self.call_value(t.a[1], args, kw, x, fr, stmt),
                                  lambda x: self.call_value(t.a[2], args, kw, x, fr, stmt))
        res = mk("call", t, tuple(self.argval(st, a) for a in args), self.kwtuple(kw, st))
        if stmt:
            self.world(st, res)
        return res

    def kwtuple(self, kw, st):
        items = kw.items() if isinstance(kw, dict) else kw
        return tm.spread_kw(tuple(sorted(((k or "**"), self.argval(st, v)) for k, v in items))) if items else ()

    def call_closure(self, node, f0, clo, loc, args, kw, st, fr):
        if len(self.callstack) > INLINE_DEPTH:
            raise Unsupported("inline depth")
        fake = FuncInfo.__new__(FuncInfo)
        fake.node = node
        fake.module = f0.module
        fake.cls = None
        fake.name = getattr(node, "name", "<lambda>")
        fake.spec = False
        fake.kind = "function"
        fake.qual = "<closure>." + fake.name
        bound = self.bind(fake, args, kw, st, fr)
        # free variables see the defining frame's current values when still on it
        env = dict(loc)
        if fr is f0:
            env.update(st.locals)
        fr2 = Frame(f0.fi, f0.module, f0.cls, f0.selfcls, fr.depth + 1)
        fr2.selfname = f0.selfname
        fr2.selfref = getattr(f0, "selfref", None)
        fr2.closure = dict(clo)
        fr2.closure.update(env)
        st2 = State(dict(bound), dict(st.store), TRUE)
        self.callstack.append(fake.qual)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st2, fr2)
                end, ret = st2, v
            else:
                end, ret = self.run_body(fr2, st2, node)
        finally:
            self.callstack.pop()
        return self._after_call(end, ret, fr2, st, fr)

    def world(self, st, t):
        r = self.named_ref(("world",), mk("world"))
        o = self.obj(st, r)
        st.store[r] = Obj(tm.obj(o.term, (mk("ef", t),)), {}, None)

    def call_global(self, q, args, kw, st, fr, stmt):
        if q in IGNORED_CALLS or q.startswith("logging.") or _is_log(q):
            return NONE
        if q.startswith("spec:"):
            f = self.spec.helper(q[5:])
            return self.invoke(f, args, dict(kw), st, fr)
        r = self.repo.resolve_qual(q)
        if r[0] == "func":
            f = r[1]
            if self.may_inline(f, False, None) and (self.policy.inline_all or f.qual not in self.policy.known or
                                                    f.name.startswith("_") or f.name in self.policy.transparent):
                return self.invoke(f, args, kw, st, fr)
            b = self.bind(f, args, kw, st, fr)
            res = mk("call", mk("glob", q), (), tuple(sorted((k, self.argval(st, v)) for k, v in b.items() if v is not UNDEF)))
            if self.func_mutates(f):
                for k, v in b.items():
                    if v.op == "ref" and k in self.mutated_params(f):
                        o = self.obj(st, v)
                        self.set_content(st, v, tm.obj(o.term, (mk("ef", mk("glob", q), res),)))
            elif stmt:
                self.world(st, res)
            return res
        if r[0] == "method":
            f = r[1]
            # Class.method(obj, ...) / static / classmethod
            if f.kind in ("static",):
                if self.may_inline(f, True, f.cls):
                    return self.invoke(f, args, kw, st, fr)
                return mk("call", mk("glob", q), tuple(self.argval(st, a) for a in args), self.kwtuple(kw, st))
            if f.kind == "class":
                return self.invoke(f, [mk("glob", f.cls.qual)] + args, kw, st, fr)
            if args:
                cls = self.cls_of(st, args[0]) or f.cls
                if self.may_inline(f, self.is_self(fr, args[0]) if args[0].op == "ref" else False, cls, is_super=True):
                    return self.invoke(f, args, kw, st, fr, selfcls=cls)
                if args[0].op == "ref":
                    return self.opaque_method(args[0], f, f.name, args[1:], kw, st, fr)
        if r[0] == "class":
            return self.construct(r[1], args, kw, st, fr)
        return self.ext(q, args, kw, st, fr, stmt)

    def construct(self, ci, args, kw, st, fr):
        init = self.repo.find_method(ci, "__init__")
        if init is not None and (ci.name in self.policy.inline_ctor or ci.qual in self.policy.inline_ctor):
            r = self.alloc(st, mk("new", ci.qual, ()), ci)
            self.invoke(init, [r] + args, kw, st, fr, selfcls=ci)
            return r
        if init is not None:
            b = self.bind(init, args, kw, st, fr, skip_self=True)
            items = tuple(sorted((k, self.argval(st, v)) for k, v in b.items() if v is not UNDEF))
            t = mk("new", ci.qual, items)
        elif ci.fields:
            names = [f[0] for f in ci.fields]
            b = dict(zip(names, args))
            b.update({k: v for k, v in (kw.items() if isinstance(kw, dict) else kw)})
            dfr = Frame(None, ci.module, ci, None, 0)
            for nm, ann, dv in ci.fields:
                if nm not in b and dv is not None:
                    b[nm] = self.ev(dv, st, dfr)
            t = mk("new", ci.qual, ())
            r = self.alloc(st, t, ci)
            st.store[r] = Obj(t, {k: v for k, v in b.items() if k is not None}, ci)
            return r
        else:
            t = mk("new", ci.qual, tuple(("arg%d" % i, self.argval(st, a)) for i, a in enumerate(args)) + self.kwtuple(kw, st))
        return self.alloc(st, t, ci)

    def func_mutates(self, f):
        return bool(self.mutated_params(f))

    def mutated_params(self, f):
        if self.purity is None:
            return ()
        return self.purity.mutated_params(f)

    def settle(self, st, base, name):
        """pending attribute writes a call of method `name` cannot see; the others are made part of the object"""
        o = self.obj(st, base)
        if not o.attrs or self.purity is None:
            return {}
        t = self.purity.touches(name)
        if t is None:
            return {}
        keep = {k: v for k, v in o.attrs.items() if k not in t}
        if keep:
            st.store[base] = Obj(o.term, {k: v for k, v in o.attrs.items() if k in t}, o.cls)
        return keep

    def opaque_method(self, base, f, name, args, kw, st, fr):
        b = self.bind(f, args, kw, st, fr, skip_self=True)
        argt = tuple(sorted((k, self.argval(st, v)) for k, v in b.items() if v is not UNDEF))
        mp = self.mutated_params(f)
        recv = self.res(st, base) if base.op == "ref" else self.val(st, base)
        pn = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        selfname = pn[0] if pn else "self"
        if selfname in mp and base.op == "ref":
            o = self.obj(st, base)
            res = mk("mres", recv, name, argt)
            keep = self.settle(st, base, name)
            if keep:
                recv = self.res(st, base)
                res = mk("mres", recv, name, argt)
            st.store[base] = Obj(tm.obj(recv, (mk("ef", name, argt),)), keep, o.cls)
            self.touch(st, base)
        else:
            res = mk("mcall", recv, name, (), argt)
        for k in mp:
            if k in b and b[k].op == "ref" and k != selfname:
                o = self.obj(st, b[k])
                st.store[b[k]] = Obj(tm.obj(self.res(st, o.term), (mk("ef", "via:" + name, k, argt),)), {}, o.cls)
                self.touch(st, b[k])
        rc = self.ret_cls(f)
        if rc is not None:
            return self.alloc(st, res, rc, res)
        return res

    def ret_cls(self, f):
        if f.node.returns is not None:
            c = self.ann_cls(f.node.returns, f.module)
            if c is not None:
                return c
        q = self.attr_types.get(("()", f.name))
        return self.repo.find_class(q) if q else None

    def method_call(self, base, name, args, kw, st, fr, stmt, base_expr):
        base = self.force(st, base)
        if base.op == "super":
            return self.super_call(name, args, kw, st, fr, self.repo.resolve_qual(base.a[0])[1])
        if base.op == "glob" and not (name in ("items", "keys", "values", "get", "copy") and self.repo.resolve_qual(base.a[0])[0] == "const"):
            fv = self.read_attr(st, base, name, fr)
            return self.call_value(fv, args, kw, st, fr, stmt)
        if base.op not in ("ref",) and name in MUTATORS and base_expr is not None and isinstance(base_expr, ast.Name):
            r = self.aliased(base_expr.id, st, fr) or self.alloc(st, base, None, self.val(st, base))
            st.locals[base_expr.id] = r
            base = r
        if base.op == "ref":
            o = self.obj(st, base)
            if name in o.attrs:
                return self.call_value(o.attrs[name], args, kw, st, fr, stmt)
            if o.cls is not None:
                f = self.repo.find_method(o.cls, name)
                if f is not None and f.kind == "static":
                    return self.call_global(f.qual, args, kw, st, fr, stmt)
                if f is not None and f.kind == "property":
                    v = self.read_attr(st, base, name, fr)
                    return self.call_value(v, args, kw, st, fr, stmt)
                if f is None and self.spec is not None and self.is_self(fr, base):
                    f = self.spec.fallback_method(o.cls, name)
                if f is not None:
                    if f.kind == "class":
                        return self.invoke(f, [mk("glob", o.cls.qual)] + args, kw, st, fr, selfcls=o.cls)
                    if self.may_inline(f, self.is_self(fr, base), o.cls):
                        return self.invoke(f, [base] + args, kw, st, fr, selfcls=o.cls)
                    return self.opaque_method(base, f, name, args, kw, st, fr)
        return self.builtin_method(base, name, args, kw, st, fr, stmt)

    # ----------------------------------------------- builtin container methods
    def builtin_method(self, base, name, args, kw, st, fr, stmt):
        v = self.val(st, base)
        kv = kind(v)
        ref = base.op == "ref"
        raw = self.obj(st, base).term if ref else v
        kwd = dict(kw) if not isinstance(kw, dict) else kw
        if name in MUTATORS and ref and kv != "str":
            isset = tm.is_set(v)
            if isset and name == "update":
                cur = v
                for a in args:
                    cur = seq_union(cur, self.val(st, a))
                self.set_content(st, base, cur)
                return NONE
            if name == "append" and len(args) == 1:
                self.set_content(st, base, seq("list", (sp(raw), it(args[0]))))
                return NONE
            if name == "extend" and len(args) == 1:
                self.set_content(st, base, seq("list", (sp(raw), sp(self.unref_iter(st, args[0])))))
                return NONE
            if name == "insert" and len(args) == 2 and args[0] is ZERO:
                self.set_content(st, base, seq("list", (it(args[1]), sp(raw))))
                return NONE
            if name == "update" and (kv == "map" or not isset):
                ups = []
                for a in args:
                    t = self.val(st, a)
                    rr = self.obj(st, a).term if a.op == "ref" else t
                    if rr.op == "map" and rr.a[0] is EMPTYDICT:
                        ups.extend(rr.a[1])
                    else:
                        ups.append(mk("msplice", t))
                for k, x in kwd.items():
                    ups.append(mk("set", const(k), x) if k is not None else mk("msplice", self.val(st, x)))
                self.set_content(st, base, tm.mset(raw, tuple(ups)))
                return NONE
            if name == "setdefault" and len(args) >= 1:
                k = self.val(st, args[0])
                d = args[1] if len(args) > 1 else NONE
                cur = getitem(raw, k)
                present = tm.c_in(k, self.val(st, base))
                nv = ite(present, self.val(st, cur), self.val(st, d))

                def put(x):
                    self.set_content(x, base, tm.mset(raw, (mk("set", k, self.val(x, d)),)))
                    return NONE
                self.cond_eval(present, st, fr, lambda x: NONE, put)
                return nv
            if name == "pop" and args and not kw:
                k = self.val(st, args[0])
                g = self.val(st, getitem(raw, k))
                if len(args) > 1:
                    g = ite(tm.c_in(k, v), g, self.val(st, args[1]))
                self.set_content(st, base, tm.mset(raw, (mk("del", k),)))
                return g
            if name == "pop" and not args:
                g = self.val(st, getitem(raw, const(-1)))
                nxt = getitem(raw, mk("slice", NONE, const(-1), NONE))
                self.set_content(st, base, nxt)
                return g
            if name == "clear":
                self.set_content(st, base, EMPTYDICT if kv == "map" else seq("list", ()))
                return NONE
            if name == "add" and isset:
                self.set_content(st, base, seq("set", (sp(raw), it(args[0]))) if raw.op != "seq" else mk("seq", "set", raw.a[1] + (it(args[0]),)))
                return NONE
            if name == "sort":
                self.set_content(st, base, ext_call("builtins.sorted", (v,), self.kwtuple(kw, st)))
                return NONE
            if name == "reverse":
                self.set_content(st, base, mk("call", mk("glob", "builtins.reversed"), (v,), ()))
                return NONE
            eff = mk("ef", name, tuple(self.argval(st, a) for a in args), self.kwtuple(kw, st))
            self.set_content(st, base, tm.obj(self.res(st, raw), (eff,)))
            return mk("mres", v, name, tuple(self.argval(st, a) for a in args))
        if name == "items" and not args and not kw:
            return mk("items", base if ref and not self._has_method(st, base) else v)
        if name == "keys" and not args and not kw:
            return tm.keys(v)
        if name == "values" and not args and not kw:
            return mk("values", base if ref and not self._has_method(st, base) else v)
        if name == "get" and 1 <= len(args) <= 2 and not kw:
            k = self.val(st, args[0])
            d = self.val(st, args[1]) if len(args) > 1 else NONE
            return ite(tm.c_in(k, v), self.val(st, getitem(v, k)), d)
        if name == "copy" and not args and kv in ("seq", "map"):
            return self.alloc(st, raw)
        if name == "copy" and not args and not kw and v.op == "param":
            # the annotation tells which container is copied
            a = [x for x in fr.fi.node.args.args + fr.fi.node.args.kwonlyargs if x.arg == v.a[0] and x.annotation is not None] if fr.fi is not None else []
            k = ast.unparse(a[0].annotation).replace("Optional[", "").replace("typing.", "").lower() if a else ""
            if k.startswith("dict"):
                return self.alloc(st, tm.mset(EMPTYDICT, (mk("msplice", v),)))
            if k.startswith("list"):
                return self.alloc(st, seq("list", (sp(v),)))
        if name == "format" and kv == "str":
            return brace_format(v, [self.argval(st, a) for a in args], self.kwtuple(kw, st))
        if name == "join" and kv == "str":
            u = self.unref_seq(st, args[0])
            u = self.val(st, u)
            if u.op == "seq" and u.a[0] in ("list", "tuple") and all(s.op == "it" for s in u.a[1]):
                ps = []
                for s in u.a[1]:
                    if ps:
                        ps.append(v)
                    ps.append(tostr(s.a[0]))
                return strcat(*ps)
            return mk("join", v, u)
        if name == "union" and len(args) == 1:
            return seq_union(v, self.val(st, args[0]))
        if name == "numel" and not args and v.op == "seq" and v.a[0] == "vcat":
            return numel_of(v)
        argt = tuple(self.argval(st, a) for a in args)
        kwt = self.kwtuple(kw, st)
        if stmt and ref and REFINFO[base][0] in ("attr", "named", "new", "item"):
            o = self.obj(st, base)
            keep = self.settle(st, base, name)
            st.store[base] = Obj(tm.obj(self.res(st, base), (mk("ef", name, argt, kwt),)), keep, o.cls)
            self.touch(st, base)
            return NONE
        if stmt and not ref and v.op != "const":
            self.world(st, mcall(v, name, argt, kwt))
        if v.op == "ite" and len(tm._leaves(v)) <= 4:
            return ite(tm._c(v.a[0]), mcall(v.a[1], name, argt, kwt), mcall(v.a[2], name, argt, kwt))
        return mcall(v, name, argt, kwt)

    def _has_method(self, st, base):
        return self.obj(st, base).cls is not None

    def unref_iter(self, st, v):
        u = self.unref_seq(st, v)
        if u.op == "seq":
            return u
        u = self.val(st, u)
        return self.to_seq(st, u)

    def to_seq(self, st, u):
        """materialise iterable calls (range/enumerate/zip/...) as sequences"""
        if u.op == "call" and u.a[0].op == "glob" and u.a[0].a[0] in ("builtins.range", "builtins.enumerate", "builtins.zip", "builtins.reversed", "itertools.chain") or u.op in ("items", "values"):
            segs = []
            for p in self.iter_norm(st, u):
                if p[0] == "one":
                    segs.append(it(p[1]))
                else:
                    f = fresh("i")
                    segs.append(tm.for_(p[1], close(mk("segs", it(self.val(st, self.force(st, p[2](f))))), (f,))))
            return seq("list", segs)
        return u

    # -------------------------------------------------------- external calls
    def ext(self, q, args, kw, st, fr, stmt):
        name = q[9:] if q.startswith("builtins.") else None
        if name == "super":
            cls = fr.cls
            if args and args[0].op == "glob":
                r = self.repo.resolve_qual(args[0].a[0])
                if r[0] == "class":
                    cls = r[1]
            if cls is None or fr.selfcls is None:
                raise Unsupported("super outside class")
            return mk("super", cls.qual)
        if name in ("getattr", "hasattr") and len(args) >= 2 and self.force(st, args[0]).op in ("super", "ref"):
            b = self.force(st, args[0])
            nm = self.val(st, args[1])
            if is_str(nm):
                f = None
                if b.op == "super":
                    f = self.repo.find_method(fr.selfcls, nm.a[1], after=self.repo.resolve_qual(b.a[0])[1])
                    if f is None:
                        if name == "hasattr":
                            return FALSE
                        return args[2] if len(args) > 2 else mk("attr", b, nm.a[1])
                    return TRUE if name == "hasattr" else mk("bound", b, nm.a[1])
                o = self.obj(st, b)
                if o.cls is not None:
                    f = self.repo.find_method(o.cls, nm.a[1])
                if f is not None:
                    return TRUE if name == "hasattr" else self.read_attr(st, b, nm.a[1], fr)
        if name == "type" and len(args) == 1 and not kw:
            return self.read_attr(st, args[0], "__class__", fr)
        if name == "callable" and len(args) == 1:
            a0 = self.force(st, args[0])
            if a0.op in ("bound", "clo"):
                return TRUE
            if a0 is NONE:
                return FALSE
        if name == "len" and len(args) == 1:
            cls = self.cls_of(st, args[0])
            return length(self.to_seq(st, self.val(st, args[0])))
        if name in ("list", "tuple", "set", "frozenset"):
            kd = "tuple" if name == "tuple" else ("set" if "set" in name else "list")
            if not args:
                return self.alloc(st, seq(kd, ()))
            u = self.unref_iter(st, args[0])
            if u.op == "call" and u.a[0].op == "glob" and u.a[0].a[0] == "builtins.sorted" and kd == "list":
                return self.alloc(st, u)
            if kind(u) == "map":
                ks = self._iter_keys(st, u)
                segs = []
                for p in ks:
                    if p[0] == "one":
                        segs.append(it(p[1]))
                    else:
                        f = fresh("i")
                        segs.append(tm.for_(p[1], close(mk("segs", it(p[2](f))), (f,))))
                return self.alloc(st, seq(kd, segs))
            if u.op == "seq" and u.a[0] == "set" and kd != "set":
                return self.alloc(st, seq(kd, (sp(u),)))
            return self.alloc(st, seq(kd, (sp(u),)) if kd != "set" else (mk("seq", "set", u.a[1]) if u.op == "seq" else seq("set", (sp(u),))))
        if name == "dict":
            return self.mk_dict(args, kw, st, fr)
        if q in ("collections.OrderedDict",):
            return self.mk_dict(args, kw, st, fr)
        if q == "collections.defaultdict":
            t = mk("call", mk("glob", q), tuple(self.val(st, a) for a in args), ())
            return self.alloc(st, mk("ddict", tuple(self.val(st, a) for a in args)))
        if name == "getattr" and len(args) >= 2:
            nm = self.val(st, args[1])
            if is_str(nm):
                if len(args) == 2:
                    return self.read_attr(st, args[0], nm.a[1], fr)
            t = mk("getattr", self.argval(st, args[0]), nm) if len(args) == 2 else mk("getattr", self.argval(st, args[0]), nm, self.argval(st, args[2]))
            return t
        if name == "setattr" and len(args) == 3:
            nm = self.val(st, args[1])
            if is_str(nm) and args[0].op == "ref":
                self.write_attr(st, args[0], nm.a[1], args[2], fr)
                return NONE
            if args[0].op == "ref":
                o = self.obj(st, args[0])
                st.store[args[0]] = Obj(tm.obj(self.res(st, args[0]), (mk("ef", "setattr", nm, self.argval(st, args[2])),)), {}, o.cls)
                return NONE
        if name == "sum" and args:
            start = self.val(st, args[1]) if len(args) > 1 else ZERO
            return self.sum_of(self.unref_iter(st, args[0]), start, st)
        if name in ("any", "all") and len(args) == 1:
            u = self.val(st, self.unref_iter(st, args[0]))
            c = self.any_of(u, name == "all")
            if c is not None:
                return c
        if name in ("range",):
            vs = [self.val(st, a) for a in args]
            if len(vs) == 1:
                vs = [ZERO, vs[0], ONE]
            elif len(vs) == 2:
                vs = vs + [ONE]
            return mk("call", mk("glob", q), tuple(vs), ())
        if name in ("enumerate", "zip", "reversed", "iter"):
            vs = tuple(a if a.op == "ref" else self.argval(st, a) for a in args)
            if name == "iter":
                return args[0]
            if name == "reversed" and len(args) == 1:
                s0 = self.val(st, args[0])
                if s0.op == "call" and s0.a[0].op == "glob" and s0.a[0].a[0] == "builtins.sorted" and len(s0.a[1]) == 1:
                    k0 = dict(s0.a[2])
                    if not k0 or set(k0) == {"reverse"} and k0["reverse"] in (TRUE, FALSE):
                        rev = k0.get("reverse") is TRUE
                        return mk("call", s0.a[0], s0.a[1], () if rev else (("reverse", TRUE),))
            if name == "zip" and any(v.op == "sp" for v in vs):
                return mk("call", mk("glob", q), vs, ())
            kwt = self.kwtuple(kw, st)
            if name == "enumerate" and kwt:
                vs = (vs[0], dict(kwt).get("start", ZERO))
                kwt = ()
            if name == "enumerate" and len(vs) == 2 and vs[1] is ZERO:
                vs = vs[:1]
            return mk("call", mk("glob", q), vs, kwt)
        if name == "map" and len(args) == 2:
            acc = self.alloc(st, seq("list", ()))
            fn = args[0]

            def body(x):
                v = self.call_value(fn, [x.locals["$m"]], [], x, fr, False)
                self.set_content(x, acc, seq("list", (sp(self.obj(x, acc).term), it(v))))
                return x

            def bnd(el, x):
                x.locals["$m"] = el
            x = self.iterate(args[1], bnd, body, st.copy(st.guard), fr)
            st.store = x.store
            return acc
        if name in ("str",) and len(args) == 1:
            return tostr(self.val(st, args[0]))
        if name == "repr" and len(args) == 1:
            v = self.val(st, args[0])
            return tostr(v)
        if name == "int" and len(args) == 1 and not kw and tm.is_int(self.val(st, args[0])):
            return self.val(st, args[0])
        if name == "float" and len(args) == 1:
            v = self.val(st, args[0])
            if is_str(v):
                if v.a[1].strip("+").lower() in ("inf", "infinity"):
                    return tm.INF
                if v.a[1].lower() in ("-inf", "-infinity"):
                    return neg(tm.INF)
            if is_num(v):
                return v
        if name == "bool" and len(args) == 1:
            return truth(self.val(st, args[0]))
        if name == "isinstance" and len(args) == 2:
            v, c = self.val(st, args[0]), self.val(st, args[1])
            r = self.isinst(st, args[0], v, c)
            if r is not None:
                return r
        if name in ("min", "max") and len(args) == 1 and not kw:
            u = self.val(st, args[0])
            if u.op == "seq" and u.a[0] in ("list", "tuple") and len(u.a[1]) > 1 and all(s.op == "it" for s in u.a[1]):
                args = [s.a[0] for s in u.a[1]]
        if name in ("min", "max") and len(args) > 1 and not kw:
            vs = sorted((self.val(st, a) for a in args), key=lambda x: x.k)
            return mk("call", mk("glob", q), tuple(vs), ())
        if name == "slice" and not kw and 1 <= len(args) <= 3:
            vs = [self.val(st, a) for a in args]
            if len(vs) == 1:
                vs = [NONE, vs[0]]
            return mk("slice", vs[0], vs[1], vs[2] if len(vs) > 2 else NONE)
        if q in ("copy.copy", "copy.deepcopy") and len(args) == 1:
            v = self.val(st, args[0])
            return self.alloc(st, mk("call", mk("glob", q), (v,), ()), self.cls_of(st, args[0]))
        if q in ("functools.reduce",):
            raise Unsupported("reduce")
        argt = []
        for a in args:
            if a.op == "sp":
                argt.append(sp(self.to_seq(st, self.val(st, a.a[0]))))
            else:
                argt.append(self.argval(st, a))
        kwt = self.kwtuple(kw, st)
        # sort the tuple keys canonical, then normal form
        res = ext_call(q, tuple(argt), kwt)
        if stmt:
            self.world(st, res)
            return NONE
        return res

    def isinst(self, st, raw, v, c):
        names = None
        if c.op == "glob":
            names = [c.a[0]]
        elif c.op == "seq" and all(s.op == "it" and s.a[0].op == "glob" for s in c.a[1]):
            names = [s.a[0].a[0] for s in c.a[1]]
        if names is None:
            return None
        k = kind(v)
        m = {"seq": ("builtins.list", "builtins.tuple", "builtins.set"), "map": ("builtins.dict",), "str": ("builtins.str",), "none": ()}
        if v.op == "seq" and v.a[0] in ("list", "tuple", "set"):
            return TRUE if "builtins." + v.a[0] in names else FALSE
        if k in ("map",) and v.op in ("emptydict", "map"):
            return TRUE if "builtins.dict" in names else FALSE
        if v is NONE:
            return FALSE
        r = FALSE
        for n in sorted(names):
            r = bor(tm.c_isa(v, n), r)
        return r

    def any_of(self, u, all_):
        if u.op != "seq":
            return None
        r = FALSE
        for s in u.a[1]:
            if s.op == "it":
                c = truth(s.a[0])
                r = bor(r, bnot(c) if all_ else c)
            elif s.op == "for":
                f = fresh("i")
                body = tm.segs_of(open_abs(s.a[1], (f,)))
                c = FALSE
                for b in body:
                    if b.op == "it":
                        x = truth(b.a[0])
                        c = bor(c, bnot(x) if all_ else x)
                    elif b.op == "when" and all(y.op == "it" for y in b.a[1].a):
                        for y in b.a[1].a:
                            x = truth(y.a[0])
                            c = bor(c, band(b.a[0], bnot(x) if all_ else x))
                    else:
                        return None
                r = bor(r, tm.exists(s.a[0], close(c, (f,))))
            elif s.op == "sp":
                f = fresh("i")
                x = truth(getitem(s.a[0], f))
                r = bor(r, tm.exists(length(s.a[0]), close(bnot(x) if all_ else x, (f,))))
            else:
                return None
        return bnot(r) if all_ else r

    def sum_of(self, u, start, st):
        u = self.val(st, u)
        if u.op != "seq":
            u = seq("list", (sp(u),))
        tot = start
        for s in u.a[1]:
            x = self._sum_seg(s)
            if x is None:
                return mk("call", mk("glob", "builtins.sum"), (u, start), ())
            tot = add(tot, x)
        return tot

    def _sum_seg(self, s):
        if s.op == "it":
            return s.a[0]
        if s.op == "sp":
            f = fresh("i")
            return tm.sum_(length(s.a[0]), close(getitem(s.a[0], f), (f,)))
        if s.op == "when":
            t = ZERO
            for y in s.a[1].a:
                x = self._sum_seg(y)
                if x is None:
                    return None
                t = add(t, x)
            return ite(s.a[0], t, ZERO)
        if s.op == "for":
            f = fresh("i")
            t = ZERO
            for y in tm.segs_of(open_abs(s.a[1], (f,))):
                x = self._sum_seg(y)
                if x is None:
                    return None
                t = add(t, x)
            return tm.sum_(s.a[0], close(t, (f,)))
        return None

    def mk_dict(self, args, kw, st, fr):
        ups = []
        base = EMPTYDICT
        for a in args:
            u = self.unref_seq(st, a)
            u = self.to_seq(st, u)
            if u.op == "seq":
                for s in u.a[1]:
                    x = _pair_update(self, st, s)
                    if x is None:
                        ups.append(mk("msplice", self.val(st, u)))
                        break
                    ups.append(x)
            else:
                raw = self.obj(st, a).term if a.op == "ref" else u
                if kind(raw) == "map":
                    base = raw
                else:
                    ups.append(mk("msplice", self.val(st, a)))
        for k, v in (kw.items() if isinstance(kw, dict) else kw):
            ups.append(mk("set", const(k), v) if k is not None else mk("msplice", self.val(st, v)))
        return self.alloc(st, tm.mset(base, tuple(ups)))


# ------------------------------------------------------------------ utilities
def _pair_update(ev, st, s):
    if s.op == "it":
        p = s.a[0]
        if p.op == "ref":
            p = ev.obj(st, p).term
        if p.op == "seq" and len(p.a[1]) == 2 and all(x.op == "it" for x in p.a[1]):
            return mk("set", ev.val(st, p.a[1][0].a[0]), p.a[1][1].a[0])
        return mk("set", getitem(ev.val(st, p), ZERO), getitem(ev.val(st, p), ONE))
    if s.op == "for":
        f = fresh("i")
        body = []
        for y in tm.segs_of(open_abs(s.a[1], (f,))):
            x = _pair_update(ev, st, y)
            if x is None:
                return None
            body.append(x)
        return mk("mfor", s.a[0], close(mk("segs", *body), (f,)))
    if s.op == "when":
        body = []
        for y in s.a[1].a:
            x = _pair_update(ev, st, y)
            if x is None:
                return None
            body.append(x)
        return mk("mwhen", s.a[0], mk("segs", *body))
    return None


_ELSE = {}


def _desugar_else(s):
    """for/while ... else -> a flag set on the breaking exit"""
    got = _ELSE.get(s)
    if got is not None:
        return got
    import copy
    flag = "__broke_%d" % s.lineno
    loop = copy.copy(s)
    els = loop.orelse
    loop.orelse = []

    def fix(stmts):
        out = []
        for x in stmts:
            if isinstance(x, ast.Break):
                a = ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(True))
                out.append(ast.fix_missing_locations(ast.copy_location(a, x)))
                out.append(x)
                continue
            if isinstance(x, (ast.For, ast.While)):
                if x.orelse:
                    x = copy.copy(x)
                    x.orelse = fix(x.orelse)
            elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                ch = {f: getattr(x, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(x, f, None), list)}
                if ch or isinstance(x, ast.Try):
                    x = copy.copy(x)
                    for f, v in ch.items():
                        setattr(x, f, fix(v))
                    if isinstance(x, ast.Try):
                        hs = []
                        for h in x.handlers:
                            h = copy.copy(h)
                            h.body = fix(h.body)
                            hs.append(h)
                        x.handlers = hs
            out.append(x)
        return out

    loop.body = fix(loop.body)
    init = ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(False))
    test = ast.If(ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load())), els, [])
    got = [ast.fix_missing_locations(ast.copy_location(init, s)), loop,
           ast.fix_missing_locations(ast.copy_location(test, s))]
    _ELSE[s] = got
    return got


def _walk_own(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _is_abstract(f):
    body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    if any("abstract" in ast.unparse(d) for d in f.node.decorator_list):
        return True
    return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.unparse(body[0])


def _literal(v):
    try:
        x = ast.literal_eval(v)
    except Exception:
        return None
    if isinstance(x, (int, float, str, bool)) or x is None:
        return const(x)
    return None


def ext_glob(q):
    if q in ("casadi.inf", "numpy.inf", "math.inf", "casadi.casadi.inf", "numpy.Inf"):
        return tm.INF
    if q in ("casadi.pi", "numpy.pi", "math.pi"):
        return mk("glob", "pi")
    return mk("glob", q)


def mcall(v, name, args, kw):
    if name in ("numel", "size1") and v.op == "call" and v.a[0] is tm.VERTCAT and not args and not kw:
        return mcall(v.a[1][0], name, (), ())      # where the plain value has that method, it is a matrix
    if name in ("size1",) and not args:
        return mk("mcall", v, "size1", (), ())
    if name == "numel" and v.op == "seq" and v.a[0] == "vcat":
        return numel_of(v)
    return mk("mcall", v, name, args, kw)


def numel_of(v):
    tot = ZERO
    for s in v.a[1]:
        if s.op == "it":
            tot = add(tot, mk("mcall", s.a[0], "numel", (), ()))
        else:
            return mk("mcall", v, "numel", (), ())
    return tot


def seq_union(a, b):
    sa = a.a[1] if a.op == "seq" and a.a[0] == "set" else (sp(a),)
    sb = b.a[1] if b.op == "seq" else (sp(b),)
    return mk("seq", "set", tuple(sa) + tuple(sb))


def percent_format(a, args):
    if not is_str(a):
        return mk("fmt%", a, tuple(args))
    s = a.a[1]
    parts = []
    i = 0
    cur = ""
    k = 0
    while i < len(s):
        if s[i] == "%" and i + 1 < len(s):
            if s[i + 1] == "%":
                cur += "%"
                i += 2
                continue
            if s[i + 1] in "sd" and k < len(args):
                parts.append(const(cur))
                cur = ""
                parts.append(tostr(args[k]))
                k += 1
                i += 2
                continue
            return mk("fmt%", a, tuple(args))
        cur += s[i]
        i += 1
    parts.append(const(cur))
    return strcat(*parts)


def brace_format(v, args, kw):
    if not is_str(v):
        return mk("mcall", v, "format", tuple(args), kw)
    import string
    out = []
    auto = 0
    kwd = dict(kw)
    try:
        for lit, field, spec, conv in string.Formatter().parse(v.a[1]):
            out.append(const(lit))
            if field is None:
                continue
            if spec or conv:
                return mk("mcall", v, "format", tuple(args), kw)
            if field == "":
                x = args[auto]
                auto += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kwd:
                x = kwd[field]
            else:
                return mk("mcall", v, "format", tuple(args), kw)
            out.append(tostr(x))
    except (ValueError, IndexError):
        return mk("mcall", v, "format", tuple(args), kw)
    return strcat(*out)


ZERO_FUNS = ("casadi.DM.zeros", "casadi.MX.zeros", "casadi.SX.zeros", "casadi.DM.ones", "casadi.MX.ones")


def ext_call(q, args, kw):
    """normal forms of the third-party operations used by the project"""
    if q in ("casadi.vertcat", "casadi.veccat") and not kw:
        if q == "casadi.vertcat":
            if len(args) == 1 and args[0].op in ("param", "attr"):
                return mk("call", tm.VERTCAT, tuple(args), ())
            return seq("vcat", [a if a.op == "sp" else it(a) for a in args])
    if q == "casadi.horzcat" and not kw:
        return seq("hcat", [a if a.op == "sp" else it(a) for a in args])
    if q == "casadi.repmat" and not kw and (len(args) == 2 or (len(args) == 3 and args[2] is ONE)):
        return seq("vcat", (tm.for_(args[1], mk("abs", 1, mk("segs", it(tm.shift_up(args[0], 1))))),))
    if q in ZERO_FUNS and len(args) == 1 and not kw and args[0].op != "sp":
        return mk("call", mk("glob", q), (args[0], ONE), ())
    if q == "builtins.sorted" and len(args) == 1 and args[0].op == "seq" and args[0].a[0] in ("list", "tuple") and \
            len(args[0].a[1]) == 1 and args[0].a[1][0].op == "sp":
        return ext_call(q, (args[0].a[1][0].a[0],), kw)
    if q == "casadi.mtimes" and len(args) > 2:
        r = args[0]
        for a in args[1:]:
            r = mk("call", mk("glob", q), (r, a), ())
        return r
    if q == "casadi.Function" and args:
        return mk("call", mk("glob", q), args[1:], kw)
    if q in ("casadi.is_equal",) and len(args) == 2 and not kw:
        a, b = args
        if a.k > b.k:
            a, b = b, a
        return mk("call", mk("glob", q), (a, b), ())
    if q in ("casadi.fmax", "casadi.fmin") and len(args) == 2:
        a, b = args
        if a.k > b.k:
            a, b = b, a
        return mk("call", mk("glob", q), (a, b), ())
    if q in ("numpy.inf",):
        return tm.INF
    return mk("call", mk("glob", q), args, kw)


def _call_hook(f, args, kw):
    if f.op == "glob" and f.a[0].startswith(("casadi.",)):
        if f.a[0] == "casadi.Function":
            return mk("call", f, args, kw)
        return ext_call(f.a[0], args, kw)
    return mk("call", f, args, kw)


tm.CALL_HOOK[0] = _call_hook


# ------------------------------------------------------------ loop algebra
def elements(t):
    """index/key -> value of a literal list or dictionary with few entries, else None"""
    if t.op == "seq" and t.a[0] == "list" and 0 < len(t.a[1]) <= 6 and all(s.op == "it" for s in t.a[1]):
        return {const(i): s.a[0] for i, s in enumerate(t.a[1])}
    if t.op == "map" and t.a[0] is EMPTYDICT and 0 < len(t.a[1]) <= 12 and \
            all(u.op == "set" and tm.is_const(u.a[0]) for u in t.a[1]):
        return {u.a[0]: u.a[1] for u in t.a[1]}
    return None


_CELLS = {}


class _CellNames(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id not in self.names:
            return n
        return ast.copy_location(ast.Subscript(ast.Name("$cell_" + n.id, ast.Load()), ast.Constant(0), n.ctx), n)

    def visit_FunctionDef(self, n):
        own = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        inner = _CellNames(self.names - own)
        n.body = [inner.visit(b) for b in n.body]
        return n

    def visit_Nonlocal(self, n):
        return ast.copy_location(ast.Pass(), n)


def cells(node):
    """body of a function; variables a nested function rebinds (nonlocal) live in one-element lists"""
    r = _CELLS.get(id(node))
    if r is not None:
        return r[1]
    orig = node
    names = {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}
    body = node.body
    if names and any(isinstance(n, ast.FunctionDef) for b in body for n in ast.walk(b)) and \
            not any(isinstance(n, ast.Nonlocal) for n in _walk_own(node)):
        node = copy.deepcopy(node)
        own = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        tr = _CellNames(names)
        body = []
        started = set(own & names)
        for x in sorted(started):
            body.append(ast.Assign([ast.Name("$cell_" + x, ast.Store())], ast.List([ast.Name(x, ast.Load())], ast.Load())))
        for b in node.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and \
                    b.targets[0].id in names - started:
                x = b.targets[0].id
                started.add(x)
                body.append(ast.Assign([ast.Name("$cell_" + x, ast.Store())], ast.List([tr.visit(b.value)], ast.Load())))
                continue
            for x in sorted({n.id for n in ast.walk(b) if isinstance(n, ast.Name) and n.id in names - started}):
                started.add(x)
                body.append(ast.Assign([ast.Name("$cell_" + x, ast.Store())], ast.List([ast.Constant(None)], ast.Load())))
            body.append(tr.visit(b))
        for b in body:
            ast.fix_missing_locations(b)
    _CELLS[id(orig)] = (orig, body)
    return body


def latch(b, p, x0, idx):
    """(condition, value) when the loop only ever sets p to one fixed value, else None"""
    if is_boolv(x0):
        b1, b0 = subst(b, {p: TRUE}), subst(b, {p: FALSE})
        if is_boolv(b1) and is_boolv(b0):
            if b1 is TRUE:
                return b0, TRUE
            if b0 is FALSE:
                return bnot(b1), FALSE
    found = []

    def go(t):
        if t is p:
            return FALSE
        if t.op == "ite":
            if p in t.a[0].fv:
                return None
            x, y = go(t.a[1]), go(t.a[2])
            return None if x is None or y is None else ite(tm._c(t.a[0]), x, y)
        if p in t.fv or idx in t.fv or (found and found[0] is not t):
            return None
        found.append(t)
        return TRUE
    c = go(b)
    return (c, found[0]) if c is not None and found else None


def is_boolv(t):
    return tm.is_bool(t)


def own_element(b, p, x0, idx):
    """every iteration updates only the element keyed by its own index: the element it starts from is the initial one"""
    ks = set()

    def writes(t):
        if t is p:
            return True
        if t.op == "ite":
            return p not in t.a[0].fv and writes(t.a[1]) and writes(t.a[2])
        if t.op == "map" and writes(t.a[0]):
            return ups(t.a[1])
        return False

    def ups(us):
        for u in us:
            if u.op == "set":
                ks.add(u.a[0])
            elif u.op == "mwhen":
                if not ups(u.a[1].a):
                    return False
            else:
                return False
        return True
    if x0 is UNDEF or not writes(b) or len(ks) != 1:
        return None
    k = ks.pop()
    if p in k.fv or not tm.injective(k, idx):
        return None
    return tm._subst(b, {mk("getitem", p, k): getitem(x0, k)}, frozenset((p,)), {})


def split_growth(b, p):
    """b expressed as p plus something independent of p, or None"""
    if b is p:
        return ("same",)
    if b.op == "seq":
        segs = b.a[1]
        vec = b.a[0] in ("vcat", "hcat")
        first = it(p) if vec else sp(p)
        if segs and segs[0] is first and not any(p in s.fv for s in segs[1:]):
            return ("seq", b.a[0], segs[1:])
        if segs and segs[-1] is first and not any(p in s.fv for s in segs[:-1]):
            return ("rseq", b.a[0], segs[:-1])
        if segs and segs[0].op == "it" and segs[0].a[0].op == "ite" and vec:
            pass
        return None
    if b.op == "poly":
        d = {m: c for c, m in b.a[0]}
        key = ((p, 1),)
        if d.get(key) == 1:
            rest = sub(b, p)
            if p not in rest.fv:
                return ("sum", rest)
        return None
    if b.op == "map":
        if b.a[0] is p and not any(p in u.fv for u in b.a[1]):
            return ("map", b.a[1])
        return None
    if b.op == "obj":
        if b.a[0] is p and not any(p in u.fv for u in b.a[1]):
            return ("obj", b.a[1])
        return None
    if b.op == "strcat":
        if b.a[0][0] is p and not any(p in x.fv for x in b.a[0][1:]):
            return ("str", b.a[0][1:])
        return None
    if b.op == "ite":
        c, x, y = b.a
        if p in c.fv:
            return None
        gx, gy = split_growth(x, p), split_growth(y, p)
        if gx is None or gy is None:
            return None
        return _merge_growth(tm._c(c), gx, gy)
    return None


def _merge_growth(c, gx, gy):
    if gx[0] == "same" and gy[0] == "same":
        return gx
    k = gx if gx[0] != "same" else gy
    if gx[0] != "same" and gy[0] != "same" and gx[0] != gy[0]:
        return None
    if k[0] == "sum":
        return ("sum", ite(c, gx[1] if gx[0] == "sum" else ZERO, gy[1] if gy[0] == "sum" else ZERO))
    if k[0] in ("seq", "rseq"):
        sx = gx[2] if gx[0] != "same" else ()
        sy = gy[2] if gy[0] != "same" else ()
        out = []
        if sx:
            out.append(tm.when(c, sx))
        if sy:
            out.append(tm.when(bnot(c), sy))
        return (k[0], k[1], tuple(tm.norm_segs(k[1], out)))
    if k[0] in ("map", "obj"):
        w = "mwhen" if k[0] == "map" else "ewhen"
        out = []
        if gx[0] != "same":
            out.append(mk(w, c, mk("segs", *gx[1])))
        if gy[0] != "same":
            out.append(mk(w, bnot(c), mk("segs", *gy[1])))
        return (k[0], tuple(out))
    return None


def grow(x0, g, n, idx):
    """x0 after n iterations of growth g (g mentions the iteration index idx)"""
    if g[0] == "same":
        return x0
    if g[0] == "sum":
        e = g[1]
        if x0 is UNDEF:
            x0 = ZERO
        return add(x0, tm.sum_(n, close(e, (idx,))))
    if g[0] in ("seq", "rseq"):
        f = tm.for_(n, close(mk("segs", *g[2]), (idx,)))
        vec = g[1] in ("vcat", "hcat")
        x = it(x0) if vec else sp(x0)
        if g[0] == "seq":
            return seq(g[1], (x, f))
        body = close(mk("segs", *g[2]), (idx,))
        # prepended in reverse order
        i2 = fresh("i")
        rb = open_abs(body, (sub(sub(n, ONE), i2),))
        return seq(g[1], (tm.for_(n, close(rb, (i2,))), x))
    if g[0] == "map":
        return tm.mset(x0, (mk("mfor", n, close(mk("segs", *g[1]), (idx,))),))
    if g[0] == "obj":
        return tm.obj(x0, (mk("efor", n, close(mk("segs", *g[1]), (idx,))),))
    if g[0] == "str":
        return strcat(x0, mk("strfor", n, close(mk("segs", *g[1]), (idx,))))
    raise Unsupported("growth")


def while_count(c, idx):
    """number of iterations of `while c(idx)`"""
    # c == not eqz(N - idx) / gtz(N - idx) with N independent of idx
    if c.op == "ite":
        a, x, y = c.a
        if a.op == "gtz" and x is TRUE and y is FALSE:
            N = add(a.a[0], idx)
            if idx not in N.fv:
                return N
        if a.op == "gtz" and x is FALSE and y is TRUE:
            # not (idx - N + 1 > 0)  ->  idx < N
            N = sub(add(idx, ONE), a.a[0])
            if idx not in N.fv:
                return N
        if a.op == "eqz" and x is FALSE and y is TRUE:
            p = a.a[0]
            for cand in (add(p, idx), sub(idx, p)):
                if idx not in cand.fv:
                    return cand
    return mk("wcount", close(c, (idx,)))


def _segs_view(t, like):
    """view a value as the segments of the sequence kind of `like`"""
    if t.op == like.op == "seq" and t.a[0] == like.a[0]:
        return t.a[1]
    if like.op == "seq":
        return (it(t),) if like.a[0] in ("vcat", "hcat") else (sp(t),)
    return None


def _join_growth(c, x, y):
    k = None
    for a in (x, y):
        if a.op in ("seq", "map", "obj"):
            k = a
            break
    if k is None:
        return None
    if k.op == "seq":
        if k.a[0] == "tuple":
            return None
        sx, sy = _segs_view(x, k), _segs_view(y, k)
        i = 0
        while i < len(sx) and i < len(sy) and sx[i] is sy[i]:
            i += 1
        if i == 0:
            return None
        rx, ry = sx[i:], sy[i:]
        j = 0
        while j < len(rx) and j < len(ry) and rx[-1 - j] is ry[-1 - j]:
            j += 1
        tail = rx[len(rx) - j:] if j else ()
        rx = rx[:len(rx) - j] if j else rx
        ry = ry[:len(ry) - j] if j else ry
        mid = []
        if rx:
            mid.append(tm.when(c, rx))
        if ry:
            mid.append(tm.when(bnot(c), ry))
        return seq(k.a[0], tuple(sx[:i]) + tuple(mid) + tuple(tail))
    if k.op in ("map", "obj"):
        bx, ux = (x.a[0], x.a[1]) if x.op == k.op else (x, ())
        by, uy = (y.a[0], y.a[1]) if y.op == k.op else (y, ())
        if bx is not by or bx is NONE:
            return None
        i = 0
        while i < len(ux) and i < len(uy) and ux[i] is uy[i]:
            i += 1
        rx, ry = ux[i:], uy[i:]
        w = "mwhen" if k.op == "map" else "ewhen"
        # same keys set on both sides -> joined values
        if k.op == "map" and len(rx) == len(ry) and rx and all(a.op == b.op == "set" and a.a[0] is b.a[0] for a, b in zip(rx, ry)):
            ups = tuple(ux[:i]) + tuple(mk("set", a.a[0], _val_join(c, a.a[1], b.a[1])) for a, b in zip(rx, ry))
            if all(u.a[1] is not None for u in ups if u.op == "set"):
                return tm.mset(bx, ups)
        mid = []
        if rx:
            mid.append(mk(w, c, mk("segs", *rx)))
        if ry:
            mid.append(mk(w, bnot(c), mk("segs", *ry)))
        ups = tuple(ux[:i]) + tuple(mid)
        return tm.mset(bx, ups) if k.op == "map" else tm.obj(bx, ups)
    return None


def _val_join(c, a, b):
    return ite(c, a, b)
