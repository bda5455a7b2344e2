"""Decide obligations: each function of the analysed tree against its reference definition."""
import ast
import os
import re
import sys
import time
from . import terms as tm
from . import oblig
from .terms import mk, show, T
from .repo import Repo
from .purity import Purity
from .evalr import Evaluator, Policy, Unsupported, Frame, State
from .compare import Comparer, Undecided, Diff, replace
from .classify import classify
from . import decls
from . import model
from . import compare

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(os.path.dirname(HERE), "ref")


class Ctx(object):
    def __init__(self, root):
        self.repo = Repo(root)
        self.spec = None
        self.purity = Purity(self.repo)


def return_kinds(repo):
    """kinds of the values functions are annotated to return (plain List/Dict annotations of module-level functions)"""
    out = {}
    for f in repo.all_functions():
        if f.cls is not None:
            continue
        a = f.node.returns
        if isinstance(a, ast.Subscript):
            a = a.value
        n = a.id if isinstance(a, ast.Name) else None
        k = {"List": "seq", "list": "seq", "Dict": "map", "dict": "map", "str": "str"}.get(n)
        if k:
            out[f.qual] = k
    out["yaocptool.util.util.find_variables_in_vector_by_name"] = "seq"
    return out


class Session(object):
    def __init__(self, root="/repo", ref=REF):
        sys.setrecursionlimit(20000)
        self.code = Ctx(root)
        self.ref = Ctx(ref)
        self.known = {f.qual for f in self.ref.repo.all_functions()}
        tm.RETKIND.update(return_kinds(self.ref.repo))
        self.memo = {}
        self.vmemo = {}
        self.touched = set()

    # -- policies -------------------------------------------------------------
    def policies(self, tr=()):
        tag = "+" + ",".join(sorted(tr)) if tr else ""
        yield "local" + tag, Policy(known=self.known, transparent=tr)
        yield "calls" + tag, Policy(known=self.known, self_opaque=True, transparent=tr)
        yield "deep" + tag, Policy(known=self.known, inline_all=True, transparent=tr)

    def names(self):
        """target -> names it refers to, on the reference tree"""
        if not hasattr(self, "_names"):
            self._names = {}
            for t in self.all_targets():
                if t.endswith(":module") or ":class " in t:
                    continue
                fi, _ = self.locate(self.ref, t)
                ns = set()
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Attribute):
                        ns.add(x.attr)
                    elif isinstance(x, ast.Name):
                        ns.add(x.id)
                self._names[t] = ns
        return self._names

    def escapes(self, target):
        """is the function handed on as a value somewhere (not merely called) on the reference tree?"""
        fi, _ = self.locate(self.ref, target)
        if fi is None or fi.kind == "property":
            return False
        if not hasattr(self, "_escaping"):
            self._escaping = set()
            for m in self.ref.repo.modules.values():
                called = {id(x.func) for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and id(x) not in called and isinstance(x.ctx, ast.Load):
                        self._escaping.add(x.attr)
        return _last(target) in self._escaping

    def callers(self, target):
        nm = _last(target)
        return [t for t, ns in self.names().items() if nm in ns and t != target]

    def reach(self, mine, every):
        idx = {}
        for t in every:
            if not (t.endswith(":module") or ":class " in t):
                idx.setdefault(_last(t), []).append(t)
        seen = {t: 0 for t in mine}
        queue = list(mine)
        for t in queue:
            for n in sorted(self.names().get(t, ())):
                for u in idx.get(n, ()):
                    if u not in seen:
                        seen[u] = seen[t] + 1
                        queue.append(u)
                        yield u, seen[u]

    def locate(self, ctx, target):
        fi, cls = ctx.repo.find_target(target)
        if fi is None:
            return None, None
        if cls is not None and "Mixin" in cls.name:
            cls = ctx.repo.find_class("yaocptool.modelling.system_model.SystemModel") or cls
        return fi, cls

    def summary(self, side, target, pname, pol, other_params=None, rename=None):
        key = (side, target, pname)
        if key in self.memo:
            return self.memo[key]
        ctx = self.ref if side == "ref" else self.code
        fi, cls = self.locate(ctx, target)
        tm.COUNT[0] = 0
        try:
            s = oblig.summarize(ctx, fi, cls, pol, spec_params=other_params)
        except (Unsupported, tm.Budget, RecursionError) as e:
            s = e
        except Exception as e:      # a construct the evaluator does not model
            s = Unsupported("internal: %s: %s" % (type(e).__name__, e))
        self.memo[key] = s
        return s

    def decide(self, target, want=None, skip=(), transparent=()):
        key = (target, tuple(want) if want else None, tuple(skip), tuple(sorted(transparent)))
        if key not in self.vmemo:
            self.vmemo[key] = self._decide(target, want, skip, transparent)
        return [v.copy() for v in self.vmemo[key]]

    def _decide(self, target, want, skip, transparent):
        """-> list of Verdict(projection, status in holds|violation|undecided, detail, where)"""
        fr, cr = self.locate(self.ref, target)
        fc, cc = self.locate(self.code, target)
        if fr is None:
            raise KeyError("no reference for " + target)
        if fc is None:
            return [Verdict(target, "exists", "missing", "function not found in the tree", "")]
        ps = [p for p in oblig.params_of(fr)]
        # (generous: a function of the unchanged tree takes seconds; bounded: the run has to end)
        compare.DEADLINE[0] = time.process_time() + (60 if time.process_time() < 400 else 8)
        sig, soft = self.signature(target, fr, fc, ps)
        sig += self.caching(target, fr, fc)
        sig += self.sharing(target, fc, ps)
        best = {}
        self.pdiffs = pdiffs = {}
        for pname, pol in self.policies(transparent):
            a = self.summary("ref", target, pname, pol)
            b = self.summary("code", target, pname, pol, ps)
            if isinstance(a, Exception) or isinstance(b, Exception):
                w = a if isinstance(a, Exception) else b
                best.setdefault("*", Verdict(target, "*", "undecided", "not analysable (%s): %s" % (pname, w), fc.where))
                continue
            allok = True
            try:
                res = list(compare_summaries(a, b, want, skip))
            except Exception as e:
                best.setdefault("*", Verdict(target, "*", "undecided", "not comparable (%s): %s" % (pname, e), fc.where))
                continue
            pdiffs[pname] = [d for n, d, u in res if d is not None]
            differs = [n for n, d, u in res if d is not None or u is not None]
            allok = not differs
            for name, d, und in res:
                cur = best.get(name)
                if cur is not None and cur.status == "holds":
                    continue
                if d is None and und is None:
                    # (a location whose holder differs as a whole is not settled by its own entry)
                    if not any(name != q and q.startswith("write:") and name.startswith(q) for q in differs):
                        best[name] = Verdict(target, name, "holds", pname, fc.where)
                    continue
                if und is not None:
                    v = Verdict(target, name, "undecided", und, fc.where)
                else:
                    ok, why = classify(d)
                    v = Verdict(target, name, "violation" if ok else "undecided", why, fc.where, d)
                if cur is None:
                    best[name] = v
                elif cur.status == "violation" and v.status == "undecided" and pname.startswith("calls"):
                    pass
                cur = best[name]
                cur.tries = getattr(cur, "tries", ()) + ((pname, v.status),)
            done = {n for n, _, _ in res}
            if allok and res is not None:
                # projections of other policies that do not exist here hold trivially
                for n in list(best):
                    if best[n].status != "holds":
                        best[n] = Verdict(target, n, "holds", pname, fc.where)
                break
        if "*" in best and len(best) > 1:
            del best["*"]
        if any(v.status == "violation" for v in best.values()):
            self.interpret(target, best, ps, transparent)
        if soft:
            for v in best.values():
                if v.status == "violation" and any(_about(v.diff, n) for n in soft):
                    v.status, v.detail = "undecided", "only reached with an explicit None: " + v.detail
        if want is not None:
            sig = [v for v in sig if any(oblig._match(v.proj, w) for w in want)]
        return list(best.values()) + sig

    def interpret(self, target, best, ps, transparent):
        """a difference of normal forms counts when some model tells the two apart under every summarisation"""
        bad = [v for v in best.values() if v.status == "violation"]
        seen = None
        weak = False
        returning = any(not v.proj.startswith("raise") for v in bad)
        for pname, pol in self.policies(transparent):
            a = self.summary("ref", target, pname, pol)
            b = self.summary("code", target, pname, pol, ps)
            if isinstance(a, Exception) or isinstance(b, Exception):
                continue
            if time.process_time() > 700:
                weak = True
                break
            tm.COUNT[0] = 0
            compare.DEADLINE[0] = time.process_time() + (10 if time.process_time() < 400 else 2)
            diffs = self.pdiffs.get(pname) or [v.diff for v in bad if v.diff is not None]
            diffs = self.spread(a, b, diffs)
            loops = any(re.match(r"(mu|for|efor|mfor|sum|exists)\d*$", x) for d in diffs for x in d.path)
            d, hits, n = model.refute(a, b, diffs, returning=returning, loops=loops)
            if os.environ.get("SA_MODEL"):
                print("MODEL", target, pname, d and d[0], hits, n)
            if d is not None:
                seen = seen or d[0]
                continue
            if hits < 4:
                weak = weak or n > 0
                continue
            for v in bad:
                v.status, v.detail = "holds", "interpretation: %d models, %d on the differing branch (%s)" % (n, hits, pname)
            return
        for v in bad:
            if weak and not seen:
                v.status, v.detail = "undecided", "normal forms differ on a branch no model takes: " + str(v.detail)[:200]
            if seen:
                v.detail = "%s [told apart by a model: %s]" % (v.detail, seen)

    def spread(self, a, b, diffs):
        have = {tuple(d.assign) for d in diffs}
        out = list(diffs)
        try:
            more = more_differences(a, b, diffs)
        except (tm.Budget, RecursionError):
            more = []
        for d in more:
            if tuple(d.assign) not in have:
                have.add(tuple(d.assign))
                out.append(d)
        return out

    def caching(self, target, fr, fc):
        """a remembered result (cached_property, lru_cache) is only the same if nothing it is computed from can change"""
        if not fc.cached or fr.cached:
            return []
        args = fc.node.args.posonlyargs + fc.node.args.args
        me = args[0].arg if args and fc.cls is not None and fc.kind != "static" else None
        state = sorted({n.attr for n in ast.walk(fc.node) if isinstance(n, ast.Attribute)
                        and isinstance(n.value, ast.Name) and n.value.id == me})
        if me is None:
            return []
        fixed = all(self._constant(fc.cls, s) for s in state)
        return [Verdict(target, "caching", "holds" if fixed else "violation",
                        "" if fixed else "the first result is kept although it depends on state that can change: self.%s"
                        % ", self.".join(state), fc.where)]

    def sharing(self, target, fc, ps):
        """two attributes that were separate containers must not become one; a copy must not become the caller's object"""
        pname, pol = list(self.policies(()))[0]
        a = self.summary("ref", target, pname, pol)
        b = self.summary("code", target, pname, pol, ps)
        if isinstance(a, Exception) or isinstance(b, Exception):
            return []
        x, y = getattr(a, "shares", set()), getattr(b, "shares", set())
        bad = ["%s and %s are one container" % w[1:] for w in sorted(y - x) if w[0] == "shares"]
        bad += ["%s keeps the argument %s instead of a copy" % w[1:] for w in sorted(y - x)
                if w[0] == "keeps" and ("copies",) + w[1:] in x]
        if not bad and not any(w[0] in ("shares", "copies") for w in x):
            return []
        return [Verdict(target, "sharing", "violation" if bad else "holds", "; ".join(bad), fc.where)]

    @staticmethod
    def _constant(cls, name):
        f = cls.methods.get(name)
        return f is not None and f.kind == "static" and not f.node.args.args

    def signature(self, target, fr, fc, ps):
        out, soft = [], []
        private = fr.name.startswith("_") and not fr.name.startswith("__")
        for name, bad in decls.compare_signature(self.ref, fr, self.code, fc):
            if bad is None:
                out.append(Verdict(target, name, "holds", "signature", fc.where))
            elif isinstance(bad, tuple):
                # a default moved into the body (or out of it): compare the call without the argument
                n = bad[1]
                a = self.summary("ref", target, "dflt:" + n, Policy(known=self.known), [p for p in ps if p != n])
                b = self.summary("code", target, "dflt:" + n, Policy(known=self.known), [p for p in ps if p != n])
                if isinstance(a, Exception) or isinstance(b, Exception):
                    out.append(Verdict(target, name, "undecided", "default not comparable", fc.where))
                    continue
                bads = [(nm, d) for nm, d, u in compare_summaries(a, b, None, ()) if d is not None or u is not None]
                if bads:
                    out.append(Verdict(target, name, "violation", "default of %r is %s, expected %s" % (n, show(bad[3], 6), show(bad[2], 6)), fc.where))
                elif bad[3].op in ("emptydict", "seq", "map") and self._outlives(target, n, ps):
                    out.append(Verdict(target, name, "violation", "the default object of %r is changed or kept, and shared by all calls" % n, fc.where))
                else:
                    soft.append(n)
                    out.append(Verdict(target, name, "holds", "default moved", fc.where))
            else:
                out.append(Verdict(target, name, "undecided" if private else "violation", bad, fc.where))
        return out, soft

    def _outlives(self, target, n, ps):
        pname, pol = list(self.policies(()))[0]
        b = self.summary("code", target, pname, pol, ps)
        if isinstance(b, Exception):
            return False
        for ident, _ in b.effects:
            while ident.op in ("attr", "getitem") and ident.a:
                ident = ident.a[0]
            if ident.op == "param" and ident.a[0] == n:
                return True
        return any(w[0] == "keeps" and w[2] == n for w in getattr(b, "shares", ()))

    def decide_decl(self, target):
        mod, nm = target.split(":", 1)
        rm = self.ref.repo.modules["yaocptool." + mod if mod != "yaocptool" else mod]
        cm = self.code.repo.modules.get(rm.name)
        if cm is None:
            return [Verdict(target, "exists", "missing", "module not found", mod)]
        if nm == "module":
            return [Verdict(target, n, "violation" if b else "holds", b or "", cm.relpath)
                    for n, b in decls.compare_module(self.ref, rm, self.code, cm)]
        cn = nm.split(" ", 1)[1]
        rc = rm.classes[cn]
        cc = self.code.repo.find_class(rc.qual)
        if cc is None:
            return [Verdict(target, "exists", "missing", "class not found", cm.relpath)]
        where = "%s:%d" % (cc.module.relpath, cc.node.lineno)
        return [Verdict(target, n, "violation" if b else "holds", b or "", where)
                for n, b in decls.compare_class(self.ref, rc, self.code, cc)]

    def all_targets(self):
        for m in self.ref.repo.modules.values():
            sh = m.name.split(".", 1)[1] if "." in m.name else m.name
            if m.consts:
                yield sh + ":module"
            for f in m.functions.values():
                yield sh + ":" + f.name
            for c in m.classes.values():
                if decls.class_fields(c):
                    yield "%s:class %s" % (sh, c.name)
                for f in c.methods.values():
                    yield "%s:%s.%s" % (sh, c.name, f.name)
                for f in c.setters.values():
                    yield "%s:%s.%s.setter" % (sh, c.name, f.name)


def _last(target):
    p = target.split(":", 1)[1].split(".")
    return p[-2] if p[-1] == "setter" else p[-1]


def _about(d, n):
    if d is None:
        return False
    p = mk("param", n)
    return any(x.op in ("isnone", "truth") and x.a[0] is p for x, v in d.assign)


BOT = mk("bottom")


class Verdict(object):
    def __init__(self, target, proj, status, detail, where, diff=None):
        self.target, self.proj, self.status, self.detail, self.where, self.diff = target, proj, status, detail, where, diff

    def copy(self):
        import copy
        return copy.copy(self)

    def __repr__(self):
        return "%s %s [%s] %s" % (self.status, self.target, self.proj, self.detail)


def more_differences(a, b, diffs, n=12):
    """further branches on which the two summaries differ: each branch condition of a known difference
    is turned round in turn"""
    g = tm.FALSE
    for r in oblig.raise_table(a).values():
        g = tm.bor(g, r)
    proj = {name: (x, y) for name, x, y in oblig.projections(a, b)}
    out, todo, seen = [], [], set()
    shapes = set()
    budget = 12000

    def push(d, forced):
        sh = re.sub(r"\$[a-z]+[0-9]+", "$", show(d.a) + " | " + show(d.b))
        old = sh in shapes
        shapes.add(sh)
        near = _roots(d.a) | _roots(d.b)
        for i in range(len(d.assign)):
            c, v = d.assign[-1 - i]
            if c.fv or any(c is x for x, _ in forced):
                continue
            f = forced + ((c, not v),)
            k = (d.path[0], frozenset(f))
            if k not in seen:
                seen.add(k)
                todo.append((0 if _roots(c) & near else 1, old + (c.op not in ("isa", "isnone", "truth", "eq", "is")), len(f), i, d.path[0], f))
        todo.sort(key=lambda q: q[:4])
    for d in diffs:
        if d.path and d.path[0] in proj:
            push(d, ())
    while todo and len(out) < n and budget > 0:
        name, forced = todo.pop(0)[4:]
        x, y = proj[name]
        if g is not tm.FALSE and not name.startswith("raise"):
            x, y = tm.ite(g, BOT, x), tm.ite(g, BOT, y)
        for c, v in forced:
            w = tm.TRUE if v else tm.FALSE
            x, y = replace(x, c, w), replace(y, c, w)
        cmp_ = Comparer(min(budget, 1500))
        try:
            e = cmp_.eq(x, y, (name,), forced)
        except Undecided:
            e = None
        budget -= 100 + 1500 - max(cmp_.budget, 0)
        if e is None:
            continue
        out.append(e)
        push(Diff(e.a, e.b, e.path, [q for q in e.assign if q not in forced]), forced)
    return out


_ROOTS = {}


def _roots(t):
    """parameters and attributes a term is made of"""
    r = _ROOTS.get(t)
    if r is None:
        r, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "param" and x.a[0] != "self" or x.op == "attr":
                    r.add(x)
                todo.extend(x.a)
        _ROOTS[t] = r = frozenset(r)
    return r


def compare_summaries(a, b, want, skip):
    g = tm.FALSE
    for r in oblig.raise_table(a).values():
        g = tm.bor(g, r)
    for name, x, y in oblig.projections(a, b):
        if want is not None and not any(oblig._match(name, w) for w in want):
            continue
        if any(oblig._match(name, w) for w in skip):
            continue
        c = Comparer()
        try:
            d = c.eq(x, y, (name,))
            if d is not None and g is not tm.FALSE and not name.startswith("raise"):
                # the value is irrelevant where the call fails in the reference
                c = Comparer()
                d = c.eq(tm.ite(g, BOT, x), tm.ite(g, BOT, y), (name,))
            yield name, d, None
        except Undecided as e:
            yield name, None, str(e)
