"""Deciding one obligation: repository function vs reference definition."""
import time
from . import terms as tm
from .terms import TRUE, FALSE, mk, bor, show, T
from .evalr import Evaluator, Policy, Unsupported
from .compare import Comparer, Diff, Undecided

ATTR_TYPES = {}
PARAM_TYPES = {}
Y = "yaocptool."
for nm, q in {
    "model": "modelling.system_model.SystemModel",
    "problem": "modelling.ocp.OptimalControlProblem",
    "solution_method": "methods.base.solutionmethodsbase.SolutionMethodsBase",
    "nlp": "optimization.abstract_optimization_problem.AbstractOptimizationProblem",
    "opt_problem": "optimization.abstract_optimization_problem.AbstractOptimizationProblem",
    "dataset": "modelling.dataset.DataSet",
    "network": "modelling.network.network.Network",
    "optimization_result": "methods.base.optimizationresult.OptimizationResult",
    "dae_system": "modelling.dae_system.DAESystem",
    "dae_sys": "modelling.dae_system.DAESystem",
}.items():
    ATTR_TYPES[(None, nm)] = Y + q
    PARAM_TYPES[nm] = Y + q
ATTR_TYPES[("()", "get_dae_system")] = Y + "modelling.dae_system.DAESystem"
ATTR_TYPES[("()", "get_copy")] = None


class Result(object):
    def __init__(self, target, status, detail="", diff=None, where="", keys=(), steps=0, proj=None):
        self.target, self.status, self.detail, self.diff, self.where = target, status, detail, diff, where
        self.keys = keys
        self.steps = steps
        self.proj = proj


def effect_name(key):
    base, nm = key
    s = show(base, 6)
    return s + "." + nm if nm else s


def summarize(ctx, fi, cls, policy, spec_params=None, use_spec=True):
    ev = Evaluator(ctx.repo, policy, ATTR_TYPES, PARAM_TYPES, spec=ctx.spec, purity=ctx.purity)
    s = ev.summarize(fi, cls, spec_params)
    s.steps = ev.steps
    return s


def params_of(fi):
    a = fi.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def raise_table(s):
    out = {}
    for g, ty, eff in s.raises:
        nm = ty.a[1]
        out[nm] = bor(out.get(nm, FALSE), g)
    return out


def projections(a, b):
    """a: reference, b: code.  -> (projection, reference value, code value)"""
    if not (a.ret.op == "noreturn" and b.ret.op == "noreturn"):
        yield "return", a.ret, b.ret
    for k in sorted(set(a.effects) | set(b.effects), key=effect_name):
        base, nm = k
        init = mk("attr", base, nm) if nm else base
        yield "write:" + effect_name(k), a.effects.get(k, init), b.effects.get(k, init)
    ra, rb = raise_table(a), raise_table(b)
    # whether the call fails at all, then with what
    ta = tb = FALSE
    for g in ra.values():
        ta = bor(ta, g)
    for g in rb.values():
        tb = bor(tb, g)
    if ta is not FALSE or tb is not FALSE:
        yield "raises", ta, tb
        if set(ra) != set(rb) or len(ra) > 1:
            for nm in sorted(set(ra) | set(rb)):
                yield "raises:" + nm, ra.get(nm, FALSE), rb.get(nm, FALSE)
        # state left behind by a rejected call
        ea, eb = _raise_effects(a), _raise_effects(b)
        for k in sorted(set(ea) | set(eb), key=effect_name):
            yield "raised-write:" + effect_name(k), ea.get(k, FALSE), eb.get(k, FALSE)


def _raise_effects(s):
    """location -> condition under which a raising exit leaves it modified"""
    out = {}
    for g, ty, eff in s.raises:
        for k, v in eff.items():
            out[k] = bor(out.get(k, FALSE), g)
    return out


def _match(name, w):
    import fnmatch
    return fnmatch.fnmatch(name, w)
