"""Measure the analysis on generated edits.  usage: run.py refactor|mutate [pattern] [--max N] [--jobs J]"""
import ast
import copy
import multiprocessing
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import decide as D, rules
from sa.repo import ModuleInfo, Repo
from sa.purity import Purity
from selftest import edits


class Ctx(object):
    pass


def with_module(base, mod, tree):
    r = copy.copy(base.repo)
    r.modules = dict(base.repo.modules)
    m0 = r.modules[mod]
    r.modules[mod] = ModuleInfo(m0.name, m0.path, m0.relpath, tree, m0.is_pkg)
    r._mro = {}
    c = Ctx()
    c.repo, c.spec = r, None
    c.purity = Purity(r)
    return c


def targets(repo):
    for m in repo.modules.values():
        sh = m.name.split(".", 1)[1] if "." in m.name else m.name
        for f in m.functions.values():
            yield sh + ":" + f.name, m.name
        for c in m.classes.values():
            for f in c.methods.values():
                yield "%s:%s.%s" % (sh, c.name, f.name), m.name
            for f in c.setters.values():
                yield "%s:%s.%s.setter" % (sh, c.name, f.name), m.name


def job(a):
    kind, t, mod, mx, seed = a
    S = D.Session("/repo")
    base = S.code
    fi, _ = base.repo.find_target(t)
    m = base.repo.modules[mod]
    out = []
    n0 = fi.node
    if kind == "mutate":
        eds = [(l, n, []) for l, n in edits.mutations(n0, fi.cls)]
    else:
        eds = list(edits.refactorings(n0, fi.cls))
    rnd = random.Random(seed)
    if len(eds) > mx:
        eds = rnd.sample(eds, mx)
    for label, new, helpers in eds:
        tree = copy.deepcopy(m.tree)
        done = False
        for node in ast.walk(tree):
            if isinstance(node, (ast.ClassDef, ast.Module)):
                for i, x in enumerate(node.body):
                    if isinstance(x, ast.FunctionDef) and x.name == n0.name and x.lineno == n0.lineno:
                        node.body[i] = new
                        node.body.extend(helpers)
                        done = True
        if not done:
            continue
        try:
            S.code = with_module(base, mod, tree)
        except Exception as e:
            out.append((t, label, "ERR", repr(e)))
            continue
        S.vmemo = {}
        S.memo = {k: v for k, v in S.memo.items() if k[0] == "ref"}
        t0 = time.time()
        try:
            vs = rules.run(S, {}, [t], {}) if os.environ.get("RULES", "1") == "1" else S.decide(t)
        except Exception as e:
            import traceback
            out.append((t, label, "CRASH", traceback.format_exc(limit=-3)))
            continue
        bad = [v for v in vs if v.status == "violation"]
        und = [v for v in vs if v.status == "undecided"]
        st = "VIOL" if bad else "UND" if und else "HOLDS"
        w = (bad or und or [None])[0]
        out.append((t, label, st, (w.proj + " " + str(w.detail))[:700] if w else "", round(time.time() - t0, 1)))
    return out


def main():
    kind = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else ""
    mx = int(sys.argv[sys.argv.index("--max") + 1]) if "--max" in sys.argv else 12
    outf = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else "/tmp/selftest.%s.tsv" % kind
    repo = Repo("/repo")
    sd = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
    jobs = [(kind, t, m, mx, sd) for t, m in targets(repo) if pat in t]
    cnt = {}
    with multiprocessing.Pool(8, maxtasksperchild=20) as p, open(outf, "w") as fh:
        for res in p.imap_unordered(job, jobs, chunksize=1):
            for r in res:
                cnt[r[2]] = cnt.get(r[2], 0) + 1
                fh.write("\t".join(str(x).replace("\n", " ") for x in r) + "\n")
                fh.flush()
    print(cnt)


if __name__ == "__main__":
    main()
