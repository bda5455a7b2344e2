"""Hand-written behaviour-preserving (R*) edits must stay quiet.  usage: hand.py [names...]"""
import ast
import importlib
import multiprocessing
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import decide as D, rules
from sa.repo import Repo
from sa.purity import Purity
import check


def session(edits):
    S = D.Session("/repo")
    r = Repo("/repo", overrides=edits)
    S.code.repo = r
    S.code.purity = Purity(r)
    return S


def job(a):
    name, eds = a
    ov = {}
    for f, old, new in eds:
        p = os.path.join("/repo", f)
        s = ov.get(f)
        if s is None:
            s = open(p).read() if os.path.exists(p) else ""
        if isinstance(old, tuple):      # region: from the start text up to (not including) the end text
            if s.count(old[0]) != 1 or old[1] not in s[s.index(old[0]):]:
                return name, "BADEDIT region %s: %s" % (f, old), []
            i = s.index(old[0])
            j = s.index(old[1], i + len(old[0]))
            s = s[:i] + new + s[j:]
        elif old == "" and s == "":
            s = new
        else:
            import re
            pat = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in re.split(r"\n(?:[ \t]*\n)*", old))
            m = re.findall(pat, s)
            if s.count(old) != 1 and len(m) == 1:
                old = m[0]
            if s.count(old) != 1:
                return name, "BADEDIT %s count=%d: %s" % (f, s.count(old), old[:60]), []
            s = s.replace(old, new)
        try:
            ast.parse(s)
        except SyntaxError as e:
            return name, "BADEDIT syntax %s" % e, []
        ov[f] = s
    S = session(ov)
    if S.code.repo.errors:
        return name, "SYNTAX", []
    ts = [t for t in S.all_targets() if t not in check.NOT_ANALYSED]
    vs = rules.run(S, {}, ts, {})
    bad = [v for v in vs if v.status in ("violation", "missing")]
    und = [v for v in vs if v.status == "undecided"]
    return name, ("VIOL" if bad else "UND" if und else "quiet"), ["%s %s [%s] %s" % (v.status, v.target, v.proj, str(v.detail)[:int(os.environ.get("N", "400"))]) for v in bad + und]


def main():
    R = importlib.import_module("selftest.refactors").R
    import glob
    for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors_*.py"))):
        importlib.import_module("selftest." + os.path.basename(p)[:-3])
    names = sys.argv[1:]
    todo = [(n, e) for n, e in R if not names or any(n.startswith(x) for x in names)]
    with multiprocessing.Pool(8, maxtasksperchild=2) as p:
        for n, st, lines in p.imap_unordered(job, todo):
            print(n, st, flush=True)
            for l in lines[:3]:
                print("    " + l)


if __name__ == "__main__":
    main()
