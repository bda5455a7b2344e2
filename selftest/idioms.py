"""pairs of small functions: SAME pairs must be proved equal (or stay quiet), DIFF pairs must be told apart.
usage: python3 -m selftest.idioms [n...]"""
import os
import shutil
import sys
import tempfile
import textwrap

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
HEAD = """
import itertools, functools, operator, collections, copy
from itertools import chain, product, zip_longest
from collections import defaultdict, OrderedDict
from contextlib import suppress
from casadi import vertcat, horzcat, DM, SX, repmat, substitute, Function, inf, vec, mtimes, sumsqr
class C:
    def __init__(self, model):
        self.model = model
        self.xs = []
        self.d = {}
    @property
    def n(self):
        return self.model.n_x
"""


def run(pairs, expect, only):
    from sa import decide as D
    bad = 0
    for i, (nm, a, b) in enumerate(pairs):
        if only and nm not in only:
            continue
        d = tempfile.mkdtemp()
        for side, src in (("ref", a), ("code", b)):
            os.makedirs(os.path.join(d, side, "yaocptool"))
            open(os.path.join(d, side, "yaocptool", "__init__.py"), "w").close()
            src = textwrap.dedent(src).strip("\n")
            if src.startswith("M:"):
                src = "\n" + textwrap.indent(textwrap.dedent(src[2:]).strip("\n"), "    ")
            with open(os.path.join(d, side, "yaocptool", "m.py"), "w") as fh:
                fh.write(HEAD + src + "\n")
        try:
            S = D.Session(os.path.join(d, "code"), os.path.join(d, "ref"))
            st = set()
            for t in ("m:f", "m:C.f"):
                try:
                    vs = S.decide(t)
                except KeyError:
                    continue
                st |= {v.status for v in vs}
                det = [str(v.detail) for v in vs if v.status != "holds"]
        finally:
            shutil.rmtree(d)
        r = "VIOL" if "violation" in st else "UND" if "undecided" in st else "HOLDS"
        ok = r in expect
        bad += not ok
        if not ok or only or r == "UND":
            print(nm, r, "" if ok else "UNEXPECTED", (det[0][:300] if det else ""))
    return bad


if __name__ == "__main__":
    from selftest.idiom_pairs import SAME, DIFF
    only = sys.argv[1:]
    b = run(SAME, ("HOLDS", "UND"), only)
    b += run(DIFF, ("VIOL",), only)
    print("unexpected:", b)
