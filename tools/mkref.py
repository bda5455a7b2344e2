"""Write the reference definitions (/verif/ref) from a reviewed tree.

Run by hand after a reviewed change of /repo; never by a check.  Docstrings and
comments are dropped: only what is evaluated is kept."""
import ast
import os
import shutil
import sys


class Strip(ast.NodeTransformer):
    def _doc(self, node):
        self.generic_visit(node)
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        node.body = b or [ast.Pass()]
        return node
    visit_FunctionDef = visit_ClassDef = visit_Module = visit_AsyncFunctionDef = _doc


def main(src, dst):
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    for dp, dn, fn in os.walk(os.path.join(src, "yaocptool")):
        dn[:] = [d for d in dn if d != "__pycache__"]
        for f in fn:
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            out = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(p, encoding="utf-8") as fh:
                t = Strip().visit(ast.parse(fh.read()))
            with open(out, "w", encoding="utf-8") as fh:
                fh.write(ast.unparse(ast.fix_missing_locations(t)) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
