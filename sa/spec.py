"""Reference definitions (/verif/spec/*.py).  Parsed, never executed."""
import ast
import os
from .repo import ModuleInfo, FuncInfo, ClassInfo


class SpecSet(object):
    def __init__(self, repo, directory):
        self.repo = repo
        self.funcs = {}      # target string -> FuncInfo
        self.by_cls = {}     # (class qual, name) -> FuncInfo
        self.helpers = {}
        for fn in sorted(os.listdir(directory)):
            if not fn.endswith(".py"):
                continue
            path = os.path.join(directory, fn)
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read(), filename=path)
            self._load(fn, path, tree)

    def _load(self, fn, path, tree):
        mi = ModuleInfo("spec." + fn[:-3], path, "spec/" + fn, tree, False)
        target = None
        for st in tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == "MODULE":
                target = ast.literal_eval(st.value)
            elif isinstance(st, ast.ClassDef):
                rc = self.repo.find_class(target + "." + st.name)
                for b in st.body:
                    if isinstance(b, ast.FunctionDef):
                        fi = FuncInfo(b, mi, rc if rc is not None else None, spec=True)
                        short = target.split("yaocptool.", 1)[1]
                        key = "%s:%s.%s" % (short, st.name, b.name)
                        if fi.kind == "setter":
                            key += ".setter"
                        self.funcs[key] = fi
                        self.by_cls[(target + "." + st.name, b.name)] = fi
            elif isinstance(st, ast.FunctionDef):
                fi = FuncInfo(st, mi, None, spec=True)
                short = target.split("yaocptool.", 1)[1]
                self.funcs["%s:%s" % (short, st.name)] = fi
                self.helpers[st.name] = fi

    def helper(self, nm):
        return self.helpers.get(nm)

    def fallback_method(self, cls, name):
        for c in self.repo.mro(cls):
            f = self.by_cls.get((c.qual, name))
            if f is not None:
                return f
        return None
