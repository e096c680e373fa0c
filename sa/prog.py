"""Program model: the parsed source of the analysed package."""

import ast
import os


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.oid = None          # scope object holding the globals
        self.state = "new"


class Program:
    """All modules below <root>/ibl (parsed only, never imported)."""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        base = os.path.join(root, "ibl")
        for d, dirs, fs in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "data"))
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf8") as fh:
                    src = fh.read()
                tree = ast.parse(src, rel)
                self.modules[name] = Module(name, rel, tree, src)
                self.modules[name].is_pkg = f == "__init__.py"

    def counts(self):
        nf = nc = 0
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nf += 1
                elif isinstance(n, ast.ClassDef):
                    nc += 1
        return {"modules": len(self.modules), "functions": nf, "classes": nc}
