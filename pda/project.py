"""Source loading and name resolution for the analysed package."""
import ast
import os

REPO = os.environ.get("PDA_REPO", "/repo")
PKG = "PyDynamic"


class AnchorMissing(Exception):
    """Something the analysis is anchored on vanished: analysis error (exit 2)."""


class Mod:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnchorMissing("package directory %s not found" % root)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    src = open(p, encoding="utf-8").read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, filename=p)
                    self.mods[rel] = Mod(rel, p, tree, src)
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n

    def mod(self, name):
        if name not in self.mods:
            raise AnchorMissing("module %s not found" % name)
        return self.mods[name]

    def resolve_from(self, mod, node):
        """absolute module name of an ImportFrom node"""
        if node.level == 0:
            return node.module
        base = mod.name.split(".")
        if not mod.is_pkg:
            base = base[:-1]
        up = node.level - 1
        if up:
            base = base[:-up]
        return ".".join(base + (node.module.split(".") if node.module else []))

    def functions(self):
        """all (module, qualname, FunctionDef/Lambda) in the package"""
        for m in self.mods.values():
            stack = [("", m.tree)]
            while stack:
                q, n = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, q + c.name, c
                        stack.append((q + c.name + ".", c))
                    elif isinstance(c, ast.ClassDef):
                        stack.append((q + c.name + ".", c))
                    else:
                        stack.append((q, c))


def loc(mod, node):
    return "%s:%d" % (mod.rel if isinstance(mod, Mod) else mod, getattr(node, "lineno", 0))
