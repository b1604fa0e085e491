"""Name resolution, public surface and docstring facts shared by the rule analysers."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTIN = set(dir(__builtins__ if not isinstance(__builtins__, dict) else type("B", (), __builtins__)))


class Fn:
    """a function, method, nested function or named lambda of the package"""

    def __init__(self, mod, qual, node, cls=None, outer=None):
        self.mod, self.qual, self.node, self.cls, self.outer = mod, qual, node, cls, outer
        self.name = qual.rsplit(".", 1)[-1]

    @property
    def full(self):
        return self.mod.name + "." + self.qual

    @property
    def args(self):
        return self.node.args

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])

    def body(self):
        if isinstance(self.node, ast.Lambda):
            if not hasattr(self.node, "_ret"):
                r = ast.Return(value=self.node.body)
                ast.copy_location(r, self.node.body)
                self.node._ret = [r]
            return self.node._ret
        return self.node.body

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(self.node, "decorator_list", []))

    def doc(self):
        return (ast.get_docstring(self.node) or "") if not isinstance(self.node, ast.Lambda) else ""

    def loc(self, node=None):
        return "%s:%d" % (self.mod.rel, getattr(node if node is not None else self.node, "lineno", 0))

    def __repr__(self):
        return self.full


class Names:
    """resolution of names over the whole package"""

    def __init__(self, project):
        self.p = project
        self.imports = {}      # module -> {name: dotted}
        self.globals = {}      # module -> {name: [value nodes]}
        self.fns = {}          # full name -> Fn  (module level functions, methods, named lambdas, nested functions)
        self.classes = {}      # full name -> (mod, ClassDef)
        for m in project.mods.values():
            self._module(m)
        self._stars()

    # ------------------------------------------------------------ tables
    def _module(self, m):
        imp = self.imports[m.name] = {}
        glo = self.globals[m.name] = {}
        self.star = getattr(self, "star", {})
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        imp[a.asname] = a.name
                    else:
                        imp[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = self.p.resolve_from(m, n)
                for a in n.names:
                    if a.name == "*":
                        self.star.setdefault(m.name, []).append(base)
                    else:
                        imp[a.asname or a.name] = base + "." + a.name
        self._block(m, m.tree.body, "", None, None)
        for n in self._toplevel(m.tree.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._gl(glo, t, n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                glo.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                glo.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For,)):
                self._gl(glo, n.target, None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self._gl(glo, i.optional_vars, None)

    def _gl(self, glo, t, v):
        if isinstance(t, ast.Name):
            glo.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for z in t.elts:
                self._gl(glo, z, None)

    def _toplevel(self, body):
        for n in body:
            yield n
            for f in ("body", "orelse", "finalbody"):
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    yield from self._toplevel(getattr(n, f, []) or [])
            for h in getattr(n, "handlers", []) or []:
                yield from self._toplevel(h.body)

    def _block(self, m, body, prefix, cls, outer):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, prefix + n.name, n, cls, outer)
                self.fns[f.full] = f
                n._fn = f
                self._block(m, n.body, prefix + n.name + ".", None, f)
            elif isinstance(n, ast.ClassDef):
                self.classes[m.name + "." + prefix + n.name] = (m, n)
                n._cls = m.name + "." + prefix + n.name
                self._block(m, n.body, prefix + n.name + ".", n._cls, outer)
            else:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    f = Fn(m, prefix + n.targets[0].id, n.value, cls, outer)
                    self.fns.setdefault(f.full, f)
                    n.value._fn = f
                for fld in ("body", "orelse", "finalbody"):
                    self._block(m, getattr(n, fld, []) or [], prefix, cls, outer)
                for h in getattr(n, "handlers", []) or []:
                    self._block(m, h.body, prefix, cls, outer)

    def _stars(self):
        for m, bases in self.star.items():
            for b in bases:
                if b in self.p.mods:
                    for n in self.exported(b):
                        self.imports[m].setdefault(n, b + "." + n)

    def all_list(self, mod):
        """names in __all__ of a module, or None"""
        m = self.p.mods[mod]
        out = None
        for n in m.tree.body:
            v = None
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
                v = n.value
                out = []
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == "__all__":
                v = n.value
            if v is not None:
                for z in ast.walk(v):
                    if isinstance(z, ast.Constant) and isinstance(z.value, str):
                        out = (out or []) + [z.value]
        return out

    def exported(self, mod):
        a = self.all_list(mod)
        if a is not None:
            return a
        m = self.p.mods[mod]
        names = list(m.defs) + list(self.globals[mod]) + list(self.imports[mod])
        return [n for n in names if not n.startswith("_")]

    # ------------------------------------------------------------ resolution
    def dotted(self, mod, node):
        """dotted text of an expression a.b.c with the root resolved through the imports, or None"""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        root = self.imports[mod.name].get(node.id)
        if root is None:
            if node.id in mod.defs or node.id in self.globals[mod.name]:
                root = mod.name + "." + node.id
            else:
                return None
        return self.canon(".".join([root] + parts[::-1]))

    def canon(self, dotted, depth=0):
        """follow re-exports inside the package"""
        if depth > 12 or not dotted.startswith(self.p_pkg()):
            return dotted
        if dotted in self.p.mods or dotted in self.fns or dotted in self.classes:
            return dotted
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            base = ".".join(parts[:k])
            if base in self.p.mods:
                nm = parts[k]
                t = self.imports[base].get(nm)
                if t and t != dotted:
                    return self.canon(".".join([t] + parts[k + 1:]), depth + 1)
                g = self.globals[base].get(nm)
                if g and len(g) == 1 and isinstance(g[0], (ast.Name, ast.Attribute)):
                    d = self.dotted(self.p.mods[base], g[0])
                    if d and d != dotted:
                        return self.canon(".".join([d] + parts[k + 1:]), depth + 1)
                return dotted
        return dotted

    def p_pkg(self):
        return "PyDynamic"

    def method(self, cls, name):
        """function of a method, following base classes inside the package"""
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            if c + "." + name in self.fns:
                return self.fns[c + "." + name]
            m, node = self.classes[c]
            for b in node.bases:
                d = self.dotted(m, b)
                if d:
                    todo.append(d)
        return None

    # ------------------------------------------------------------ public surface
    def public(self):
        """functions a user calls: full name -> Fn, including methods of public classes"""
        base = set(json.load(open(os.path.join(HERE, "public.json"))))
        exp = set()
        for m in self.p.mods:
            a = self.all_list(m)
            for n in a or []:
                exp.add(self.canon(m + "." + n))
        out = {}
        for full, f in self.fns.items():
            if f.outer is not None:
                continue
            if f.cls:
                if f.name.startswith("_") and f.name not in ("__init__", "__call__"):
                    continue
                if f.cls in base or f.cls in exp:
                    out[full] = f
            elif full in base or full in exp:
                out[full] = f
        return out


# ---------------------------------------------------------------- docstring facts

SCALAR_W = re.compile(r"\b(int|integer|float|bool|boolean|str|string|scalar|number)\b", re.I)
ARRAY_W = re.compile(r"\b(nd)?array|\blist\b|\bmatrix|\bvector|iterable|sequence|\bdict|covariance|time series|shape|array_like|np\.matrix|values?\b", re.I)


def param_docs(fn):
    """{param: text of its description} from the numpydoc parameter section"""
    out = {}
    names = set(fn.params())
    cur = None
    for line in fn.doc().splitlines():
        m = re.match(r"^\s*([\w, ]+?)\s*:\s*(.*)$", line)
        if m:
            ns = [z.strip() for z in m.group(1).split(",")]
            if all(z in names for z in ns):
                for z in ns:
                    out[z] = m.group(2)
                cur = ns
                continue
        if re.match(r"^\s*(Returns|Raises|References|Notes)\b", line):
            cur = None
        if cur and line.strip():
            for z in cur:
                out[z] += " " + line.strip()
    return out


def kind_of(fn, p, cache={}):
    """'scalar', 'array', 'maybe' or 'unknown' from documentation, annotation and use"""
    key = (id(fn.node), p)
    if key in cache:
        return cache[key]
    cache[key] = r = _kind(fn, p)
    return r


def _kind(fn, p):
    d = param_docs(fn).get(p, "")
    for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
        if a.arg == p and a.annotation is not None:
            d = ast.unparse(a.annotation) + " " + d
    head = d.split(". ")[0]
    arr = bool(re.search(r"\b(nd)?array|\blist\b|\bmatrix|\bvector|iterable|sequence|\bdict|array_like|of shape", head, re.I))
    sca = bool(SCALAR_W.search(head))
    used = used_as_array(fn, p)
    if arr or used:
        return "maybe" if sca and not used else "array"
    if sca:
        return "scalar"
    return "unknown"


def used_as_array(fn, p):
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in (
                "shape", "size", "ndim", "T", "real", "imag", "append", "mean", "sum", "squeeze", "dot", "tolist", "values", "items"):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate", "zip") and any(
                isinstance(a, ast.Name) and a.id == p for a in n.args):
            return True
    return False
