"""May-alias and effect analysis: which objects a function may write to.

Forward flow analysis over the syntax tree, joined at branches, with function summaries.  A value is a set
of tokens naming the objects it may be (a view of):
  P:<p>   the caller's object passed as parameter p        D:<p>   the default object of parameter p
  G:<m>:<n> module-level object n of module m              K:<c>:<a> class-level attribute a of class c
  A:<c>:<a> attribute a of the object itself               F:<k>   object created at syntax node k
  S       the object itself (self)                         X:<name> object of an imported library
  L:<k>   nested function / lambda
Each token carries a depth (how many times an element was taken out of it).
"""
import ast

from .common import Names, Fn, kind_of, param_docs

# methods that change their receiver
MUTATORS = {"append", "extend", "insert", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem", "fill", "resize", "put",
            "itemset", "partition", "setflags", "setfield", "add", "discard", "difference_update", "intersection_update",
            "symmetric_difference_update", "pop", "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "appendleft",
            "popleft", "extendleft", "rotate", "setdiag", "sort_indices", "sum_duplicates", "eliminate_zeros", "prune"}
INSERTERS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft"}
# library functions writing to an argument: name -> argument position
WRITERS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0,
           "numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0, "numpy.divide.at": 0,
           "numpy.maximum.at": 0, "numpy.minimum.at": 0, "numpy.ndarray.sort": 0, "numpy.ndarray.fill": 0, "heapq.heapify": 0, "heapq.heappush": 0,
           "heapq.heappop": 0, "bisect.insort": 0, "operator.setitem": 0, "operator.iadd": 0, "operator.isub": 0, "operator.imul": 0,
           "operator.itruediv": 0, "list.sort": 0, "list.append": 0, "list.reverse": 0, "dict.update": 0, "list.extend": 0, "list.insert": 0,
           "numpy.lib.stride_tricks.as_strided": None}
# library functions whose result may be (a view of) an argument
ALIASING = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
            "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.real", "numpy.imag", "numpy.swapaxes", "numpy.rollaxis",
            "numpy.moveaxis", "numpy.expand_dims", "numpy.broadcast_to", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.asmatrix", "numpy.mat",
            "numpy.asarray_chkfinite", "numpy.real_if_close", "numpy.require", "numpy.lib.stride_tricks.as_strided", "numpy.rot90", "numpy.frombuffer",
            "numpy.lib.stride_tricks.sliding_window_view", "numpy.matrix_transpose", "numpy.permute_dims", "numpy.asfarray"}
LISTING = {"numpy.split", "numpy.array_split", "numpy.hsplit", "numpy.vsplit", "numpy.dsplit", "numpy.broadcast_arrays", "numpy.nditer"}
READONLY = {"numpy.diagonal", "numpy.diag"}   # views handed out read-only, or copies
OVERWRITE = {"overwrite_a", "overwrite_b", "overwrite_x", "overwrite_data", "overwrite_ab", "overwrite_input"}
VIEW_ATTR = {"T", "real", "imag", "flat", "H", "mT", "data", "base", "A", "A1"}
VIEW_METH = {"ravel", "reshape", "squeeze", "view", "transpose", "swapaxes", "diagonal", "flat", "getA", "asarray", "__array__"}
ELEM_METH = {"get", "pop", "popitem", "setdefault", "__getitem__", "next", "__next__"}
ITER_METH = {"items", "values", "keys", "__iter__"}
PURE_BUILTIN = {"len", "int", "float", "complex", "str", "bool", "abs", "range", "round", "print", "isinstance", "type", "repr", "sum", "any", "all",
                "hasattr", "format", "divmod", "pow", "ord", "chr", "id", "callable", "issubclass", "hash"}


class Effect:
    def __init__(self, tok, node, fn, what, direct, via=()):
        self.tok, self.node, self.fn, self.what, self.direct, self.via = tok, node, fn, what, direct, via

    def key(self):
        return (self.tok, self.fn.full, getattr(self.node, "lineno", 0), self.what)


class Summary:
    def __init__(self):
        self.effects = {}      # key -> Effect
        self.returns = frozenset()
        self.done = False


def tk(kind, *a, depth=0):
    return (kind,) + a + (depth,)


class Analysis:
    def __init__(self, project):
        self.N = Names(project)
        self.heap = {}          # F key -> set of tokens held
        self.summ = {}
        self.attrs = {}         # (cls, attr) -> set of tokens (P tokens renamed to C:<fn>:<p>)
        self.class_attr = {}
        self.stack = []
        self.unknown = set()
        self.nodes = 0
        for c, (m, node) in self.N.classes.items():
            for n in node.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self.class_attr[(c, t.id)] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    self.class_attr[(c, n.target.id)] = n.value
        for rnd in range(3):
            before = (sum(len(v) for v in self.heap.values()), sum(len(v) for v in self.attrs.values()))
            self.summ = {}
            for f in list(self.N.fns.values()):
                if f.outer is None:
                    self.summary(f)
            for m in project.mods.values():
                self.module_level(m)
            if before == (sum(len(v) for v in self.heap.values()), sum(len(v) for v in self.attrs.values())) and rnd:
                break

    # -------------------------------------------------------------- summaries
    def summary(self, f, closure=None, args=None):
        key = f.full + ("@%d" % id(f.node) if f.outer is not None else "")
        if args is None and key in self.summ:
            return self.summ[key]
        if len(self.stack) > 40 or f in self.stack:
            return Summary()
        S = Summary()
        if args is None:
            self.summ[key] = S
        self.stack.append(f)
        try:
            Walk(self, f, S, closure, args).run()
        finally:
            self.stack.pop()
        S.done = True
        return S

    def module_level(self, m):
        f = Fn(m, "<module>", ast.parse("def f(): pass").body[0])
        f.node.body = [n for n in m.tree.body]
        S = Summary()
        self.summ[f.full] = S
        w = Walk(self, f, S, None, None)
        w.is_module = True
        w.run()

    def elems(self, toks):
        out = set()
        for t in toks:
            if t[0] == "F":
                out |= self.heap.get(t[1], set())
            elif t[0] in ("S", "L"):
                continue
            else:
                out.add(t[:-1] + (min(t[-1] + 1, 4),))
        return frozenset(out)


class Walk:
    """one function body"""
    is_module = False

    def __init__(self, an, f, S, closure, args):
        self.an, self.f, self.S = an, f, S
        self.N, self.mod = an.N, f.mod
        self.closure = closure or {}
        self.env = {}
        self.ret = set()
        self.scalar = []        # names known to be scalars here (enclosing isinstance tests)
        self.args = args
        self.globs = set()
        self.nonl = set()
        self.cls = f.cls

    def run(self):
        a = self.f.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        is_meth = self.cls is not None and not self.f.is_static()
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for k, nme in enumerate(names + [x.arg for x in a.kwonlyargs]):
            if is_meth and k == 0:
                self.env[nme] = frozenset([("S", 0)])
                continue
            if self.args is not None:
                self.env[nme] = self.args.get(nme, frozenset())
            elif self.f.outer is not None:
                self.env[nme] = frozenset()
            else:
                self.env[nme] = frozenset([tk("P", nme)])
            if nme in defaults and mutable_literal(defaults[nme]):
                self.env[nme] = self.env[nme] | {tk("D", self.f.full, nme)}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                key = ("va", id(self.f.node), x.arg)
                self.env[x.arg] = frozenset([("F", key, 0)])
                if self.args is None and self.f.outer is None:
                    self.an.heap.setdefault(key, set()).add(tk("P", x.arg))
                elif self.args is not None:
                    self.an.heap.setdefault(key, set()).update(self.args.get(x.arg, frozenset()))
        self.block(self.f.body())
        self.S.returns = frozenset(self.ret)

    # -------------------------------------------------------------- effects
    def effect(self, toks, node, what, direct=True, inplace=False, shallow=True):
        for t in toks:
            if t[0] in ("F", "L"):
                continue
            if t[0] == "S":
                continue
            e = Effect(t, node, self.f, what, direct)
            e.inplace = inplace
            self.S.effects.setdefault(e.key(), e)

    def hold(self, toks, held):
        """objects in held become elements of toks"""
        for t in toks:
            if t[0] == "F":
                self.an.heap.setdefault(t[1], set()).update(x for x in held if x != t)
            elif t[0] == "A":
                self.an.attrs.setdefault((t[1], t[2]), set())

    def fresh(self, node, held=frozenset()):
        k = ("n", id(node))
        self.an.heap.setdefault(k, set()).update(x for x in held)
        return frozenset([("F", k, 0)])

    # -------------------------------------------------------------- statements
    def block(self, body):
        for n in body:
            self.stmt(n)

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            out[k] = a.get(k, frozenset()) | b.get(k, frozenset())
        return out

    def stmt(self, n):
        self.an.nodes += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)

    def s_Expr(self, n):
        self.ev(n.value)

    def s_Return(self, n):
        if n.value is not None:
            self.ret |= self.ev(n.value)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.bind(t, v, n.value, n)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.bind(n.target, self.ev(n.value), n.value, n)

    def s_AugAssign(self, n):
        v = self.ev(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            if t.id in self.globs:
                self.effect([tk("G", self.mod.name, t.id)], n, "rebinds the module-level name %s" % t.id)
            if t.id not in self.scalar:
                self.effect(cur, n, "in-place operator on %s" % t.id, inplace=True)
            self.env[t.id] = cur if not isinstance(n.op, ast.Add) else cur
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            self.effect(self.ev(t.value), n, "item assignment to %s" % ast.unparse(t))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.attr_store(t, base, frozenset(), n)
            cur = self.ev(t)
            self.effect(cur, n, "in-place operator on %s" % ast.unparse(t), inplace=True)
        del v

    def bind(self, t, v, value, n):
        if isinstance(t, ast.Name):
            if t.id in self.globs:
                self.effect([tk("G", self.mod.name, t.id)], n, "rebinds the module-level name %s" % t.id)
                return
            if t.id in self.nonl:
                self.closure[t.id] = self.closure.get(t.id, frozenset()) | v
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(z, ast.Starred) for z in t.elts + value.elts):
                vals = [self.ev(z) for z in value.elts]
                for z, zv, zn in zip(t.elts, vals, value.elts):
                    self.bind(z, zv, zn, n)
            else:
                e = self.an.elems(v)
                for z in t.elts:
                    self.bind(z.value if isinstance(z, ast.Starred) else z, e if not isinstance(z, ast.Starred) else self.fresh(z, e), None, n)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.effect(base, n, "item assignment to %s" % ast.unparse(t))
            self.hold(base, v)
        elif isinstance(t, ast.Attribute):
            self.attr_store(t, self.ev(t.value), v, n)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, None, n)

    def attr_store(self, t, base, v, n):
        for b in base:
            if b[0] == "S":
                self.an.attrs.setdefault((self.cls, t.attr), set()).update(self.captured(v))
            elif b[0] in ("F", "L"):
                self.hold([b], v)
            else:
                self.effect([b], n, "assignment to attribute %s" % ast.unparse(t))

    def captured(self, v):
        out = set()
        for t in v:
            if t[0] == "P":
                out.add(("C", self.f.full, t[1], t[-1]))
            elif t[0] in ("C", "D", "G", "K", "F"):
                out.add(t)
        return out

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.effect(self.ev(t.value), n, "deletion of %s" % ast.unparse(t))
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.effect(self.ev(t.value), n, "deletion of %s" % ast.unparse(t))

    def s_Global(self, n):
        self.globs |= set(n.names)

    def s_Nonlocal(self, n):
        self.nonl |= set(n.names)

    def scalar_test(self, test):
        """names that are scalars when the test holds / fails"""
        yes, no = [], []
        tests = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        for z in tests:
            neg = False
            if isinstance(z, ast.UnaryOp) and isinstance(z.op, ast.Not):
                neg, z = True, z.operand
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "isinstance" and len(z.args) == 2 and isinstance(z.args[0], ast.Name):
                ts = z.args[1].elts if isinstance(z.args[1], ast.Tuple) else [z.args[1]]
                ns = [ast.unparse(q).split(".")[-1] for q in ts]
                if all(q in ("int", "float", "complex", "str", "bool", "Number", "Real", "Integral", "integer", "floating", "number", "bytes", "tuple", "NoneType")
                       for q in ns):
                    (no if neg else yes).append(z.args[0].id)
                if neg is False and any(q in ("ndarray", "Iterable", "list", "Sequence") for q in ns) and len(tests) == 1:
                    if any(q in ("Iterable", "Sequence") for q in ns) or "ndarray" in ns:
                        no.append(z.args[0].id)
                elif neg and any(q in ("ndarray", "Iterable", "Sequence") for q in ns):
                    yes.append(z.args[0].id)
            elif isinstance(z, ast.Call) and self.N.dotted(self.mod, z.func) == "numpy.isscalar" and z.args and isinstance(z.args[0], ast.Name):
                (no if neg else yes).append(z.args[0].id)
            elif isinstance(z, ast.Compare) and len(z.ops) == 1 and isinstance(z.left, ast.Name) and isinstance(z.ops[0], (ast.Is, ast.Eq)) \
                    and isinstance(z.comparators[0], ast.Constant) and z.comparators[0].value is None:
                yes.append(z.left.id)
        return yes, no

    def s_If(self, n):
        self.ev(n.test)
        yes, no = self.scalar_test(n.test)
        e0, sc = dict(self.env), list(self.scalar)
        self.scalar = sc + yes
        self.block(n.body)
        e1, out1 = self.env, ends(n.body)
        self.env, self.scalar = dict(e0), sc + no
        self.block(n.orelse)
        e2, out2 = self.env, ends(n.orelse)
        self.scalar = sc
        if out1 and not out2:
            self.env = e2
            self.scalar = sc + no
        elif out2 and not out1:
            self.env = e1
            self.scalar = sc + yes
        else:
            self.env = self.join(e1, e2)

    def loop(self, body, orelse, pre):
        e0 = dict(self.env)
        for _ in range(3):
            b = dict(self.env)
            pre()
            self.block(body)
            self.env = self.join(b, self.env)
            if self.env == b:
                break
        self.env = self.join(e0, self.env)
        self.block(orelse)

    def s_For(self, n):
        it = self.ev(n.iter)

        def pre():
            self.iter_bind(n.target, n.iter, it, n)
        self.loop(n.body, n.orelse, pre)

    s_AsyncFor = s_For

    def iter_bind(self, target, itnode, it, n):
        if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Name) and itnode.func.id == "enumerate" and itnode.args \
                and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.bind(target.elts[0], frozenset(), None, n)
            return self.iter_bind(target.elts[1], itnode.args[0], self.ev(itnode.args[0]), n)
        if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Name) and itnode.func.id == "zip" \
                and isinstance(target, ast.Tuple) and len(target.elts) == len(itnode.args):
            for t, a in zip(target.elts, itnode.args):
                self.iter_bind(t, a, self.ev(a), n)
            return
        self.bind(target, self.an.elems(it), None, n)

    def s_While(self, n):
        self.ev(n.test)
        self.loop(n.body, n.orelse, lambda: self.ev(n.test))

    def s_With(self, n):
        for i in n.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, None, n)
        self.block(n.body)

    s_AsyncWith = s_With

    def s_Try(self, n):
        e0 = dict(self.env)
        for z in n.body:
            self.stmt(z)
            e0 = self.join(e0, self.env)
        after = self.env
        outs = [after]
        for h in n.handlers:
            self.env = dict(e0)
            if h.name:
                self.env[h.name] = frozenset()
            self.block(h.body)
            if not ends(h.body):
                outs.append(self.env)
        self.env = dict(after)
        self.block(n.orelse)
        outs[0] = self.env
        self.env = outs[0]
        for o in outs[1:]:
            self.env = self.join(self.env, o)
        self.block(n.finalbody)

    s_TryStar = s_Try

    def s_FunctionDef(self, n):
        if self.is_module:
            for d in n.args.defaults + [z for z in n.args.kw_defaults if z]:
                self.ev(d)
            return
        f = getattr(n, "_fn", None)
        if f is None:
            return
        self.env[n.name] = frozenset([("L", id(n), 0)])
        LAMBDA[id(n)] = f
        self.closure_fn(f)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n):
        return

    def closure_fn(self, f, args=None):
        cl = dict(self.closure)
        cl.update(self.env)
        S = self.an.summary(f, cl, args if args is not None else {})
        for e in S.effects.values():
            self.S.effects.setdefault(e.key(), e)
        return S.returns

    # -------------------------------------------------------------- expressions
    def load(self, name):
        if name in self.env and name not in self.globs:
            return self.env[name]
        if name in self.closure:
            return self.closure[name]
        if self.is_module:
            return frozenset()
        imp = self.N.imports[self.mod.name].get(name)
        if imp:
            d = self.N.canon(imp)
            if d.startswith(self.N.p_pkg()):
                return self.pkg_name(d)
            return frozenset([tk("X", d)])
        if name in self.N.globals[self.mod.name] or name in self.mod.defs:
            return self.pkg_name(self.mod.name + "." + name)
        return frozenset()

    def pkg_name(self, d):
        if d in self.N.fns or d in self.N.classes:
            return frozenset([tk("G", d.rsplit(".", 1)[0], d.rsplit(".", 1)[1])])
        if d in self.N.p.mods:
            return frozenset([tk("G", d, "*")])
        m, _, n = d.rpartition(".")
        if m in self.N.p.mods:
            return frozenset([tk("G", m, n)])
        return frozenset()

    def ev(self, n):
        self.an.nodes += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return frozenset()

    def e_Constant(self, n):
        return frozenset()

    def e_Name(self, n):
        return self.load(n.id)

    def e_Starred(self, n):
        return self.an.elems(self.ev(n.value))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.bind(n.target, v, n.value, n)
        return v

    def e_IfExp(self, n):
        self.ev(n.test)
        return self.ev(n.body) | self.ev(n.orelse)

    def e_BoolOp(self, n):
        out = frozenset()
        for z in n.values:
            out |= self.ev(z)
        return out

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        return self.fresh(n, self.containers(a) | self.containers(b))

    def containers(self, toks):
        """elements of list-like fresh objects (list + list keeps its elements)"""
        out = set()
        for t in toks:
            if t[0] == "F":
                out |= {x for x in self.an.heap.get(t[1], ())}
        return frozenset(out)

    def e_UnaryOp(self, n):
        self.ev(n.operand)
        return self.fresh(n)

    def e_Compare(self, n):
        self.ev(n.left)
        for z in n.comparators:
            self.ev(z)
        return self.fresh(n)

    def e_Tuple(self, n):
        held = frozenset()
        for z in n.elts:
            held |= self.ev(z)
        return self.fresh(n, held)

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, n):
        held = frozenset()
        for k, v in zip(n.keys, n.values):
            if k is None:
                held |= self.an.elems(self.ev(v))
            else:
                self.ev(k)
                held |= self.ev(v)
        return self.fresh(n, held)

    def e_JoinedStr(self, n):
        for z in ast.walk(n):
            if isinstance(z, ast.Call):
                self.ev(z)
        return frozenset()

    def e_Subscript(self, n):
        base = self.ev(n.value)
        ix = self.ev(n.slice)
        s = n.slice
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        if any(isinstance(p, (ast.List, ast.ListComp, ast.Compare)) for p in parts):
            return self.fresh(n)
        if not isinstance(s, (ast.Slice, ast.Tuple)) and any(t[0] in ("F", "P") for t in ix) and not isinstance(s, (ast.Constant, ast.UnaryOp, ast.BinOp)):
            if any(t[0] == "F" for t in ix):
                return self.fresh(n)      # an array of indices or a mask: numpy copies
        if isinstance(s, ast.Tuple) and any(t[0] == "F" for p in parts if isinstance(p, ast.Name) for t in self.ev(p)):
            return self.fresh(n)
        sliced = any(isinstance(p, ast.Slice) or (isinstance(p, ast.Constant) and p.value in (None, Ellipsis)) or
                     (isinstance(p, ast.Attribute) and p.attr == "newaxis") for p in parts)
        if sliced:
            # a view for arrays, a list with the same elements for lists
            views = frozenset(t for t in base if t[0] != "F")
            f = frozenset(t for t in base if t[0] == "F")
            return views | f | self.fresh(n, self.an.elems(f))
        return self.an.elems(base) | frozenset(t for t in base if t[0] == "F" and not self.an.heap.get(t[1]))

    def e_Attribute(self, n):
        d = self.N.dotted(self.mod, n)
        if d is not None and not self.root_local(n):
            if d.startswith(self.N.p_pkg()):
                t = self.pkg_name(d)
                if t:
                    return t
            else:
                return frozenset([tk("X", d)])
        base = self.ev(n.value)
        out = set()
        for b in base:
            if b[0] == "S" and self.cls:
                out.add(tk("A", self.cls, n.attr))
                if (self.cls, n.attr) in self.an.class_attr and mutable_literal(self.an.class_attr[(self.cls, n.attr)]):
                    out.add(tk("K", self.cls, n.attr))
            elif b[0] == "G" and (b[1] + "." + b[2]) in self.N.classes:
                out.add(tk("K", b[1] + "." + b[2], n.attr))
            elif n.attr in VIEW_ATTR:
                out.add(b)
            elif b[0] == "F":
                out |= self.an.heap.get(b[1], set())
            elif n.attr not in ("shape", "size", "ndim", "dtype", "nnz", "format", "itemsize"):
                out.add(b[:-1] + (min(b[-1] + 1, 4),))
        return frozenset(out)

    def root_local(self, n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return isinstance(n, ast.Name) and (n.id in self.env or n.id in self.closure) and n.id not in self.globs

    def comp(self, n, elts):
        save = dict(self.env)
        for g in n.generators:
            it = self.ev(g.iter)
            self.iter_bind(g.target, g.iter, it, n)
            for c in g.ifs:
                self.ev(c)
        held = frozenset()
        for e in elts:
            held |= self.ev(e)
        self.env = save
        return self.fresh(n, held)

    def e_ListComp(self, n):
        return self.comp(n, [n.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n):
        return self.comp(n, [n.key, n.value])

    def e_Lambda(self, n):
        f = getattr(n, "_fn", None)
        if f is None:
            f = Fn(self.mod, self.f.qual + ".<lambda>", n, None, self.f)
            n._fn = f
        if f.outer is None and not self.is_module and self.f.node is not n:
            f.outer = self.f
        LAMBDA[id(n)] = f
        if not self.is_module:
            self.closure_fn(f)
        return frozenset([("L", id(n), 0)])

    def e_Yield(self, n):
        if n.value is not None:
            self.ret |= self.fresh(n, self.ev(n.value))
        return frozenset()

    def e_Await(self, n):
        return self.ev(n.value)

    # -------------------------------------------------------------- calls
    def e_Call(self, n):
        args = [(None, a, self.ev(a)) for a in n.args]
        kws = {k.arg: (k.value, self.ev(k.value)) for k in n.keywords}
        allv = frozenset().union(*([z[2] for z in args] + [v for _, v in kws.values()])) if (args or kws) else frozenset()
        for k, (node, v) in kws.items():
            if k == "out":
                self.effect(v | self.an.elems(frozenset(t for t in v if t[0] == "F")), n, "result written to out=%s" % ast.unparse(node))
            elif k in OVERWRITE and not (isinstance(node, ast.Constant) and node.value is False):
                for z in args[:1]:
                    self.effect(z[2], n, "%s lets %s overwrite %s" % (k, ast.unparse(n.func), ast.unparse(z[1])))
        # --- locally defined functions and parameters
        if isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars", "locals") and not self.root_local(n.func):
            if n.func.id == "globals":
                return frozenset([tk("G", self.mod.name, "globals()")])
            return frozenset()
        fv = None
        if isinstance(n.func, ast.Name):
            fv = self.load(n.func.id)
        elif isinstance(n.func, (ast.Lambda, ast.Call, ast.Subscript, ast.IfExp)):
            fv = self.ev(n.func)
        if isinstance(n.func, ast.Attribute):
            r = self.method_call(n, args, kws, allv)
            if r is not None:
                return r
        dotted = self.N.dotted(self.mod, n.func) if not self.root_local(n.func) else None
        out = frozenset()
        targets = []
        if dotted is not None:
            targets.append(dotted)
        for t in fv or ():
            if t[0] == "L":
                out |= self.call_local(t, n, args, kws)
                targets.append(None)
            elif t[0] == "G" and t[1] + "." + t[2] not in targets:
                targets.append(t[1] + "." + t[2])
            elif t[0] == "X" and t[1] not in targets:
                targets.append(t[1])
        if not targets:
            nm = n.func.id if isinstance(n.func, ast.Name) else None
            return self.builtin(nm, n, args, kws, allv)
        for d in targets:
            if d is None:
                continue
            if d in self.N.fns:
                out |= self.call_fn(self.N.fns[d], n, args, kws)
            elif d in self.N.classes:
                init = self.N.method(d, "__init__")
                if init is not None:
                    self.call_fn(init, n, args, kws, self_arg=True)
                out |= self.fresh(n, allv)
            elif d in self.N.p.mods or d.startswith(self.N.p_pkg() + "."):
                out |= self.fresh(n)
            else:
                out |= self.library(d, n, args, kws, allv)
        return out

    def call_local(self, tok, n, args, kws):
        f = LAMBDA[tok[1]]
        bound = {}
        ps = f.args.posonlyargs + f.args.args
        for p, a in zip(ps, args):
            bound[p.arg] = a[2]
        for k, (_, v) in kws.items():
            if k:
                bound[k] = v
        if f in self.an.stack:
            return self.fresh(n)
        return self.closure_fn(f, bound)

    def bind_args(self, f, args, kws, self_arg):
        ps = [x.arg for x in f.args.posonlyargs + f.args.args]
        if self_arg and ps:
            ps = ps[1:]
        bound, extra = {}, frozenset()
        for k, (_, node, v) in enumerate(args):
            if isinstance(node, ast.Starred):
                for p in ps[k:]:
                    bound[p] = bound.get(p, frozenset()) | v
                extra |= v
                break
            if k < len(ps):
                bound[ps[k]] = v
            else:
                extra |= v
        allp = set(ps) | {x.arg for x in f.args.kwonlyargs}
        for k, (_, v) in kws.items():
            if k is None:
                for p in allp - set(bound):
                    bound[p] = self.an.elems(v)
                extra |= self.an.elems(v)
            elif k in allp:
                bound[k] = v
            else:
                extra |= v
        for x in (f.args.vararg, f.args.kwarg):
            if x is not None:
                bound[x.arg] = extra
        return bound

    def call_fn(self, f, n, args, kws, self_arg=False):
        bound = self.bind_args(f, args, kws, self_arg)
        S = self.an.summary(f)

        def sub(toks):
            out = set()
            for t in toks:
                if t[0] == "P":
                    for b in bound.get(t[1], ()):
                        if t[-1]:
                            if b[0] == "F":
                                out |= self.an.heap.get(b[1], set())
                                if not self.an.heap.get(b[1]):
                                    out.add(b)
                            else:
                                out.add(b[:-1] + (min(b[-1] + t[-1], 4),))
                        else:
                            out.add(b)
                elif t[0] == "F":
                    held = self.an.heap.get(t[1], set())
                    k = ("c", id(n), t[1])
                    hh = self.an.heap.setdefault(k, set())
                    for x in sub([h for h in held if h[0] != "F"]):
                        hh.add(x)
                    for h in held:
                        if h[0] == "F" and h != t and len(str(h)) < 400:
                            hh.add(h)
                    out.add(("F", k, 0))
                elif t[0] in ("S", "A"):
                    if not self_arg:
                        out.add(t)
                else:
                    out.add(t)
            return out
        for e in list(S.effects.values()):
            if e.tok[0] == "P":
                if e.tok[1] not in bound:
                    continue
                for t in sub([e.tok]):
                    if t[0] in ("F", "L", "S"):
                        continue
                    ne = Effect(t, e.node, e.fn, e.what, False, e.via + (self.f.loc(n),))
                    ne.inplace = getattr(e, "inplace", False)
                    self.S.effects.setdefault(ne.key(), ne)
            else:
                self.S.effects.setdefault(e.key(), e)
        return frozenset(sub(S.returns))

    def method_call(self, n, args, kws, allv):
        """call obj.meth(...): None when the receiver is a module"""
        d = self.N.dotted(self.mod, n.func)
        if d is not None and not self.root_local(n.func):
            m, _, name = d.rpartition(".")
            owner = self.N.canon(m)
            # method of a module-level object of the package or of a library object
            if owner in self.N.p.mods or owner in self.N.classes or d in self.N.fns:
                return None
            if owner.startswith(self.N.p_pkg() + "."):
                om, _, on = owner.rpartition(".")
                if om in self.N.p.mods and on in self.N.globals[om]:
                    if n.func.attr in MUTATORS:
                        self.effect([tk("G", om, on)], n, "%s() on the module-level object %s" % (n.func.attr, on))
                    return self.fresh(n) | (frozenset([tk("G", om, on, depth=1)]) if n.func.attr in ELEM_METH else frozenset())
            return None
        base = self.ev(n.func.value)
        name = n.func.attr
        if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super" and self.cls:
            cm, cn = self.N.classes[self.cls]
            for b in cn.bases:
                bd = self.N.dotted(cm, b)
                f = self.N.method(bd, name) if bd else None
                if f is not None:
                    return self.call_fn(f, n, args, kws, self_arg=True)
            return frozenset()
        if any(b[0] == "S" for b in base) and self.cls:
            f = self.N.method(self.cls, name)
            if f is not None:
                return self.call_fn(f, n, args, kws, self_arg=not f.is_static())
        # function values stored in containers / attributes
        if name in MUTATORS:
            keep = [b for b in base if not (b[0] == "X" and name in ("add", "insert", "put", "resize", "fill", "update", "clear", "pop", "append", "extend",
                                                                     "remove", "sort", "partition"))]
            if name == "sort" or name not in ("add",) or not all(b[0] in ("P",) for b in keep):
                self.effect(keep, n, "%s() on %s" % (name, ast.unparse(n.func.value)))
            self.hold(base, self.an.elems(allv) if name in ("extend", "update") else allv)
        if name == "byteswap" and (args or kws):
            self.effect(base, n, "byteswap in place of %s" % ast.unparse(n.func.value))
        if name in VIEW_METH:
            return base | self.fresh(n)
        if name == "astype":
            cp = kws.get("copy", (None,))[0]
            if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True):
                return base | self.fresh(n)
            return self.fresh(n)
        if name in ELEM_METH:
            r = self.an.elems(base)
            if len(args) > 1:
                r |= args[1][2]
            return r
        if name in ITER_METH:
            k = self.fresh(n, self.an.elems(base))
            if name == "items":
                return self.fresh(n.func, k)
            return k
        if name == "copy":
            kinds = [t for t in base if t[0] == "F"]
            return self.fresh(n, self.an.elems(frozenset(kinds)) | frozenset(t for t in self.an.elems(base) if self.dictlike(t)))
        for _, a, v in args:
            for t in v:
                if t[0] == "L":
                    # handed to map-like methods: called with elements of the other arguments
                    f = LAMBDA[t[1]]
                    if f not in self.an.stack:
                        other = frozenset().union(*[self.an.elems(z[2]) for z in args if z[1] is not a] or [frozenset()])
                        self.closure_fn(f, {p.arg: other for p in f.args.args})
                elif t[0] == "G" and (t[1] + "." + t[2]) in self.N.fns and name in ("map", "imap", "starmap", "apply", "imap_unordered", "apply_async", "map_async", "submit"):
                    other = frozenset().union(*[self.an.elems(z[2]) for z in args if z[1] is not a] or [frozenset()])
                    g = self.N.fns[t[1] + "." + t[2]]
                    self.call_fn(g, n, [(None, a, other) for _ in g.args.args], {})
        return self.fresh(n, frozenset(t for t in allv if t[0] in ("F", "L")) if name in ("map", "imap", "starmap", "tolist") else frozenset())

    def dictlike(self, t):
        if t[0] != "P":
            return False
        d = param_docs(self.f).get(t[1], "").split(". ")[0].lower()
        return "dict" in d or ("list" in d and "array" not in d)

    def builtin(self, name, n, args, kws, allv):
        if name in PURE_BUILTIN or name is None:
            return self.fresh(n) if name is None else frozenset()
        if name in ("list", "tuple", "set", "sorted", "reversed", "frozenset", "iter", "filter"):
            src = args[0][2] if args else frozenset()
            if name == "filter" and len(args) > 1:
                src = args[1][2]
            return self.fresh(n, self.an.elems(src))
        if name == "enumerate":
            return self.fresh(n, self.fresh(n.func, self.an.elems(args[0][2]) if args else frozenset()))
        if name == "zip":
            held = frozenset()
            for a in args:
                held |= self.an.elems(a[2])
            return self.fresh(n, self.fresh(n.func, held))
        if name == "map":
            held = frozenset()
            if args:
                other = frozenset().union(*[self.an.elems(a[2]) for a in args[1:]] or [frozenset()])
                for t in args[0][2]:
                    if t[0] == "L" and LAMBDA[t[1]] not in self.an.stack:
                        held |= self.closure_fn(LAMBDA[t[1]], {p.arg: other for p in LAMBDA[t[1]].args.args})
                    elif t[0] == "G" and (t[1] + "." + t[2]) in self.N.fns:
                        g = self.N.fns[t[1] + "." + t[2]]
                        held |= self.call_fn(g, n, [(None, args[0][1], other) for _ in g.args.args], {})
            return self.fresh(n, held)
        if name == "dict":
            held = frozenset(v for _, vv in kws.values() for v in vv)
            for a in args:
                held |= self.an.elems(a[2])
            return self.fresh(n, held)
        if name in ("next", "min", "max"):
            return self.an.elems(args[0][2]) if args else frozenset()
        if name == "getattr":
            return frozenset(b[:-1] + (min(b[-1] + 1, 4),) if b[0] != "F" else b for b in (args[0][2] if args else ())) | (args[2][2] if len(args) > 2 else frozenset())
        if name in ("setattr", "delattr") and args:
            for b in args[0][2]:
                if b[0] == "S" and len(args) > 2:
                    if isinstance(args[1][1], ast.Constant):
                        self.an.attrs.setdefault((self.cls, args[1][1].value), set()).update(self.captured(args[2][2]))
                else:
                    self.effect([b], n, "%s on %s" % (name, ast.unparse(args[0][1])))
            return frozenset()
        if name in ("exec", "eval"):
            self.an.unknown.add(self.f.loc(n))
            return frozenset()
        # a function handed in by the caller: assumed not to modify what it is given
        return self.fresh(n)

    def library(self, d, n, args, kws, allv):
        tail = d.split(".")[-1]
        if d in WRITERS and WRITERS[d] is not None:
            if len(args) > WRITERS[d]:
                a = args[WRITERS[d]]
                self.effect(a[2], n, "%s writes to %s" % (d, ast.unparse(a[1])))
        if d.startswith("numpy.") and tail == "at" and args:
            self.effect(args[0][2], n, "%s writes to %s" % (d, ast.unparse(args[0][1])))
        if d == "functools.partial" and args:
            for t in args[0][2]:
                if t[0] == "G" and (t[1] + "." + t[2]) in self.N.fns:
                    self.call_fn(self.N.fns[t[1] + "." + t[2]], n, args[1:], kws)
                elif t[0] == "L" and LAMBDA[t[1]] not in self.an.stack:
                    self.call_local(t, n, args[1:], kws)
            return self.fresh(n)
        if d in ("copy.copy",):
            return self.fresh(n, self.an.elems(args[0][2]) if args else frozenset())
        if d == "numpy.array" or d == "numpy.matrix":
            cp = kws.get("copy", (args[2][1] if len(args) > 2 else None,))[0]
            if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True):
                return (args[0][2] if args else kws.get("object", (0, frozenset()))[1]) | self.fresh(n)
            return self.fresh(n)
        if d == "numpy.nan_to_num":
            cp = kws.get("copy", (args[1][1] if len(args) > 1 else None,))[0]
            if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True):
                src = args[0][2] if args else frozenset()
                self.effect(src, n, "nan_to_num(copy=%s) writes to %s" % (ast.unparse(cp), ast.unparse(args[0][1])))
                return src
            return self.fresh(n)
        if d in ALIASING:
            return (args[0][2] if args else allv) | self.fresh(n)
        if d in LISTING:
            return self.fresh(n, args[0][2] if args else frozenset())
        if d == "itertools.chain" or d.startswith("itertools."):
            held = frozenset()
            for a in args:
                held |= self.an.elems(a[2])
            return self.fresh(n, held)
        return self.fresh(n)


LAMBDA = {}


def ends(body):
    """control does not fall out of the block"""
    if not body:
        return False
    z = body[-1]
    if isinstance(z, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(z, ast.If):
        return bool(z.orelse) and ends(z.body) and ends(z.orelse)
    return False


def mutable_literal(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        t = ast.unparse(v.func)
        return t.split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "array", "zeros", "ones", "empty", "full", "arange",
                                    "linspace", "eye", "bytearray", "zeros_like", "RandomState", "default_rng")
    return False
