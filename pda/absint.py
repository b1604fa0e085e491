"""Abstract interpreter over the Python syntax tree.

Values are symbolic shapes and value graphs (``dom.Arr``); loops over symbolic ranges are summarised
from one abstract pass over the body; undecidable branches are joined; whatever the model does not know becomes ``Top``.
"""
import ast
from fractions import Fraction
from . import expr as X
from .expr import Expr, Undecided, NeedSplit, const, lift, ZERO, ONE, atom_expr
from . import dom as D
from .dom import (Arr, Num, Str, Seq, SymSeq, Dct, SliceV, ModV, Ext, Func, Bound, Model, ClassV, Inst, Opaque, IterV,
                  Top, NONE, NoneV, PyRaise, CondList, kmax, num, pyint, mk_ge, mk_eq0, mk_pos, ctx)
from .project import loc

DEBUG = False


class Env:
    __slots__ = ("vars", "parent", "mod", "fname")

    def __init__(self, parent, mod, fname):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.fname = fname

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None


class Lazy:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


BUILTINS = {"len", "range", "enumerate", "zip", "isinstance", "int", "float", "complex", "bool", "abs", "min", "max",
            "sum", "print", "list", "tuple", "dict", "str", "round", "iter", "next", "any", "all", "sorted", "map", "set",
            "reversed", "type", "super", "object", "callable", "hasattr", "getattr", "divmod", "pow", "filter", "repr",
            "setattr", "id", "slice", "open", "frozenset", "vars"}
EXCS = {"ValueError", "TypeError", "NotImplementedError", "IOError", "OSError", "RuntimeError", "KeyError", "IndexError",
        "AssertionError", "UserWarning", "DeprecationWarning", "PendingDeprecationWarning", "Exception", "MemoryError",
        "AttributeError", "NameError", "ImportError", "ArithmeticError", "ZeroDivisionError", "FutureWarning",
        "RuntimeWarning", "StopIteration", "BaseException", "LookupError", "ModuleNotFoundError"}


class Event:
    def __init__(self, kind, where, func, msg, key=None):
        self.kind, self.where, self.func, self.msg, self.key = kind, where, func, msg, key

    def __repr__(self):
        return "%s %s (%s): %s" % (self.kind, self.where, self.func, self.msg)


class Interp:
    def __init__(self, project):
        self.p = project
        self.modenv = {}
        self.events = []
        self.depth = 0
        self.stack = []
        self.cur = (None, None)
        self.pathconds = []
        self.stats = {"calls": 0, "stmts": 0, "loops": 0, "joins": 0, "fallback": 0}
        self.funcs = set()
        self.visited = set()
        self.fallbacks = []
        self.draws = {}
        self.loops = []
        self.loops = []
        self.stubs = {}
        from . import npmodel
        self.models = npmodel.MODELS
        self.np = npmodel

    # ------------------------------------------------------------ modules
    def module_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.p.mod(name)
        env = Env(None, m, "<module>")
        self.modenv[name] = env
        for st in m.tree.body:
            self._module_stmt(st, env, m)
        return env

    def _module_stmt(self, st, env, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    env.vars[a.asname] = ModV(a.name)
                else:
                    env.vars[a.name.split(".")[0]] = ModV(a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            self._import_from(st, env, m)
        elif isinstance(st, ast.FunctionDef):
            env.vars[st.name] = Func(st, m, env, st.name)
        elif isinstance(st, ast.ClassDef):
            env.vars[st.name] = ClassV(st, m, env)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            try:
                self.exec_stmt(st, env)
            except Exception:
                for n in targets_of(st):
                    env.vars[n] = Top("module level")
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.walk(st):
                if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                    self._module_stmt(s, env, m)

    def _import_from(self, st, env, m):
        target = self.p.resolve_from(m, st)
        for a in st.names:
            nm = a.asname or a.name
            if target in self.p.mods:
                sub = target + "." + a.name
                if a.name == "*":
                    e2 = self.module_env(target)
                    for k, v in e2.vars.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                env.vars[nm] = Lazy(target, a.name)
            else:
                env.vars[nm] = Ext(target + "." + a.name)

    def get_global(self, modname, name):
        env = self.module_env(modname)
        v = env.vars.get(name)
        while isinstance(v, Lazy):
            e2 = self.module_env(v.mod)
            if v.name in e2.vars:
                v = e2.vars[v.name]
            elif v.mod + "." + v.name in self.p.mods:
                v = ModV(v.mod + "." + v.name)
            else:
                v = Top("unresolved import %s.%s" % (v.mod, v.name))
        return v

    def function(self, modname, name):
        v = self.get_global(modname, name)
        if v is None or isinstance(v, Top):
            from .project import AnchorMissing
            raise AnchorMissing("%s.%s not found" % (modname, name))
        return v

    # ------------------------------------------------------------ helpers
    def where(self, node=None):
        mod, st = self.cur
        if mod is None:
            return "?"
        return "%s:%d" % (mod.rel, getattr(node or st, "lineno", getattr(st, "lineno", 0)))

    def event(self, kind, msg, node=None, key=None):
        f = self.stack[-1] if self.stack else "?"
        self.events.append(Event(kind, self.where(node), f, msg, key))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, Lazy):
            f = self._force(f)
        if isinstance(f, Top):
            return Top("call of unknown: " + f.why)
        if isinstance(f, Func):
            return self.call_user(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call_user(f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, Model):
            return f.f(self, args, kw)
        if isinstance(f, Ext):
            m = self.models.get(f.name)
            if m is None:
                m = self.models.get(canon_name(f.name))
            if m is None:
                self.fallbacks.append((self.where(node), "no model for " + f.name))
                return Top("no model for " + f.name)
            return m(self, args, kw)
        if isinstance(f, ClassV):
            inst = Inst(f)
            init = find_method(f, "__init__", self)
            if init is not None:
                self.call_user(init, [inst] + list(args), kw, node)
            return inst
        if isinstance(f, Inst):
            c = find_method(f.cls, "__call__", self)
            if c is not None:
                return self.call_user(c, [f] + list(args), kw, node)
        if isinstance(f, Opaque) and f.kind == "partial":
            k2 = dict(f.kw["kw"])
            k2.update(kw)
            return self.call(f.kw["f"], list(f.kw["args"]) + list(args), k2, node)
        return Top("call of %r" % (f,))

    def _force(self, v):
        while isinstance(v, Lazy):
            v = self.get_global(v.mod, v.name)
        return v

    def call_user(self, f, args, kw, node=None):
        key = (f.mod.name, f.name)
        if key in self.stubs:
            return self.stubs[key](self, args, kw)
        if self.depth > 25:
            raise Undecided("call depth")
        env = Env(f.env, f.mod, f.name)
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise("TypeError", node, self.where(node))
            vals[a.vararg.arg] = Seq(args[len(params):], True)
            args = args[: len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = Seq([], True)
        for p, v in zip(params, args):
            vals[p] = v
        extra = {}
        allk = set(params) | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in allk:
                if k in vals:
                    raise PyRaise("TypeError", node, self.where(node))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", node, self.where(node))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = Dct(extra)
        defs = a.defaults
        for p, d in zip(params[len(params) - len(defs):], defs):
            if p not in vals:
                vals[p] = self.eval(d, f.env)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.eval(d, f.env)
        for p in params:
            if p not in vals:
                raise PyRaise("TypeError", node, self.where(node))
        env.vars.update(vals)
        self.stats["calls"] += 1
        self.funcs.add((f.mod.name, f.name))
        self.depth += 1
        self.stack.append(f.name)
        save = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            out = self.exec_block(f.node.body, env)
            if out is None:
                return NONE
            if out[0] == "return":
                return out[1]
            raise Undecided("control flow")
        finally:
            self.cur = save
            self.stack.pop()
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        i = 0
        stmts = list(stmts)
        while i < len(stmts):
            st = stmts[i]
            rest = stmts[i + 1:]
            if isinstance(st, ast.If):
                out, consumed = self.exec_if(st, env, rest)
                if consumed:
                    return out
                if out is not None:
                    return out
            else:
                out = self.exec_stmt(st, env)
                if out is not None:
                    return out
            i += 1
        return None

    def exec_if(self, st, env, rest):
        self.cur = (env.mod, st)
        self.stats["stmts"] += 1
        self.visited.add((env.mod.name, st.lineno))
        c = self.test(st.test, env)
        if c is True:
            return self.exec_block(st.body, env), False
        if c is False:
            return self.exec_block(st.orelse, env), False
        # join
        self.stats["joins"] += 1
        memo = {}
        snap = {k: D.deepcopy_val(v, memo) for k, v in env.vars.items()}
        d0 = dict(self.draws)
        self.pathconds.append(c)
        try:
            try:
                outA = self.exec_block(st.body, env)
            except PyRaise as e:
                outA = ("raise", e)
        finally:
            self.pathconds.pop()
        varsA = env.vars
        env.vars = snap
        dA, self.draws = self.draws, d0
        self.pathconds.append(ONE - c)
        try:
            try:
                outB = self.exec_block(st.orelse, env)
            except PyRaise as e:
                outB = ("raise", e)
        finally:
            self.pathconds.pop()
        varsB = env.vars
        dB = self.draws
        rA = outA is not None and outA[0] == "raise"
        rB = outB is not None and outB[0] == "raise"
        if rA and rB:
            raise outA[1]
        # draws made on either branch come from the same stream; later ones continue after the longer branch
        if rB:
            self.draws = dA
        elif not rA:
            self.draws = self.later(dA, dB)
        if rA:
            # inputs for which this guard fires are rejected: continue with the complement
            self.restore_identity(env, varsA, varsB, memo)
            return outB, False
        if rB:
            env.vars = varsA
            return outA, False
        if outA is None and outB is None:
            env.vars = self.merge_vars(c, varsA, varsB)
            return None, False
        if outA is not None and outB is not None and outA[0] == outB[0] != "return":
            env.vars = self.merge_vars(c, varsA, varsB)
            return outA, False
        if (outA is None or outA[0] == "return") and (outB is None or outB[0] == "return"):
            if outA is None:
                env.vars, self.draws = varsA, dA
                outA = self.exec_block(rest, env)
                self.draws = self.later(self.draws, dB)
                if outA is None:
                    outA = ("return", NONE) if self._block_is_fn_end(st) else None
            elif outB is None:
                env.vars, self.draws = varsB, dB
                outB = self.exec_block(rest, env)
                self.draws = self.later(self.draws, dA)
                if outB is None:
                    outB = ("return", NONE) if self._block_is_fn_end(st) else None
            if outA is not None and outB is not None and outA[0] == outB[0] == "return":
                return ("return", self.merge(c, outA[1], outB[1])), True
        raise Undecided("control flow join at %s" % loc(env.mod, st))

    @staticmethod
    def later(a, b):
        return {k: max(a.get(k, 0), b.get(k, 0)) for k in list(a) + [k for k in b if k not in a]}

    def _block_is_fn_end(self, st):
        p = getattr(st, "_parent", None)
        return isinstance(p, ast.FunctionDef)

    def restore_identity(self, env, varsA, varsB, memo):
        env.vars = varsB

    def merge_vars(self, c, A, B):
        out = {}
        for k in list(A) + [k for k in B if k not in A]:
            if k in A and k in B:
                out[k] = self.merge(c, A[k], B[k])
            else:
                out[k] = Top("bound on one branch only")
        return out

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.e == b.e and a.kind == b.kind:
                return a
            return Num(c * a.e + (ONE - c) * b.e, kmax(a.kind, b.kind), a.np or b.np)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.base is not None and b.base is not None:
                if a.vmap is b.vmap and tuple(a.shape) == tuple(b.shape):
                    nb = self.merge(c, a.base, b.base)
                    if isinstance(nb, Arr):
                        return Arr(a.shape, None, nb.kind, a.cls, base=nb, vmap=a.vmap, inv=a.inv, extra=a.extra)
            if a.base is None and b.base is None and a.fn is b.fn and tuple(a.shape) == tuple(b.shape):
                return a
            if len(a.shape) == len(b.shape) and all(x == y for x, y in zip(a.shape, b.shape)):
                fa, fb = a.snap(), b.snap()

                def f(idx, fa=fa, fb=fb, c=c):
                    cc = c
                    x, y = fa(idx), fb(idx)
                    if x == y:
                        return x
                    return cc * x + (ONE - cc) * y
                if a.base is None and a.log is not None:
                    n0 = len(a.log)
                    common = 0
                    if b.log is not None:
                        while common < min(len(a.log), len(b.log)) and a.log[common] is b.log[common]:
                            common += 1
                        a.log = a.log + b.log[common:]
                    a.fn = f
                    a.cache = {}
                    return a
                r = Arr(a.shape, f, kmax(a.kind, b.kind), a.cls if a.cls == b.cls else "nd")
                return r
            return Top("join of arrays of different shape")
        if isinstance(a, Str) and isinstance(b, Str) and a.s == b.s:
            return a
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return a
        if isinstance(a, Seq) and isinstance(b, Seq):
            la, lb = getattr(a, "log", None), getattr(b, "log", None)
            if la is not None and lb is not None:
                k = 0
                while k < min(len(la), len(lb)) and la[k] is lb[k]:
                    k += 1
                a.log = la[:k] + [(c * g, v) for g, v in la[k:]] + [((ONE - c) * g, v) for g, v in lb[k:]]
                return a
            if len(a.items) == len(b.items):
                return Seq([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.tup)
        if isinstance(a, Dct) and isinstance(b, Dct) and list(a.d) == list(b.d):
            return Dct({k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, IterV) and isinstance(b, IterV):
            if a.pos == b.pos:
                return a
            a.pos = c * a.pos + (ONE - c) * b.pos
            return a
        if isinstance(a, Inst) and isinstance(b, Inst):
            m = self.merge_vars(c, a.attrs, b.attrs)
            a.attrs = m
            return a
        if isinstance(a, (ModV, Ext, Func, Model, ClassV, Lazy, Opaque)) and type(a) is type(b):
            if getattr(a, "name", 1) == getattr(b, "name", 2) or a.__dict__ == b.__dict__:
                return a
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        return Top("join of %s and %s" % (type(a).__name__, type(b).__name__))

    def exec_stmt(self, st, env):
        self.cur = (env.mod, st)
        self.stats["stmts"] += 1
        self.visited.add((env.mod.name, st.lineno))
        try:
            return self._exec_stmt(st, env)
        except (PyRaise, NeedSplit):
            raise
        except RecursionError:
            raise Undecided("recursion")
        except Undecided as e:
            if isinstance(st, (ast.Return,)):
                return ("return", Top(str(e)))
            self._fallback(st, env, str(e))
            return None
        except Exception as e:  # incomplete model -> Top
            if DEBUG:
                raise
            if isinstance(st, ast.Return):
                self.fallbacks.append((loc(env.mod, st), "internal: %r" % (e,)))
                return ("return", Top("internal: %r" % (e,)))
            self._fallback(st, env, "internal: %r" % (e,))
            return None

    def _fallback(self, st, env, why):
        self.stats["fallback"] += 1
        self.fallbacks.append((loc(env.mod, st), why))
        if isinstance(st, (ast.For, ast.While, ast.Try, ast.With, ast.If)):
            for s in ast.walk(st):
                if isinstance(s, (ast.Return, ast.Break)):
                    if isinstance(s, ast.Return):
                        raise Undecided(why)
        for n, kind in stored_names(st):
            v = env.vars.get(n)
            if kind == "name" or v is None:
                env.vars[n] = Top(why)
            else:
                self.smash(v, why, env, n)

    def smash(self, v, why, env=None, name=None):
        """content of a container becomes unknown"""
        if isinstance(v, Arr):
            b = v
            while b.base is not None:
                b = b.base
            b.fn = D.top_elems(why)
            b.cache = {}
            b.log = None if b.log is None else b.log + [("smash", why)]
        elif isinstance(v, Seq):
            v.items = [Top(why)]
            if env is not None:
                env.vars[name] = Top(why)
        elif isinstance(v, Dct):
            for z in v.d.values():
                self.smash(z, why)
            if env is not None:
                env.vars[name] = Top(why)
        elif isinstance(v, Inst):
            for k in list(v.attrs):
                v.attrs[k] = Top(why)
        elif env is not None:
            env.vars[name] = Top(why)

    def _exec_stmt(self, st, env):
        t = type(st).__name__
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Undecided("statement " + t)
        return m(st, env)

    def s_Pass(self, st, env):
        return None

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)
        return None

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
        return None

    def s_Return(self, st, env):
        v = NONE if st.value is None else self.eval(st.value, env)
        return ("return", v)

    def s_Break(self, st, env):
        return ("break", None)

    def s_Continue(self, st, env):
        return ("continue", None)

    def s_Raise(self, st, env):
        name = "Exception"
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        raise PyRaise(name, st, loc(env.mod, st))

    def s_Assert(self, st, env):
        c = self.test(st.test, env)
        if c is False:
            raise PyRaise("AssertionError", st, loc(env.mod, st))
        return None

    def s_Import(self, st, env):
        self._module_stmt(st, env, env.mod)

    def s_ImportFrom(self, st, env):
        self._import_from(st, env, env.mod)

    def s_FunctionDef(self, st, env):
        env.vars[st.name] = Func(st, env.mod, env, st.name)

    def s_ClassDef(self, st, env):
        env.vars[st.name] = ClassV(st, env.mod, env)

    def s_If(self, st, env):
        out, consumed = self.exec_if(st, env, [])
        return out

    def s_Try(self, st, env):
        # exceptional edges of library calls are not modelled; the body is analysed as the normal path
        try:
            out = self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                names = handler_names(h)
                if names is None or e.etype in names or "Exception" in names:
                    if h.name:
                        env.vars[h.name] = Top("exception")
                    out = self.exec_block(h.body, env)
                    break
            else:
                if st.finalbody:
                    self.exec_block(st.finalbody, env)
                raise
        else:
            if out is None and st.orelse:
                out = self.exec_block(st.orelse, env)
        if st.finalbody:
            o2 = self.exec_block(st.finalbody, env)
            if o2 is not None:
                return o2
        return out

    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        return self.exec_block(st.body, env)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        cur = self.eval(_as_load(st.target), env)
        rhs = self.eval(st.value, env)
        if isinstance(cur, Arr):
            new = self.binop(type(st.op).__name__, cur, rhs)
            if isinstance(new, Top):
                self.smash(cur, new.why)
                return
            # in-place: keeps dtype
            if isinstance(new, Arr):
                if len(new.shape) > len(cur.shape):
                    raise Undecided("in-place broadcast")
                self.store_all(cur, new, "in-place operation")
                if isinstance(st.target, ast.Subscript):
                    # x[sel] += v stores back through the index
                    if cur.base is None:
                        self.assign(st.target, cur, env)
                elif isinstance(st.target, ast.Attribute):
                    pass
            return
        if isinstance(cur, Seq) and isinstance(rhs, Seq):
            cur.items = cur.items + rhs.items
            return
        if isinstance(cur, Top) and isinstance(st.target, ast.Subscript):
            pass
        self.assign(st.target, self.binop(type(st.op).__name__, cur, rhs), env)

    def s_While(self, st, env):
        c = self.test(st.test, env)
        if c is False:
            if st.orelse:
                return self.exec_block(st.orelse, env)
            return None
        # constant unrolling for small decided loops
        n = 0
        while c is True and n < 40:
            out = self.exec_block(st.body, env)
            if out is not None:
                if out[0] == "break":
                    return None
                if out[0] == "return":
                    return out
            c = self.test(st.test, env)
            n += 1
            if c is False:
                return None
        raise Undecided("while loop with data dependent exit")

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, z in zip(t.elts, items):
                self.assign(e, z, env)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, env)
            self.store(base, t, v, env)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, env)
            if isinstance(base, Inst):
                base.attrs[t.attr] = v
            elif isinstance(base, Top):
                pass
            elif isinstance(base, Arr) and t.attr == "shape":
                raise Undecided("shape assignment")
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Starred):
            raise Undecided("starred target")
        else:
            raise Undecided("target")

    def unpack(self, v, n, starred=False):
        if starred:
            raise Undecided("starred")
        if isinstance(v, Seq):
            if len(v.items) != n:
                raise PyRaise("ValueError", None, self.where())
            return v.items
        if isinstance(v, Arr):
            c = v.shape[0].cval() if v.shape else None
            if c is None:
                raise Undecided("unpack array of unknown length")
            if c != n:
                raise PyRaise("ValueError", None, self.where())
            return [self.np.index(self, v, [pyint(k)]) for k in range(n)]
        if isinstance(v, Top):
            return [Top(v.why)] * n
        if isinstance(v, SymSeq):
            return [v.at(const(k)) for k in range(n)]
        raise Undecided("unpack %r" % (v,))

    def store(self, base, t, v, env):
        if isinstance(base, Top):
            return
        if isinstance(base, Dct):
            k = self.eval(t.slice, env)
            base.d[self.hashkey(k)] = v
            return
        if isinstance(base, Seq):
            k = self.eval(t.slice, env)
            if isinstance(k, Num) and k.e.cval() is not None:
                base.items[int(k.e.cval())] = v
                return
            if getattr(base, "symlist", None) is not None or all(isinstance(z, NoneV) for z in base.items):
                raise Undecided("list store")
            raise Undecided("list store")
        if isinstance(base, SymSeq):
            k = self.eval(t.slice, env)
            if isinstance(k, Num) and getattr(base, "log", None) is not None:
                base.log.append((k.e, v, list(self.pathconds)))
                return
            raise Undecided("sequence store")
        if isinstance(base, Arr):
            if isinstance(v, Top):
                self.store_top(base, t, v, env)
                return
            keys = self.eval_index(t.slice, env)
            self.np.setitem(self, base, keys, v)
            return
        raise Undecided("store into %r" % (base,))

    def store_top(self, base, t, v, env):
        """unknown value stored to a region: only that region becomes unknown"""
        keys = self.eval_index(t.slice, env)
        why = v.why
        sel = self.np.index(self, base, keys)
        if isinstance(sel, Arr):
            tv = Arr(sel.shape, D.top_elems(why), base.kind)
            self.np.setitem(self, base, keys, tv)
        else:
            self.np.setitem(self, base, keys, Arr((), D.top_elems(why), base.kind))

    def hashkey(self, k):
        if isinstance(k, Str):
            return k.s
        if isinstance(k, Num):
            return k.e
        if isinstance(k, NoneV):
            return None
        raise Undecided("dict key")

    def store_all(self, a, new, what="assignment"):
        """a[...] = new (broadcast)"""
        self.np.setitem(self, a, [Ext("Ellipsis")], new)

    # ------------------------------------------------------------ loops
    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        items = self.iter_items(it)
        if items is None:
            raise Undecided("iteration over %r" % (it,))
        if items[0] == "list":
            for k, v in enumerate(items[1]):
                self.assign(st.target, v, env)
                out = self.exec_block(st.body, env)
                if out is not None:
                    if out[0] == "break":
                        return None
                    if out[0] == "return":
                        return out
            if st.orelse:
                return self.exec_block(st.orelse, env)
            return None
        _, lo, hi, at = items
        self.stats["loops"] += 1
        return self.sym_loop(st, env, lo, hi, at)

    def iter_items(self, it):
        if isinstance(it, Seq):
            return ("list", list(it.items))
        if isinstance(it, Dct):
            return ("list", [Str(k) if isinstance(k, str) else num(k) for k in it.d])
        if isinstance(it, SymSeq):
            c = it.n.cval()
            if c is not None and c <= 8:
                return ("list", [it.at(const(k)) for k in range(int(c))])
            lo = getattr(it, "lo", None)
            if lo is not None:
                # ranges of step one are iterated by position
                return ("sym", lo, lo + it.n, lambda k: Num(k, "i"))
            return ("sym", ZERO, it.n, it.at)
        if isinstance(it, Arr):
            c = it.shape[0].cval()
            f = lambda k: self.np.index(self, it, [num(k, "i")])
            if c is not None and c <= 8:
                return ("list", [f(const(k)) for k in range(int(c))])
            return ("sym", ZERO, it.shape[0], f)
        if isinstance(it, IterV):
            return ("sym", ZERO, it.n, it.at)
        return None

    def sym_loop(self, st, env, lo, hi, at):
        K = X.fresh_idx("k")
        eK = atom_expr(K)
        C = ctx()
        names = [n for n, kind in stored_names(st) if n in env.vars]
        for c in ast.walk(st):
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Name) and c.func.id == "next" and c.args and isinstance(c.args[0], ast.Name):
                    names.append(c.args[0].id)
                if isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "add"):
                    r = root_name(c.func.value)
                    if r:
                        names.append(r)
                if isinstance(c.func, ast.Name) and isinstance(env.lookup(c.func.id), Func):
                    # local helper that may write its arguments or captured variables
                    for q in c.args:
                        r = root_name(q)
                        if r and r in env.vars:
                            names.append(r)
                    f = env.lookup(c.func.id)
                    if f.env is env:
                        for n, kind in stored_names(f.node):
                            if n in env.vars:
                                names.append(n)
        names = list(dict.fromkeys(n for n in names if n in env.vars))
        pre = {n: env.vars[n] for n in names}
        assigned = set(n for n, kind in stored_names(st) if kind == "name")
        # collect base arrays reachable from those names
        bases = []
        seen = set()

        def collect(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Arr):
                b = v
                while b.base is not None:
                    b = b.base
                if id(b) not in [id(z) for z in bases]:
                    bases.append(b)
            elif isinstance(v, Seq):
                for z in v.items:
                    collect(z)
            elif isinstance(v, Dct):
                for z in v.d.values():
                    collect(z)
            elif isinstance(v, Inst):
                for z in v.attrs.values():
                    collect(z)
        for n in names:
            collect(pre[n])
        old = [(b, b.fn, b.log, b.kind, getattr(b, "carry", None)) for b in bases]
        nev = len(self.events)
        closed = {}      # name -> function of K for induction variables / accumulators
        iters = {n: pre[n] for n in names if isinstance(pre[n], IterV)}
        ipos = {n: v.pos for n, v in iters.items()}
        seqs = {n: v for n, v in pre.items() if isinstance(v, Seq) and not v.tup}
        symseqs = {n: v for n, v in pre.items() if isinstance(v, SymSeq)}
        allvars0 = dict(env.vars)
        draws0 = dict(self.draws)
        stable = set()       # arrays that a run with arbitrary contents never writes

        def run():
            env.vars = dict(allvars0)
            self.draws = dict(draws0)
            carr = {}
            for n in names:
                v = pre[n]
                if n in closed:
                    if isinstance(v, IterV):
                        v.pos = closed[n][0](eK)
                        env.vars[n] = v
                    else:
                        env.vars[n] = closed[n][0](eK)
                elif isinstance(v, Num):
                    a = X.sym("carry:%s:%s" % (n, K.args[0]), integer=v.kind in "bi", real=v.kind != "c",
                              flags=("carry",))
                    carr[n] = a
                    env.vars[n] = Num(atom_expr(a), v.kind, v.np)
                elif isinstance(v, IterV):
                    a = X.sym("carry:%s:%s" % (n, K.args[0]), integer=True, flags=("carry",))
                    carr[n] = a
                    v.pos = atom_expr(a)
            for (b, fn, lg, kd, cr) in old:
                if id(b) in stable:
                    b.fn, b.carry, b.log, b.cache = fn, cr, [], {}
                    continue
                tok = X.Token("carry:%d:%s" % (b.n, K.args[0]), real=b.kind != "c", integer=b.kind in "bi", opaque="carry")
                b.fn = (lambda tok: lambda idx: X.elem(tok, *idx))(tok)
                b.carry = tok
                b.log = []
                b.cache = {}
            for n, v in seqs.items():
                v.log = []
            for n, v in symseqs.items():
                v.log = []
            del self.events[nev:]

            def body():
                self.assign(st.target, at(eK), env)
                return self.exec_block(st.body, env)
            save_owner = C.owners
            self.loops.append(eK - lo)
            try:
                out = D.with_range(K, lo, hi, False, body)
            finally:
                self.loops.pop()
            if out is not None and out[0] not in ("continue",):
                raise Undecided("loop exit inside summarised loop")
            return carr

        def restore():
            for (b, fn, lg, kd, cr) in old:
                b.fn, b.log, b.kind, b.carry = fn, lg, kd, cr
                b.cache = {}
            for n, v in iters.items():
                v.pos = ipos[n]
            for v in seqs.values():
                v.log = None

        try:
            for attempt in range(4):
                carr = run()
                progress = False
                for n, a in carr.items():
                    v0 = pre[n]
                    v1 = env.vars.get(n)
                    if isinstance(v0, IterV):
                        d = v0.pos - atom_expr(a)
                        init = ipos[n]
                    elif isinstance(v1, Num):
                        d = v1.e - atom_expr(a)
                        init = v0.e
                    else:
                        continue
                    if _has_carry(d):
                        continue
                    if K not in d.deps:
                        f = (lambda init, d: lambda k: init + d * (k - lo))(init, d)
                    else:
                        f = (lambda init, d: lambda k: init + _prefix(K, lo, k, d))(init, d)
                    if isinstance(v0, IterV):
                        closed[n] = (f, f)
                    else:
                        kd = kmax(v0.kind, v1.kind) if isinstance(v1, Num) else v0.kind
                        closed[n] = ((lambda f, kd, npf: lambda k: Num(f(k), kd, npf))(f, kd, v0.np), f)
                    progress = True
                rebound = {id(pre[n]) for n in assigned if n in pre}
                for b in bases:
                    if not b.log and id(b) not in stable and id(b) in rebound:
                        stable.add(id(b))
                        progress = True
                if not progress:
                    break
            final_vars = env.vars
            logs = [(b, b.log, b.fn, b.carry, b.kind) for b in bases]
            # build final state -------------------------------------------------
            recs = {}
            for (b, fn, lg, kd, cr), (_, log, bfn, tok, kind1) in zip(old, logs):
                b.cache = {}
                b.kind = kind1 if not log else b.kind
                if not log:
                    b.fn = fn
                    b.log = lg
                    b.carry = cr
                    continue
                newfn = summarise(self, K, lo, hi, log, fn, tok)
                b.fn = newfn
                b.carry = cr
                b.log = lg
                if lg is not None:
                    # nested in an outer logged loop: export the summarised writes as one write per entry
                    carryfn = fn
                    for w in log:
                        lg.append(lift_write(self, K, lo, hi, w, tok, fn))
                    b.log = lg
            out_vars = dict(final_vars)
            for n in names:
                v0 = pre[n]
                if n in closed:
                    if isinstance(v0, IterV):
                        v0.pos = closed[n][1](hi)
                        out_vars[n] = v0
                    else:
                        out_vars[n] = closed[n][0](hi)
                    continue
                v1 = final_vars.get(n)
                out_vars[n] = self.last_value(v0, v1, K, lo, hi, n, bases, logs, old)
            for n, v1 in final_vars.items():
                if n in names:
                    continue
                if n not in allvars0:
                    out_vars[n] = self.last_value(None, v1, K, lo, hi, n, bases, logs, old)
            for n, v in seqs.items():
                lg = v.log
                v.log = None
                if lg:
                    if len(v.items) == 0 and len(lg) == 1 and isinstance(lg[0][1], Num):
                        g, item = lg[0]
                        out_vars[n] = CondList((lo, hi), (lambda g: lambda k: X.subst(g, {K: lift(k)}))(g),
                                               (lambda it: lambda k: Num(X.subst(it.e, {K: lift(k)}), it.kind))(item))
                    elif len(v.items) == 0 and len(lg) == 1 and lg[0][0] == ONE:
                        it = lg[0][1]
                        ss = SymSeq(hi - lo, (lambda it: lambda k: subst_val(it, {K: lo + k}))(it))
                        out_vars[n] = ss
                    else:
                        out_vars[n] = Top("list built in loop")
            for n, v in symseqs.items():
                lg = v.log
                v.log = None
                if lg:
                    if len(lg) == 1 and not lg[0][2] and X._lin_coeff(lg[0][0], K) == 1 and (lg[0][0] - eK) == -lo:
                        out_vars[n] = SymSeq(hi - lo, (lambda it: lambda k: subst_val(it, {K: lo + k}))(lg[0][1]))
                    else:
                        out_vars[n] = Top("list stores in loop")
            env.vars = out_vars
            return None
        except (Undecided, NeedSplit):
            env.vars = dict(allvars0)
            restore()
            raise Undecided("loop at %s" % loc(env.mod, st)) from None
        except PyRaise:
            env.vars = dict(allvars0)
            restore()
            raise
        except Exception:
            env.vars = dict(allvars0)
            restore()
            raise

    def last_value(self, v0, v1, K, lo, hi, name, bases, logs, old):
        """value of a variable after the loop = its value in the last iteration"""
        if v1 is v0 or v1 is None:
            return v0
        last = hi - 1
        if isinstance(v1, Num):
            if _has_carry(v1.e):
                return Top("loop-carried scalar %s" % name)
            return Num(X.subst(v1.e, {K: last}), v1.kind, v1.np)
        if isinstance(v1, Arr):
            b = v1
            while b.base is not None:
                b = b.base
            if b in bases:
                if v1.base is None:
                    return v1
                return Top("view of loop array after loop")
            f = v1.snap()

            def g(idx):
                val = D.with_bind({K: last}, lambda: f(idx))
                if _has_carry(val):
                    raise Undecided("loop-carried value of %s" % name)
                return X.subst(val, {K: last})
            shape = [X.subst(s, {K: last}) for s in v1.shape]
            return Arr(shape, g, v1.kind, v1.cls)
        if isinstance(v1, (Str, NoneV, ModV, Ext, Func, Model, ClassV, Opaque)):
            if v0 is None or type(v0) is type(v1):
                return v1 if isinstance(v1, (Str, NoneV, ModV, Ext, Func, ClassV)) else Top("loop value")
            return Top("loop value")
        if isinstance(v1, Seq):
            try:
                return Seq([self.last_value(None, z, K, lo, hi, name, bases, logs, old) for z in v1.items], v1.tup)
            except Exception:
                return Top("loop value")
        return Top("value of %s after loop" % name)

    # ------------------------------------------------------------ expressions
    def test(self, node, env):
        """True / False / 0-1 Expr"""
        if isinstance(node, ast.BoolOp):
            acc = ONE if isinstance(node.op, ast.And) else ZERO
            for v in node.values:
                c = self.test(v, env)
                if isinstance(node.op, ast.And):
                    if c is False:
                        return False
                    if c is not True:
                        acc = X.mul(acc, c)
                else:
                    if c is True:
                        return True
                    if c is not False:
                        acc = acc + c - X.mul(acc, c)
            if acc.cval() is not None:
                return acc.cval() == 1
            return acc
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            c = self.test(node.operand, env)
            if c is True or c is False:
                return not c
            return ONE - c
        try:
            v = self.eval(node, env)
        except Undecided as e:
            v = Top(str(e))
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, Num):
            c = v.e.cval()
            if c is not None:
                return c != 0
            if v.kind == "b":
                return v.e
            e = mk_eq0(v.e)
            c = e.cval()
            if c is not None:
                return c == 0
            return ONE - e
        if isinstance(v, NoneV):
            return False
        if isinstance(v, Str):
            return bool(v.s) if v.s is not None else self.opaque_cond("str")
        if isinstance(v, Seq):
            return len(v.items) > 0
        if isinstance(v, Dct):
            return len(v.d) > 0
        if isinstance(v, Arr):
            if v.size_const() == 1:
                e = v.at(*[ZERO] * v.ndim)
                return self.truth(Num(e, v.kind))
            raise PyRaise("ValueError", None, self.where())
        if isinstance(v, (Func, Model, ModV, Ext, ClassV, Inst, Bound, Opaque)):
            return True
        if isinstance(v, SymSeq):
            return self.truth(Num(v.n, "i"))
        return self.opaque_cond(getattr(v, "why", "?"))

    _oc = 0

    def opaque_cond(self, why):
        Interp._oc += 1
        return X.fn("ind", "cond%d" % Interp._oc, flags=frozenset(["top"]))

    def eval(self, node, env):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Undecided("expression " + type(node).__name__)
        return m(node, env)

    def e_Constant(self, n, env):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Num(ONE if v else ZERO, "b")
        if isinstance(v, int):
            return Num(const(v), "i")
        if isinstance(v, float):
            return Num(X.fconst(v), "f")
        if isinstance(v, complex):
            return Num(X.fconst(v.real) + X.EI * X.fconst(v.imag), "c")
        if isinstance(v, str):
            return Str(v)
        if v is Ellipsis:
            return Ext("Ellipsis")
        raise Undecided("constant")

    def e_Name(self, n, env):
        v = env.lookup(n.id)
        if v is None:
            if n.id in BUILTINS:
                return Ext("builtins." + n.id)
            if n.id in EXCS:
                return Ext("builtins." + n.id)
            if n.id == "NotImplemented":
                return Top("NotImplemented")
            if n.id in ("__name__", "__file__"):
                return Str(None)
            raise PyRaise("NameError", n, self.where(n))
        if isinstance(v, Lazy):
            return self._force(v)
        return v

    def e_Tuple(self, n, env):
        return Seq(self._elts(n.elts, env), True)

    def e_List(self, n, env):
        return Seq(self._elts(n.elts, env), False)

    def e_Set(self, n, env):
        return Seq(self._elts(n.elts, env), True)

    def _elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env)
                if isinstance(v, Seq):
                    out.extend(v.items)
                else:
                    raise Undecided("starred")
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                z = self.eval(v, env)
                if isinstance(z, Dct):
                    d.update(z.d)
                    continue
                raise Undecided("dict")
            d[self.hashkey(self.eval(k, env))] = self.eval(v, env)
        return Dct(d)

    def e_JoinedStr(self, n, env):
        return Str(None)

    def e_Lambda(self, n, env):
        return Func(n, env.mod, env, "<lambda>")

    def e_IfExp(self, n, env):
        c = self.test(n.test, env)
        if c is True:
            return self.eval(n.body, env)
        if c is False:
            return self.eval(n.orelse, env)
        self.stats["joins"] += 1
        try:
            a = self.eval(n.body, env)
        except PyRaise:
            return self.eval(n.orelse, env)
        try:
            b = self.eval(n.orelse, env)
        except PyRaise:
            return a
        return self.merge(c, a, b)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_BoolOp(self, n, env):
        # value semantics of and/or
        last = None
        for k, v in enumerate(n.values):
            val = self.eval(v, env)
            if k == len(n.values) - 1 and last is None:
                return val
            c = self.truth(val)
            if isinstance(n.op, ast.And):
                if c is False:
                    return val
            else:
                if c is True:
                    return val
            if c is not True and c is not False:
                t = self.test(n, env)
                if t is True or t is False:
                    return Num(ONE if t else ZERO, "b")
                return Num(t, "b")
        return val

    def e_UnaryOp(self, n, env):
        if isinstance(n.op, ast.Not):
            c = self.test(n.operand, env)
            if c is True or c is False:
                return Num(ZERO if c else ONE, "b")
            return Num(ONE - c, "b")
        v = self.eval(n.operand, env)
        if isinstance(v, Top):
            return v
        if isinstance(n.op, ast.USub):
            return self.np.ew1(self, v, lambda e: -e, lambda k: "i" if k == "b" else k)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            def inv(e, k):
                return ONE - e if k == "b" else -e - 1
            k = v.kind if isinstance(v, (Num, Arr)) else "b"
            return self.np.ew1(self, v, lambda e: inv(e, k), lambda q: q)
        raise Undecided("unary")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, Str):
            return Str(None) if op == "Mod" or op == "Mult" else (
                Str(a.s + b.s) if isinstance(b, Str) and a.s is not None and b.s is not None else Str(None))
        if isinstance(b, Str):
            return Str(None)
        if isinstance(a, Seq) or isinstance(b, Seq):
            if op == "Add" and isinstance(a, Seq) and isinstance(b, Seq):
                return Seq(a.items + b.items, a.tup)
            if op == "Mult":
                s, k = (a, b) if isinstance(a, Seq) else (b, a)
                if isinstance(k, Num):
                    c = k.e.cval()
                    if c is not None:
                        return Seq(s.items * int(c), s.tup)
                    if len(s.items) == 1:
                        z = s.items[0]
                        return SymSeq(k.e, lambda i: z)
                elif isinstance(k, Arr):
                    pass
            if isinstance(a, Arr) or isinstance(b, Arr) or op != "Add":
                a = self.np.as_arr(self, a) if isinstance(a, Seq) else a
                b = self.np.as_arr(self, b) if isinstance(b, Seq) else b
            else:
                raise Undecided("sequence operation")
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            raise PyRaise("TypeError", None, self.where())
        if op == "MatMult":
            return self.models["numpy.matmul"](self, [a, b], {})
        return self.np.arith(self, op, a, b)

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            v = self.compare(type(op).__name__, left, right, n)
            if res is None:
                res = v
            else:
                res = self.np.logical(self, "and", res, v)
            left = right
        return res

    def compare(self, op, a, b, node=None):
        B = lambda t: Num(ONE if t else ZERO, "b")
        if isinstance(a, Top) or isinstance(b, Top):
            if op in ("Is", "IsNot") :
                return Num(self.opaque_cond("top"), "b")
            return Num(self.opaque_cond("top"), "b")
        if op in ("Is", "IsNot"):
            if isinstance(a, NoneV) or isinstance(b, NoneV):
                t = isinstance(a, NoneV) and isinstance(b, NoneV)
            elif isinstance(a, Num) and isinstance(b, Num):
                if a.kind == "b" and b.kind == "b":
                    return self.np.compare(self, "Eq" if op == "Is" else "NotEq", a, b)
                t = False
            else:
                t = a is b
            return B(t if op == "Is" else not t)
        if op in ("In", "NotIn"):
            if isinstance(b, Dct):
                ks = [k for k in b.d]
                t = any(self.hashkey(a) == k for k in ks)
                return B(t if op == "In" else not t)
            if isinstance(b, (Seq,)):
                acc = ZERO
                for z in b.items:
                    e = self.compare("Eq", a, z)
                    if not isinstance(e, Num):
                        raise Undecided("in")
                    acc = acc + e.e - X.mul(acc, e.e)
                return Num(acc if op == "In" else ONE - acc, "b")
            if isinstance(b, Str) and isinstance(a, Str) and b.s is not None and a.s is not None:
                t = a.s in b.s
                return B(t if op == "In" else not t)
            raise Undecided("in")
        if isinstance(a, Str) or isinstance(b, Str):
            if op in ("Eq", "NotEq"):
                if isinstance(a, Str) and isinstance(b, Str):
                    if a.s is None or b.s is None:
                        return Num(self.opaque_cond("str"), "b")
                    t = a.s == b.s
                else:
                    t = False
                return B(t if op == "Eq" else not t)
            raise Undecided("string comparison")
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if op in ("Eq", "NotEq"):
                t = isinstance(a, NoneV) and isinstance(b, NoneV)
                return B(t if op == "Eq" else not t)
            raise PyRaise("TypeError", node, self.where(node))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if op in ("Eq", "NotEq"):
                if len(a.items) != len(b.items):
                    return B(op == "NotEq")
                acc = ONE
                for x, y in zip(a.items, b.items):
                    e = self.compare("Eq", x, y)
                    if isinstance(e, Num):
                        acc = X.mul(acc, e.e)
                    else:
                        raise Undecided("compare")
                return Num(acc if op == "Eq" else ONE - acc, "b")
            raise Undecided("tuple order")
        if isinstance(a, Seq) != isinstance(b, Seq):
            if isinstance(a, Num) or isinstance(b, Num):
                if op in ("Eq", "NotEq"):
                    return B(op == "NotEq")
        if isinstance(a, (Ext, Func, ModV)) or isinstance(b, (Ext, Func, ModV)):
            t = getattr(a, "name", 0) == getattr(b, "name", 1)
            return B(t if op == "Eq" else not t)
        return self.np.compare(self, op, a, b)

    def e_Call(self, n, env):
        f = self.eval(n.func, env)
        args = []
        kw = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Seq):
                    args.extend(v.items)
                else:
                    raise Undecided("starred argument")
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct):
                    for q, z in v.d.items():
                        kw[q] = z
                else:
                    raise Undecided("** argument")
            else:
                kw[k.arg] = v
        save = self.cur
        r = self.call(f, args, kw, n)
        self.cur = save
        return r

    def e_Attribute(self, n, env):
        v = self.eval(n.value, env)
        return self.getattr(v, n.attr, n)

    def getattr(self, v, attr, node=None):
        if isinstance(v, Lazy):
            v = self._force(v)
        if isinstance(v, ModV):
            full = v.name + "." + attr
            if v.name in self.p.mods:
                r = self.get_global(v.name, attr)
                if r is not None:
                    return r
                if full in self.p.mods:
                    return ModV(full)
                raise PyRaise("AttributeError", node, self.where(node))
            full = canon_name(full)
            c = self.np.CONSTANTS.get(full)
            if c is not None:
                return c
            if full in self.models:
                return Ext(full)
            return self.np.submodule(full)
        if isinstance(v, Ext):
            full = canon_name(v.name + "." + attr)
            c = self.np.CONSTANTS.get(full)
            if c is not None:
                return c
            return Ext(full)
        if isinstance(v, Inst):
            if attr in v.attrs:
                return v.attrs[attr]
            m = find_method(v.cls, attr, self)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == "property" for d in getattr(m.node, "decorator_list", [])):
                    return self.call_user(m, [v], {}, node)
                return Bound(m, v)
            c = find_classattr(v.cls, attr)
            if c is not None:
                return self.eval(c, v.cls.env)
            raise PyRaise("AttributeError", node, self.where(node))
        if isinstance(v, Top):
            return Top(v.why)
        if isinstance(v, (Arr, Num)):
            return self.np.arr_attr(self, v, attr)
        if isinstance(v, (Str, Seq, Dct, Opaque, SymSeq, IterV)):
            return self.np.obj_attr(self, v, attr)
        if isinstance(v, NoneV):
            raise PyRaise("AttributeError", node, self.where(node))
        if isinstance(v, Func):
            return Top("function attribute")
        raise Undecided("attribute %s of %r" % (attr, v))

    def eval_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return [self._index_elt(e, env) for e in s.elts]
        v = self._index_elt(s, env)
        if isinstance(v, Seq) and v.tup:
            return list(v.items)
        return [v]

    def _index_elt(self, e, env):
        if isinstance(e, ast.Slice):
            g = lambda q: NONE if q is None else self.eval(q, env)
            return SliceV(g(e.lower), g(e.upper), g(e.step))
        return self.eval(e, env)

    def e_Slice(self, n, env):
        return self._index_elt(n, env)

    def e_Subscript(self, n, env):
        v = self.eval(n.value, env)
        if isinstance(v, Top):
            return v
        if isinstance(v, Ext) and v.name in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.mgrid", "numpy.ix_"):
            return self.np.r_like(self, v.name, self.eval_index(n.slice, env))
        if isinstance(v, Ext):
            return v
        keys = self.eval_index(n.slice, env)
        return self.getitem(v, keys, n)

    def getitem(self, v, keys, node=None):
        if isinstance(v, Dct):
            k = self.hashkey(keys[0])
            for q, z in v.d.items():
                if q == k:
                    return z
            raise PyRaise("KeyError", node, self.where(node))
        if isinstance(v, Seq):
            k = keys[0]
            if isinstance(k, Num):
                c = k.e.cval()
                if c is None:
                    # symbolic index into a short constant sequence of numbers
                    if all(isinstance(z, Num) for z in v.items):
                        return self.np.index(self, self.np.as_arr(self, v), keys)
                    raise Undecided("sequence index")
                try:
                    return v.items[int(c)]
                except IndexError:
                    raise PyRaise("IndexError", node, self.where(node))
            if isinstance(k, SliceV):
                g = lambda z: None if isinstance(z, NoneV) else int(z.e.cval())
                return Seq(v.items[g(k.a):g(k.b):g(k.c)], v.tup)
            raise Undecided("sequence index")
        if isinstance(v, SymSeq):
            k = keys[0]
            if isinstance(k, Num):
                c = k.e.cval()
                return v.at(k.e if c is None or c >= 0 else v.n + k.e)
            if isinstance(k, SliceV) and isinstance(k.c, NoneV):
                lo = ZERO if isinstance(k.a, NoneV) else k.a.e
                hi = v.n if isinstance(k.b, NoneV) else k.b.e
                n, lc, hc = v.n.cval(), lo.cval(), hi.cval()
                if n is not None and lc is not None and hc is not None:
                    r = range(int(n))[int(lc):int(hc)]
                    return SymSeq(lift(len(r)), lambda i: v.at(i + r.start)) if len(r) else Seq([], False)
            raise Undecided("sequence slice")
        if isinstance(v, (Arr, Num)):
            return self.np.index(self, v, keys)
        if isinstance(v, Str):
            return Str(None)
        if isinstance(v, Opaque):
            return self.np.opaque_getitem(self, v, keys)
        raise Undecided("subscript of %r" % (v,))

    def _comp(self, n, env):
        """list of produced values or a symbolic sequence"""
        if len(n.generators) != 1:
            return self._comp_nested(n, env)
        g = n.generators[0]
        it = self.eval(g.iter, env)
        items = self.iter_items(it)
        if items is None:
            raise Undecided("comprehension")
        if items[0] == "list":
            out = []
            e2 = Env(env, env.mod, env.fname)
            for v in items[1]:
                self.assign(g.target, v, e2)
                ok = True
                for c in g.ifs:
                    t = self.test(c, e2)
                    if t is False:
                        ok = False
                    elif t is not True:
                        raise Undecided("comprehension filter")
                if ok:
                    out.append(self.eval(n.elt, e2))
            return Seq(out, False)
        if g.ifs:
            raise Undecided("comprehension filter")
        _, lo, hi, at = items

        def elt(k):
            e2 = Env(env, env.mod, env.fname)
            self.assign(g.target, at(lo + k), e2)
            return self.eval(n.elt, e2)
        return SymSeq(hi - lo, elt)

    def _comp_nested(self, n, env):
        out = []

        def rec(k, e):
            if k == len(n.generators):
                out.append(self.eval(n.elt, e))
                return
            g = n.generators[k]
            items = self.iter_items(self.eval(g.iter, e))
            if items is None or items[0] != "list":
                raise Undecided("comprehension")
            for v in items[1]:
                e2 = Env(e, env.mod, env.fname)
                self.assign(g.target, v, e2)
                if all(self.test(c, e2) is True for c in g.ifs):
                    rec(k + 1, e2)
        rec(0, env)
        return Seq(out, False)

    def e_ListComp(self, n, env):
        return self._comp(n, env)

    def e_GeneratorExp(self, n, env):
        return self._comp(n, env)

    def e_SetComp(self, n, env):
        return self._comp(n, env)

    def e_DictComp(self, n, env):
        g = n.generators[0]
        items = self.iter_items(self.eval(g.iter, env))
        if len(n.generators) != 1 or items is None or items[0] != "list":
            raise Undecided("dict comprehension")
        d = {}
        for v in items[1]:
            e2 = Env(env, env.mod, env.fname)
            self.assign(g.target, v, e2)
            if all(self.test(c, e2) is True for c in g.ifs):
                d[self.hashkey(self.eval(n.key, e2))] = self.eval(n.value, e2)
        return Dct(d)

    def e_Starred(self, n, env):
        raise Undecided("starred")


# ---------------------------------------------------------------- loop summarisation

def _has_carry(e):
    for a in X.walk_atoms(e):
        if "carry" in a.flags or (a.kind == "elem" and a.args[0].opaque == "carry"):
            return True
    return False


def _prefix(K, lo, k, d):
    """sum_{K'=lo}^{k-1} d(K')"""
    return D.asum(lo, k, lambda v: X.subst(d, {K: v}))


class Write:
    """guarded write: guards(idx) -> [('eq'|'ge'|'cond', Expr)], value(idx) -> Expr"""
    __slots__ = ("guards", "value")

    def __init__(self, guards, value):
        self.guards, self.value = guards, value


def solve_write(K, lo, hi, w, idx):
    """(K-solution or None, guards without the solved one)"""
    gs = w.guards(idx)
    sol = None
    rest = []
    for kind, e in gs:
        if sol is None and kind == "eq" and K in e.deps:
            c = X._lin_coeff(e, K)
            if c in (1, -1):
                sol = (e - atom_expr(K) * const(c)) * const(-c)
                continue
        rest.append((kind, e))
    if sol is None:
        return None, gs
    mp = {K: sol}
    rest = [(k, X.subst(e, mp)) for k, e in rest]
    rest.append(("ge", sol - lo))
    rest.append(("ge", hi - 1 - sol))
    return sol, rest


def guard_expr(gs):
    g = ONE
    for kind, e in gs:
        if kind == "eq":
            z = mk_eq0(e)
        elif kind == "ge":
            z = mk_ge(e)
        else:
            z = e if isinstance(e, Expr) else (ONE if e else ZERO)
        if z.cval() == 0:
            return ZERO
        g = X.mul(g, z)
    return g


def replace_carry(val, tok, idx, oldfn):
    """replace same-index carried elements by the old content"""
    mp = {}
    for a in X.walk_atoms(val):
        if "carry" in a.flags and a.kind == "sym":
            raise Undecided("loop-carried scalar")
        if a.kind == "elem" and a.args[0].opaque == "carry":
            if a.args[0] is tok and len(a.args) - 1 == len(idx) and all((p - q).is_zero_form() for p, q in zip(a.args[1:], idx)):
                mp[a] = None
            else:
                raise Undecided("loop-carried array element")
    if not mp:
        return val
    o = oldfn(idx)
    return X._subst(val, {a: o for a in mp}, frozenset(mp), {})


def apply_write(I, K, lo, hi, w, prev, tok, oldfn):
    def f(idx):
        if isinstance(w, tuple):
            raise Undecided(w[1])
        sol, gs = solve_write(K, lo, hi, w, idx)
        if sol is not None:
            g = guard_expr(gs)
            if g.cval() == 0:
                return prev(idx)
            val = D.with_bind({K: sol}, lambda: w.value(idx))
            val = X.subst(val, {K: sol})
            val = replace_carry(val, tok, idx, oldfn)
            if g.cval() == 1:
                return val
            return g * val + (ONE - g) * prev(idx)
        # no index depends on the loop variable
        me = X.elem(tok, *idx)
        (mm, _), = me.t.items()
        ca = X.byid(mm[0][0])

        def body_val(k):
            v = D.with_bind({K: k}, lambda: w.value(idx))
            return X.subst(v, {K: k})
        probe = D.with_range(K, lo, hi, False, lambda: w.value(idx))
        uses = any(a is ca for a in X.walk_atoms(probe))
        if uses:
            d = probe - me
            if _has_carry(d):
                raise Undecided("loop-carried array element")

            def term(k):
                v = D.with_bind({K: k}, lambda: w.value(idx)) - me
                v = X.subst(v, {K: k})
                g = guard_expr([(q, X.subst(e, {K: k})) for q, e in w.guards(idx)])
                return g * v
            return prev(idx) + D.asum(lo, hi, term)
        if _has_carry(probe):
            raise Undecided("loop-carried array element")
        last = hi - 1
        gs = [(q, X.subst(e, {K: last})) for q, e in w.guards(idx)]
        if any(K in e.deps for q, e in w.guards(idx) if isinstance(e, Expr)):
            raise Undecided("guarded overwrite in loop")
        g = guard_expr(gs)
        if g.cval() == 0:
            return prev(idx)
        v = body_val(last)
        if g.cval() == 1:
            return v
        return g * v + (ONE - g) * prev(idx)
    return f


def summarise(I, K, lo, hi, log, oldfn, tok):
    fn = oldfn
    if len(log) > 1:
        return summarise_many(I, K, lo, hi, log, oldfn, tok)
    for w in log:
        fn = apply_write(I, K, lo, hi, w, fn, tok, oldfn)
    return fn


def summarise_many(I, K, lo, hi, log, oldfn, tok):
    """several writes per iteration: the latest iteration (then latest statement) wins"""
    def f(idx):
        val = oldfn(idx)
        cur = None
        for w in log:
            if isinstance(w, tuple):
                raise Undecided(w[1])
            sol, gs = solve_write(K, lo, hi, w, idx)
            if sol is None:
                # treat sequentially as accumulation / last write on top of what is there
                prev = val
                val = apply_write(I, K, lo, hi, w, lambda ix, prev=prev: prev, tok, lambda ix, prev=prev: prev)(idx)
                continue
            g = guard_expr(gs)
            if g.cval() == 0:
                continue
            v = D.with_bind({K: sol}, lambda: w.value(idx))
            v = X.subst(v, {K: sol})
            pv = val
            v = replace_carry(v, tok, idx, lambda ix: pv)
            if cur is not None and not (cur[0] - sol).is_zero_form():
                both = X.mul(cur[1], g)
                if both.cval() != 0:
                    later = mk_ge(sol - cur[0])
                    g = X.mul(g, ONE - X.mul(cur[1], ONE - later))
            cur = (sol, g if cur is None else g)
            val = v if g.cval() == 1 else g * v + (ONE - g) * val
        return val
    return f


def lift_write(I, K, lo, hi, w, tok, fnold):
    """a write of an inner loop, summarised over its own K, as a write of the enclosing loop"""
    if isinstance(w, tuple):
        return w

    def guards(idx):
        sol, gs = solve_write(K, lo, hi, w, idx)
        if sol is None:
            probe = w.guards(idx)
            if any(isinstance(e, Expr) and K in e.deps for _, e in probe):
                me = None
            return [g for g in probe if not (isinstance(g[1], Expr) and K in g[1].deps)]
        return gs

    def value(idx):
        sol, gs = solve_write(K, lo, hi, w, idx)
        if sol is not None:
            v = D.with_bind({K: sol}, lambda: w.value(idx))
            v = X.subst(v, {K: sol})
            return replace_carry(v, tok, idx, fnold)
        return apply_write(I, K, lo, hi, w, fnold, tok, fnold)(idx)
    return Write(guards, value)


def subst_val(v, mp):
    if isinstance(v, Num):
        return Num(X.subst(v.e, mp), v.kind, v.np)
    if isinstance(v, Arr):
        f = v.snap()

        def g(idx):
            return X.subst(D.with_bind(mp, lambda: f(idx)), mp)
        return Arr([X.subst(s, mp) for s in v.shape], g, v.kind, v.cls)
    if isinstance(v, Seq):
        return Seq([subst_val(z, mp) for z in v.items], v.tup)
    return v


# ---------------------------------------------------------------- ast helpers

def _as_load(t):
    return t


def targets_of(st):
    return [n for n, k in stored_names(st)]


def root_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def stored_names(st):
    """(name, 'name'|'content') stored to by a statement (nested functions excluded)"""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append((t.id, "name"))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = root_name(t)
            if r:
                out.append((r, "content"))

    def visit(n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                out.append((n.target.id, "name"))
            else:
                tgt(n.target)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not st:
            out.append((n.name, "name"))
            return
        elif isinstance(n, ast.Lambda):
            return
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append(((a.asname or a.name).split(".")[0], "name"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            r = root_name(n.func.value)
            if r:
                out.append((r, "content"))
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(st)
    return list(dict.fromkeys(out))


MUTATORS = {"append", "extend", "insert", "sort", "fill", "pop", "remove", "clear", "update", "resize", "put", "itemset",
            "partition", "setdefault", "reverse", "add"}


def handler_names(h):
    if h.type is None:
        return None
    if isinstance(h.type, ast.Name):
        return {h.type.id}
    if isinstance(h.type, ast.Tuple):
        return {e.id for e in h.type.elts if isinstance(e, ast.Name)}
    return set()


def find_method(cls, name, I):
    for n in cls.node.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return Func(n, cls.mod, cls.env, cls.node.name + "." + name, cls)
    for b in cls.node.bases:
        if isinstance(b, ast.Name):
            v = cls.env.lookup(b.id)
            if isinstance(v, Lazy):
                v = I._force(v)
            if isinstance(v, ClassV):
                r = find_method(v, name, I)
                if r is not None:
                    return r
    return None


def find_classattr(cls, name):
    for n in cls.node.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    return n.value
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return n.value
    return None


_CANON = {"np": "numpy", "scipy.signal.signaltools": "scipy.signal"}


def canon_name(n):
    n = n.replace("numpy.core.", "numpy.").replace("scipy.sparse.construct", "scipy.sparse")
    n = n.replace("scipy.signal.filter_design", "scipy.signal").replace("scipy.signal.windows", "scipy.signal")
    return n


def _size_const(self):
    r = 1
    for s in self.shape:
        c = s.cval()
        if c is None:
            return None
        r *= int(c)
    return r


Arr.size_const = _size_const
