"""C22: exported names exist, every name resolves on every path, calls match signatures."""
import ast
import builtins
import json
import os
import re
import subprocess

from ..check import Report
from .common import HERE
from .loops import bound_names, owner_class
from .state import analysis, scopes, walk_scope

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__", "__version__"}
PY = "/opt/venv/bin/python"

PROBE = r'''
import sys, json, importlib, inspect, warnings
warnings.simplefilter("ignore")
out = {}
for d in json.load(sys.stdin):
    parts = d.split(".")
    obj, k = None, 0
    for k in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:k]))
            break
        except Exception:
            obj = None
    if obj is None:
        out[d] = {"root": False}
        continue
    ok = True
    for p in parts[k:]:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            ok = False
            break
        except Exception:
            break
    r = {"root": True, "exists": ok}
    if ok and callable(obj):
        try:
            s = inspect.signature(obj)
            r["params"] = [[q.name, str(q.kind), q.default is not inspect.Parameter.empty] for q in s.parameters.values()]
        except (TypeError, ValueError):
            pass
    out[d] = r
import numpy
out["@ndarray"] = dir(numpy.ndarray)
print(json.dumps(out))
'''


def library_facts(names):
    """which library names exist and their signatures, from the installed libraries (not from the package under analysis)"""
    if not os.path.exists(PY):
        return {}
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, "-I", "-c", PROBE], input=json.dumps(sorted(names)), capture_output=True, text=True, timeout=120, cwd="/", env=env)
        return json.loads(r.stdout)
    except (subprocess.SubprocessError, ValueError, OSError):
        return {}


# ---------------------------------------------------------------- definite assignment

LIMIT = 48
# functions whose if/elif chains deliberately leave out argument types they do not support
OPEN_CHAINS = {"PyDynamic.model_estimation.fit_transfer.fit_som", "PyDynamic.uncertainty.propagate_filter.FIRuncFilter"}


class Worlds:
    """paths through a function body, told apart by the branch conditions taken"""

    def __init__(self, f, report):
        self.f = f
        self.report = report
        self.locals = local_names(f)
        self.inner = {}

    def run(self):
        w = World(frozenset(self.f.params()), {}, False)
        self.block(self.f.body(), [w], [])

    # a world: (assigned names, facts about conditions, soft) ; soft = the path leaves an if/elif chain without else
    def block(self, body, ws, loop):
        for st in body:
            if not ws:
                return []
            ws = self.stmt(st, ws, loop)
            ws = reduce(ws)
        return ws

    def use(self, node, ws):
        for n in names_read(node):
            if n.id not in self.locals:
                continue
            for w in ws:
                if n.id not in w.a:
                    self.report(n, w, all(n.id not in z.a for z in ws))
                    break

    def assign(self, names, ws):
        out = []
        for w in ws:
            facts = {c: v for c, v in w.f.items() if not (v[1] & names)}
            out.append(World(w.a | names, facts, w.soft))
        return out

    def stmt(self, st, ws, loop):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list + st.args.defaults + [z for z in st.args.kw_defaults if z]:
                self.use(d, ws)
            return self.assign({st.name}, ws)
        if isinstance(st, ast.ClassDef):
            return self.assign({st.name}, ws)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return self.assign({(a.asname or a.name.split(".")[0]) for a in st.names}, ws)
        if isinstance(st, ast.If):
            return self.branch(st, ws, loop, False)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.use(st.iter, ws)
            ws = self.assign(walrus(st.iter), ws)
            counter = loop_counter(st)
            ctx = {"break": [], "continue": []}
            inner = know(self.assign(targets(st.target), ws), counter, "zero")
            end = reduce(self.block(st.body, inner, loop + [ctx]) + ctx["continue"])
            # a later iteration starts where an earlier one ended
            later = {"break": ctx["break"], "continue": []}
            again = know(self.assign(targets(st.target), end), counter, "pos")
            out = end + self.block(st.body, again, loop + [later]) + later["continue"] if again else end
            if st.orelse:
                out = self.block(st.orelse, out or inner, loop)
            return (out + ctx["break"]) or ([] if always_leaves(st.body) else ws)
        if isinstance(st, ast.While):
            self.use(st.test, ws)
            const = isinstance(st.test, ast.Constant) and bool(st.test.value)
            ws = self.assign(walrus(st.test), ws)
            ctx = {"break": [], "continue": []}
            out = []
            cur = ws
            for _ in range(2):
                yes, no = split(st.test, cur)
                if not const:
                    out += [World(w.a, w.f, w.soft) for w in no]
                k = len(ctx["continue"])
                cur = reduce(self.block(st.body, yes, loop + [ctx]) + ctx["continue"][k:])
                if not cur:
                    break
            if not const:
                out += [World(w.a, {}, w.soft) for w in cur]
            if st.orelse:
                out = self.block(st.orelse, out, loop)
            return out + ctx["break"]
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr, ws)
                if i.optional_vars is not None:
                    ws = self.assign(targets(i.optional_vars), ws)
            return self.block(st.body, ws, loop)
        if isinstance(st, (ast.Try,)):
            start = ws
            states = list(ws)
            cur = ws
            for z in st.body:
                if not cur:
                    break
                states = states + cur
                cur = reduce(self.stmt(z, cur, loop))
            after = self.block(st.orelse, cur, loop) if st.orelse else cur
            outs = list(after)
            for h in st.handlers:
                # the exception may come from the first statement of the try body
                hs = self.assign({h.name} if h.name else set(), [World(w.a, {}, w.soft) for w in start])
                outs += self.block(h.body, hs, loop)
            if st.finalbody:
                res = self.block(st.finalbody, reduce(outs) if outs else [World(w.a, {}, w.soft) for w in start], loop)
                return res if outs else []
            return outs
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.use(st.value, ws)
            return []
        if isinstance(st, ast.Raise):
            for z in (st.exc, st.cause):
                if z is not None:
                    self.use(z, ws)
            return []
        if isinstance(st, ast.Break):
            if loop:
                loop[-1]["break"].extend(ws)
            return []
        if isinstance(st, ast.Continue):
            if loop:
                loop[-1]["continue"].extend(ws)
            return []
        if isinstance(st, ast.Assert):
            self.use(st.test, ws)
            return split(st.test, ws)[0]
        if isinstance(st, ast.Assign):
            self.use(st.value, ws)
            for t in st.targets:
                self.use(t, ws)
            names = walrus(st.value)
            for t in st.targets:
                names |= targets(t)
            return remember(self.assign(names, ws), st)
        if isinstance(st, ast.AugAssign):
            self.use(st.value, ws)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.locals:
                    for w in ws:
                        if st.target.id not in w.a:
                            self.report(st.target, w, all(st.target.id not in z.a for z in ws))
                            break
                return self.assign({st.target.id}, ws)
            self.use(st.target, ws)
            return ws
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.use(st.value, ws)
                return self.assign(targets(st.target), ws)
            return ws
        if isinstance(st, ast.Delete):
            out = ws
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out = [World(w.a - {t.id}, w.f, w.soft) for w in out]
                else:
                    self.use(t, ws)
            return out
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            return ws
        if isinstance(st, ast.Expr) and is_exit(st.value):
            return []
        if type(st).__name__ == "Match":
            self.use(st.subject, ws)
            out = []
            for c in st.cases:
                names = {z.name for z in ast.walk(c.pattern) if isinstance(z, (ast.MatchAs, ast.MatchStar)) and z.name}
                out += self.block(c.body, self.assign(names, [World(w.a, {}, w.soft) for w in ws]), loop)
            if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in st.cases):
                out += [World(w.a, w.f, True) for w in ws]
            return out
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.use(c, ws)
                ws = self.assign(walrus(c), ws) if walrus(c) else ws
        return ws

    def branch(self, st, ws, loop, chained):
        self.use(st.test, ws)
        w2 = walrus(st.test)
        if w2:
            ws = self.assign(w2, ws)
        yes, no = split(st.test, ws)
        a = self.block(st.body, yes, loop)
        if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            b = self.branch(st.orelse[0], no, loop, True)
        elif st.orelse:
            b = self.block(st.orelse, no, loop)
        else:
            b = [World(w.a, w.f, w.soft or chained or typetest(st.test)) for w in no]
        return a + b


class World:
    __slots__ = ("a", "f", "soft")

    def __init__(self, a, f, soft):
        self.a, self.f, self.soft = frozenset(a), f, soft


def typetest(t):
    """falling through a lone type test is a matter of the argument types that are allowed"""
    return any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id in ("isinstance", "hasattr", "callable") for z in ast.walk(t))


def is_exit(e):
    return isinstance(e, ast.Call) and ast.unparse(e.func) in ("sys.exit", "exit", "quit", "os._exit")


def always_leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def reduce(ws):
    seen, out = set(), []
    for w in ws:
        k = (w.a, frozenset((c, repr(v[0])) for c, v in w.f.items()), w.soft)
        if k not in seen:
            seen.add(k)
            out.append(w)
    if len(out) > LIMIT:
        # same assignments: keep the common facts
        by = {}
        for w in out:
            by.setdefault((w.a, w.soft), []).append(w)
        out = []
        for (a, soft), g in by.items():
            f = dict(g[0].f)
            for w in g[1:]:
                f = {c: v for c, v in f.items() if w.f.get(c, (None,))[0] == v[0]}
            out.append(World(a, f, soft))
    return out


OPS = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}


def norm(t):
    """(text, positive)"""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        neg, t = not neg, t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        o = type(t.ops[0])
        l, r = t.left, t.comparators[0]
        if o in OPS:
            neg = not neg
            o = OPS[o]
        lt, rt = ast.unparse(l), ast.unparse(r)
        if o in (ast.Eq,):
            lc, rc = isinstance(l, ast.Constant), isinstance(r, ast.Constant)
            if (lc and not rc) or (lc == rc and rt < lt):
                lt, rt = rt, lt
        return "%s %s %s" % (lt, o.__name__, rt), not neg
    return ast.unparse(t), not neg


def cond_names(t):
    return {z.id for z in ast.walk(t) if isinstance(z, ast.Name)}


def split(test, ws):
    """worlds where the test holds, worlds where it fails"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        a, b = split(test.operand, ws)
        return b, a
    if isinstance(test, ast.BoolOp):
        cur, done = ws, []
        for v in test.values:
            y, n = split(v, cur)
            if isinstance(test.op, ast.And):
                done += n
                cur = y
            else:
                done += y
                cur = n
        return (reduce(cur), reduce(done)) if isinstance(test.op, ast.And) else (reduce(done), reduce(cur))
    if isinstance(test, ast.Constant):
        return (ws, []) if test.value else ([], ws)
    c, pos = norm(test)
    names = cond_names(test)
    yes, no = [], []
    for w in ws:
        k = w.f.get(c)
        alias = w.f.get("=" + c) if k is None else None
        if alias is not None:
            # flag = <condition>
            cc, cp = alias[0]
            kk = w.f.get(cc)
            val = None if kk is None else ((kk[0] == cp) == pos)
            for truth, dest in ((True, yes), (False, no)):
                if val is None or val == truth:
                    f = dict(w.f)
                    f[c] = (truth == pos, names)
                    f[cc] = ((truth == pos) == cp, alias[1])
                    dest.append(World(w.a, f, w.soft))
            continue
        val = None if k is None else (k[0] == pos)
        if val is None:
            val = implied(test, pos, w)
        if val is not False:
            f = dict(w.f)
            f[c] = (pos, names)
            yes.append(World(w.a, f, w.soft))
        if val is not True:
            f = dict(w.f)
            f[c] = (not pos, names)
            no.append(World(w.a, f, w.soft))
    return yes, no


def loop_counter(st):
    """the name that is 0 in the first iteration and positive afterwards"""
    it, t = st.iter, st.target
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == "range" and isinstance(t, ast.Name):
            if len(it.args) == 1 or (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0 and (
                    len(it.args) < 3 or (isinstance(it.args[2], ast.Constant) and it.args[2].value > 0))):
                return t.id
        if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name) and len(it.args) == 1 and not it.keywords:
            return t.elts[0].id
    return None


def know(ws, name, what):
    if name is None:
        return ws
    out = []
    for w in ws:
        f = dict(w.f)
        f["#" + name] = (what, {name})
        out.append(World(w.a, f, w.soft))
    return out


def remember(ws, st):
    """x = True, x = None, x = 'text', x = 0"""
    if len(st.targets) != 1 or not isinstance(st.targets[0], ast.Name):
        return ws
    x, v = st.targets[0].id, st.value
    out = []
    for w in ws:
        f = dict(w.f)
        if isinstance(v, ast.Constant):
            f["#" + x] = (("const", v.value), {x})
        elif not isinstance(v, (ast.Call, ast.Name, ast.Attribute, ast.Subscript, ast.IfExp, ast.BoolOp, ast.Compare, ast.Await)):
            f[x + " Is None"] = (False, {x})
        elif isinstance(v, (ast.Compare, ast.Name)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
            # flag = <condition>: the flag stands for the condition
            c, pos = norm(v)
            k = w.f.get(c)
            if k is not None and x not in cond_names(v):
                f[x] = (k[0] == pos, {x} | k[1])
            elif x not in cond_names(v):
                f["=" + x] = ((c, pos), {x} | cond_names(v))
        out.append(World(w.a, f, w.soft))
    return out


def value_of(w, e):
    if isinstance(e, ast.Name):
        k = w.f.get("#" + e.id)
        return None if k is None else k[0]
    return None


def compare_known(test, w):
    """the value of a test of a name whose value (or sign) is known"""
    if isinstance(test, ast.Name):
        v = value_of(w, test)
        if v == "zero":
            return False
        if v == "pos":
            return True
        return None if v is None else bool(v[1])
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, r, o = test.left, test.comparators[0], type(test.ops[0])
    if isinstance(l, ast.Constant) and isinstance(r, ast.Name):
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        l, r, o = r, l, flip.get(o, o)
    if not (isinstance(l, ast.Name) and isinstance(r, ast.Constant)):
        return None
    v = value_of(w, l)
    if v is None:
        return None
    c = r.value
    if v == "pos":
        if not isinstance(c, int) or isinstance(c, bool):
            return {ast.Is: False, ast.IsNot: True}.get(o) if c is None else None
        if c < 1:
            return {ast.Eq: False, ast.NotEq: True, ast.Gt: True, ast.Lt: False, ast.GtE: True, ast.LtE: False}.get(o)
        if c == 1:
            return {ast.GtE: True, ast.Lt: False}.get(o)
        return None
    x = 0 if v == "zero" else v[1]
    try:
        return {ast.Eq: lambda: x == c, ast.NotEq: lambda: x != c, ast.Is: lambda: x is c, ast.IsNot: lambda: x is not c, ast.Lt: lambda: x < c, ast.Gt: lambda: x > c,
                ast.LtE: lambda: x <= c, ast.GtE: lambda: x >= c}[o]()
    except (KeyError, TypeError):
        return None


def implied(test, pos, w):
    """x == 'a' when x == 'b' is known; isinstance(x, T) when x is None is known, and the like"""
    v = compare_known(test, w)
    if v is not None:
        return v
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.NotEq)) and isinstance(test.comparators[0], ast.Constant):
        x = ast.unparse(test.left)
        for c, v in w.f.items():
            if v[0] and c.startswith(x + " Eq ") and c != norm(test)[0]:
                return isinstance(test.ops[0], ast.NotEq)
            if v[0] and c.startswith(x + " Is None"):
                return isinstance(test.ops[0], ast.NotEq)
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
        x = ast.unparse(test.args[0])
        k = w.f.get(x + " Is None")
        if k and k[0]:
            return False
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isinstance(test.comparators[0], ast.Constant) \
            and test.comparators[0].value is None:
        x = ast.unparse(test.left)
        for c, v in w.f.items():
            if v[0] and (c.startswith("isinstance(%s," % x) or (c.startswith(x + " Eq ") and not c.endswith(" None"))):
                return isinstance(test.ops[0], ast.IsNot)
    return None


def targets(t):
    return {z.id for z in ast.walk(t) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}


def walrus(e):
    return {z.target.id for z in ast.walk(e) if isinstance(z, ast.NamedExpr)} if e is not None else set()


def names_read(node):
    """names read when the expression is evaluated (not inside lambdas or comprehension scopes)"""
    stack = [(node, frozenset())]
    while stack:
        n, hide = stack.pop()
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [z for z in n.args.kw_defaults if z]:
                stack.append((d, hide))
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(hide)
            for g in n.generators:
                stack.append((g.iter, frozenset(h)))
                h |= targets(g.target)
                for c in g.ifs:
                    stack.append((c, frozenset(h)))
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                stack.append((e, frozenset(h)))
            continue
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in hide:
                yield n
            continue
        for c in ast.iter_child_nodes(n):
            stack.append((c, hide))


def local_names(f):
    out, glob = set(f.params()), set()
    stack = list(f.body())
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for z in ast.walk(n):
                if isinstance(z, ast.NamedExpr):
                    out.add(z.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if type(n).__name__ in ("MatchAs", "MatchStar") and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


# ---------------------------------------------------------------- signatures

def bind_error(args, node, skip_self):
    """why the call does not match the signature, or None"""
    ps = [x.arg for x in args.posonlyargs + args.args]
    if skip_self:
        ps = ps[1:]
    nodef = len(args.posonlyargs + args.args) - len(args.defaults)
    req = [x.arg for x in (args.posonlyargs + args.args)[:nodef]]
    if skip_self:
        req = req[1:]
    kwreq = [x.arg for x, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
    star = any(isinstance(a, ast.Starred) for a in node.args)
    dstar = any(k.arg is None for k in node.keywords)
    npos = len([a for a in node.args if not isinstance(a, ast.Starred)])
    if npos > len(ps) and args.vararg is None:
        return "%d positional arguments for %d parameters" % (npos, len(ps))
    given = set(ps[:npos])
    allk = set(ps) | {x.arg for x in args.kwonlyargs}
    po = {x.arg for x in args.posonlyargs}
    for k in node.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return "parameter %s given twice" % k.arg
        if (k.arg not in allk or k.arg in po) and args.kwarg is None:
            return "no parameter %s" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        for r in req + kwreq:
            if r not in given:
                return "required parameter %s missing" % r
    return None


def lib_bind_error(params, node):
    names = [p[0] for p in params if p[1] in ("POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY", "positional or keyword", "keyword-only")]
    kinds = {p[1] for p in params}
    if "VAR_KEYWORD" in kinds or "variadic keyword" in kinds:
        return None
    for k in node.keywords:
        if k.arg is not None and k.arg not in names:
            return "no parameter %s" % k.arg
    pos = [p for p in params if p[1] in ("POSITIONAL_OR_KEYWORD", "POSITIONAL_ONLY", "positional or keyword", "positional-only")]
    if not any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords):
        if len(node.args) > len(pos) and not kinds & {"VAR_POSITIONAL", "variadic positional"}:
            return "%d positional arguments for %d parameters" % (len(node.args), len(pos))
        given = {p[0] for p in pos[:len(node.args)]} | {k.arg for k in node.keywords}
        for p in params:
            if not p[2] and p[0] not in given and p[1] not in ("VAR_POSITIONAL", "VAR_KEYWORD", "variadic positional", "variadic keyword"):
                return "required parameter %s missing" % p[0]
    return None


# ---------------------------------------------------------------- the check

def c22(project, tier):
    an = analysis(project)
    N = an.N
    R = Report()
    R.rule = ("every entry of __all__, every import inside the package and every documented function name resolves; every name read in a function is a parameter, a local that is "
              "assigned on every path (branch conditions correlated), an enclosing or module-level name or a builtin; every call of a package function or library function "
              "matches its signature; every attribute of self is assigned in the class")
    base = json.load(open(os.path.join(HERE, "public.json")))

    def seen_viol(key, where, msg):
        if key not in keys:
            keys.add(key)
            R.viol(key, where, msg)
    keys = set()

    def exists(mod, name):
        return name in N.p.mods[mod].defs or name in N.globals[mod] or name in N.imports[mod] or (mod + "." + name) in N.p.mods
    # ---- exports
    for mod, m in N.p.mods.items():
        if mod == "pdaspec":
            continue
        for n in N.all_list(mod) or []:
            R.obligations += 1
            R.decided += 1
            if not exists(mod, n):
                seen_viol("%s|__all__|%s" % (mod, n), m.rel, "%s is listed in __all__ of %s but not defined there" % (n, mod))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                b = N.p.resolve_from(m, n)
                if b and b.split(".")[0] == N.p_pkg():
                    for a in n.names:
                        R.obligations += 1
                        R.decided += 1
                        if b not in N.p.mods:
                            seen_viol("%s|import|%s" % (mod, b), "%s:%d" % (m.rel, n.lineno), "import from %s, which does not exist" % b)
                        elif a.name != "*" and not exists(b, a.name):
                            seen_viol("%s|import|%s.%s" % (mod, b, a.name), "%s:%d" % (m.rel, n.lineno), "%s does not define %s" % (b, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == N.p_pkg() and a.name not in N.p.mods:
                        seen_viol("%s|import|%s" % (mod, a.name), "%s:%d" % (m.rel, n.lineno), "module %s does not exist" % a.name)
    for full in base:
        R.obligations += 1
        R.decided += 1
        mod, _, name = full.rpartition(".")
        if mod not in N.p.mods:
            seen_viol("public|" + full, mod, "module %s of the documented function %s does not exist" % (mod, full))
        elif not exists(mod, name):
            seen_viol("public|" + full, N.p.mods[mod].rel, "documented function %s does not exist" % full)
    for mod, m in N.p.mods.items():
        doc = ast.get_docstring(m.tree) or ""
        for hit in re.finditer(r"^\s*\*\s*:(?:func|class):`~?([\w.]+)`\s*:", doc, re.M):
            n = hit.group(1)
            R.obligations += 1
            R.decided += 1
            tail = n.split(".")[-1]
            if "." in n and n.startswith(N.p_pkg()):
                mm, _, nn = n.rpartition(".")
                ok = mm in N.p.mods and exists(mm, nn)
            else:
                ok = exists(mod, tail)
            if not ok:
                seen_viol("%s|doc|%s" % (mod, n), m.rel, "the documentation of %s lists %s, which does not exist" % (mod, n))
    # ---- names
    ext = set()
    calls = []
    for m, name, body, f in scopes(an):
        if m.name == "pdaspec":
            continue
        R.functions.add(name)
        R.obligations += 1
        R.decided += 1
        scope = visible(N, m, f)
        for n in walk_scope(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id not in scope and n.id not in BUILTINS and not comp_bound(n) and not lambda_bound(n) and not class_bound(n):
                    seen_viol("%s|name|%s" % (name, n.id), "%s:%d" % (m.rel, n.lineno), "name %s used in %s is not defined anywhere" % (n.id, name))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(getattr(n, "_parent", None), ast.Attribute)):
                if shadowed(n, f):
                    continue
                d = N.dotted(m, n)
                if d is None:
                    continue
                if d.startswith(N.p_pkg() + "."):
                    check_pkg_attr(N, d, n, m, name, seen_viol)
                else:
                    ext.add(d)
            if isinstance(n, ast.Call):
                calls.append((m, name, f, n))
    for mod, imp in N.imports.items():
        if mod == "pdaspec":
            continue
        for nme, d in imp.items():
            if not d.startswith(N.p_pkg()):
                ext.add(d)
    # ---- definite assignment
    for full, f in sorted(N.fns.items()):
        if f.mod.name == "pdaspec" or isinstance(f.node, ast.Lambda):
            continue
        R.obligations += 1
        R.decided += 1

        def rep(n, w, everywhere, f=f):
            k = "%s|unassigned|%s" % (f.full, n.id)
            if w.soft and not everywhere and (f.full in OPEN_CHAINS or f.full not in base):
                R.undecided.append("%s: %s may be unassigned when no branch of an if/elif chain applies" % (f.loc(n), n.id))
                return
            conds = ["%s%s" % ("" if v[0] else "not ", c) for c, v in list(w.f.items())[:6] if c[0] not in "#="]
            seen_viol(k, f.loc(n), "%s is read in %s but not assigned %s" % (n.id, f.full, "on any path" if everywhere else "on the path where %s" % "; ".join(conds)))
        Worlds(f, rep).run()
    # ---- attributes of self
    for c, (m, node) in N.classes.items():
        if m.name == "pdaspec":
            continue
        have = {z.attr for z in ast.walk(node) if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) and isinstance(z.value, ast.Name) and z.value.id in ("self", "cls")}
        for z in node.body:
            if isinstance(z, (ast.FunctionDef, ast.ClassDef)):
                have.add(z.name)
            elif isinstance(z, (ast.Assign, ast.AnnAssign)):
                for t in (z.targets if isinstance(z, ast.Assign) else [z.target]):
                    have |= targets(t)
        bases = [N.dotted(m, b) or ast.unparse(b) for b in node.bases]
        foreign = [b for b in bases if b not in N.classes and b != "object"]
        todo = [b for b in bases if b in N.classes]
        while todo:
            b = todo.pop()
            bn = N.classes[b][1]
            have |= {z.attr for z in ast.walk(bn) if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store)}
            have |= {z.name for z in bn.body if isinstance(z, ast.FunctionDef)}
            todo += [d for d in (N.dotted(N.classes[b][0], q) for q in bn.bases) if d in N.classes]
        if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "setattr" for z in ast.walk(node)) or any(
                isinstance(z, ast.FunctionDef) and z.name in ("__getattr__", "__getattribute__") for z in node.body):
            continue
        for z in ast.walk(node):
            if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Load) and isinstance(z.value, ast.Name) and z.value.id == "self":
                R.obligations += 1
                if z.attr in have or z.attr.startswith("__"):
                    R.decided += 1
                elif foreign:
                    if "scipy.stats.rv_continuous" in foreign or True:
                        ext_attr = z.attr
                        R.undecided.append("%s.%s may come from %s" % (c, ext_attr, foreign))
                else:
                    R.decided += 1
                    seen_viol("%s|self.%s" % (c, z.attr), "%s:%d" % (m.rel, z.lineno), "self.%s is read in class %s but never assigned" % (z.attr, c))
    # ---- library facts
    facts = library_facts(ext)
    for d in sorted(ext):
        r = facts.get(d)
        R.obligations += 1
        if not r or not r.get("root"):
            R.undecided.append("library name %s: no facts" % d)
            continue
        R.decided += 1
        if not r["exists"]:
            seen_viol("library|" + d, "PyDynamic", "%s does not exist in the installed library (used in %s)" % (d, ", ".join(users(N, an, d))))
    # ---- signatures
    for m, name, f, n in calls:
        if shadowed(n.func, f):
            t = local_def(N, f, n.func)
            if t is not None:
                R.obligations += 1
                R.decided += 1
                e = bind_error(t.args, n, False)
                if e:
                    seen_viol("%s|call|%s" % (name, t.full), "%s:%d" % (m.rel, n.lineno), "call of %s in %s does not match its signature: %s" % (t.name, name, e))
            continue
        tgt, skip = None, False
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f is not None and owner_class(f):
            g = N.method(owner_class(f), n.func.attr)
            if g is not None:
                tgt, skip = g, not g.is_static()
        if tgt is None:
            d = N.dotted(m, n.func)
            if d is None:
                continue
            if d in N.fns:
                tgt = N.fns[d]
                skip = False
            elif d in N.classes:
                tgt = N.method(d, "__init__")
                skip = True
                if tgt is None:
                    continue
            elif d == "functools.partial" and n.args and not shadowed(n.args[0], f):
                dd = N.dotted(m, n.args[0])
                if dd in N.fns:
                    R.obligations += 1
                    R.decided += 1
                    g = N.fns[dd]
                    allk = set(g.params())
                    if g.args.kwarg is None:
                        for k in n.keywords:
                            if k.arg and k.arg not in allk:
                                seen_viol("%s|partial|%s" % (name, dd), "%s:%d" % (m.rel, n.lineno), "functools.partial binds %s, which %s does not have" % (k.arg, dd))
                continue
            else:
                r = facts.get(d)
                if r and r.get("params") is not None:
                    R.obligations += 1
                    R.decided += 1
                    e = lib_bind_error(r["params"], n)
                    if e:
                        seen_viol("%s|libcall|%s" % (name, d), "%s:%d" % (m.rel, n.lineno), "call of %s in %s does not match its signature: %s" % (d, name, e))
                continue
        R.obligations += 1
        R.decided += 1
        e = bind_error(tgt.args, n, skip)
        if e:
            seen_viol("%s|call|%s" % (name, tgt.full), "%s:%d" % (m.rel, n.lineno), "call of %s in %s does not match its signature: %s" % (tgt.full, name, e))
    R.samples = [{"scope": s[1]} for s in scopes(an)][:200]
    R.extra.update(library_names=len(ext), library_facts=len(facts), calls=len(calls))
    R.floor = 300
    return R


def users(N, an, d):
    out = set()
    for m, name, body, f in scopes(an):
        for n in walk_scope(body):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and N.dotted(m, n) == d:
                out.add("%s:%d" % (m.rel, n.lineno))
        for nme, t in N.imports[m.name].items():
            if t == d:
                out.add(m.rel)
    return sorted(out)[:3]


def visible(N, m, f):
    s = set(m.defs) | set(N.globals[m.name]) | set(N.imports[m.name])
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            s |= set(n.names)
    for n in N._toplevel(m.tree.body):
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
    while f is not None:
        s |= local_names(f)
        f = f.outer
    return s


def comp_bound(n):
    x = n
    while hasattr(x, "_parent"):
        x = x._parent
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in x.generators:
                if n.id in targets(g.target):
                    return True
        if isinstance(x, (ast.FunctionDef, ast.Module)):
            return False
    return False


def lambda_bound(n):
    x = n
    while hasattr(x, "_parent"):
        x = x._parent
        if isinstance(x, ast.Lambda):
            a = x.args
            if n.id in {z.arg for z in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set()):
                return True
        if isinstance(x, ast.Module):
            return False
    return False


def class_bound(n):
    x = n
    while hasattr(x, "_parent"):
        y, x = x, x._parent
        if isinstance(x, ast.ClassDef):
            for z in x.body:
                if isinstance(z, (ast.FunctionDef, ast.ClassDef)) and z.name == n.id:
                    return True
                if isinstance(z, (ast.Assign, ast.AnnAssign)):
                    for t in (z.targets if isinstance(z, ast.Assign) else [z.target]):
                        if n.id in targets(t):
                            return True
            return False
        if isinstance(x, (ast.FunctionDef,)) and y not in x.decorator_list and y is not x.args and not isinstance(y, ast.arguments):
            return False
    return False


def shadowed(n, f):
    while isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
        n = n.value if not isinstance(n, ast.Call) else n.func
    if not isinstance(n, ast.Name):
        return True
    if comp_bound(n) or lambda_bound(n):
        return True
    while f is not None:
        loc = local_names(f)
        if n.id in loc and n.id not in imported_in(f):
            return True
        f = f.outer
    return False


def imported_in(f):
    out = set()
    for z in walk_scope(f.body()):
        if isinstance(z, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in z.names}
    return out


def local_def(N, f, func):
    if not isinstance(func, ast.Name):
        return None
    up = f
    while up is not None:
        c = [g for g in N.fns.values() if g.outer is up and g.name == func.id]
        if len(c) == 1:
            # rebound elsewhere in the same function?
            stores = [z for z in walk_scope(up.body()) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and z.id == func.id]
            if len(stores) <= (1 if isinstance(c[0].node, ast.Lambda) else 0):
                return c[0]
            return None
        up = up.outer
    return None


def check_pkg_attr(N, d, n, m, name, viol):
    parts = d.split(".")
    for k in range(len(parts), 0, -1):
        base = ".".join(parts[:k])
        if base in N.p.mods:
            if k < len(parts):
                nm = parts[k]
                if not (nm in N.p.mods[base].defs or nm in N.globals[base] or nm in N.imports[base] or nm in ("__all__", "__doc__", "__file__", "__name__", "__version__")):
                    viol("%s|attr|%s" % (name, d), "%s:%d" % (m.rel, n.lineno), "%s is used in %s but module %s does not define %s" % (d, name, base, nm))
            return
