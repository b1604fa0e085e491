"""Case tables: abstract call contexts of documented functions, and the specification each result is compared with."""
import ast
import os
import time
import traceback
from . import expr as X
from . import dom as D
from . import absint, npmodel, npfuncs, compare
from .dom import Arr, Num, Seq, Str, NONE, Model, Opaque, num, pyint, PyRaise, Top
from .expr import Undecided, NeedSplit, atom_expr, const, lift, ZERO, ONE
from .project import Mod, AnchorMissing

HERE = os.path.dirname(os.path.abspath(__file__))
U = "PyDynamic.uncertainty."
DFT, FILT, CONV, INTP, MCM = U + "propagate_DFT", U + "propagate_filter", U + "propagate_convolution", U + "interpolate", U + "propagate_MonteCarlo"
FIT, FTR = "PyDynamic.model_estimation.fit_filter", "PyDynamic.model_estimation.fit_transfer"
MISC = "PyDynamic.misc."
FSTUFF, TOOLS, NOISE, TSIG, SOS = MISC + "filterstuff", MISC + "tools", MISC + "noise", MISC + "testsignals", MISC + "SecondOrderSystem"
SIG = "PyDynamic.signals"


def _und(why):
    raise Undecided(why)


def _cases_by_index(rows, i):
    r = ZERO
    for k, v in enumerate(rows):
        if v:
            r = r + D.mk_eq0(i - k) * const(v)
    return r


class Builder:
    """inputs of one case; arrays of the same name share the same symbolic elements"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.tok = {}

    def dim(self, name, lo=2):
        a = X.sym(name, integer=True, sign=2)
        self.ctx.dimmin[a] = max(lo, self.ctx.dimmin.get(a, lo))
        return atom_expr(a)

    def _tok(self, name, **kw):
        if name not in self.tok:
            self.tok[name] = X.Token(name, **kw)
        return self.tok[name]

    def vec(self, name, n, kind="f", sign=0):
        t = self._tok(name, real=kind != "c", sign=sign, integer=kind == "i")
        return Arr((lift(n),), lambda i: X.elem(t, *i), kind)

    def mat(self, name, n, m, kind="f"):
        t = self._tok(name, real=kind != "c", integer=kind == "i")
        return Arr((lift(n), lift(m)), lambda i: X.elem(t, *i), kind)

    def arr3(self, name, *sh, kind="f"):
        t = self._tok(name, real=kind != "c", integer=kind == "i")
        return Arr(tuple(lift(s) for s in sh), lambda i: X.elem(t, *i), kind)

    def cov(self, name, n, kind="f"):
        """covariance matrix: symmetric, non-negative diagonal"""
        t = self._tok("cov" + name, sym=[(0, 1)], integer=kind == "i")
        return Arr((lift(n), lift(n)), lambda i: X.elem(t, *i), kind)

    def pos(self, name, n, kind="f"):
        return self.vec(name, n, kind, sign=2)

    def nonneg(self, name, n, kind="f"):
        return self.vec(name, n, kind, sign=1)

    def dia(self, name, n, kind="f"):
        """sparse matrix of size 2n with the diagonals 0, n, -n (same values above and below)"""
        n = lift(n)
        m, o = self.nonneg("dm" + name, 2 * n, kind), self.vec("do" + name, n, kind)
        return npfuncs.make_dia(None, [m, o, o], [ZERO, n, -n], (2 * n, 2 * n))

    def diafull(self, name, n, kind="f"):
        """the same matrix in dense form"""
        a = self.dia(name, n, kind)
        return Arr(a.shape, a.snap(), kind)

    def carr(self, rows, kind="i"):
        """array with given constant entries"""
        if isinstance(rows[0], (list, tuple)):
            def f(i):
                a, c = i[0].cval(), i[1].cval()
                if a is None or c is None:
                    return X.table2(rows, i) if hasattr(X, "table2") else _und("symbolic index into constant array")
                return const(rows[int(a)][int(c)])
            return Arr((const(len(rows)), const(len(rows[0]))), f, kind)

        def g(i):
            a = D.ctx().resolve(i[0]).cval()
            if a is None:
                return _cases_by_index(rows, i[0])
            return const(rows[int(a)])
        return Arr((const(len(rows)),), g, kind)

    def earr(self, rows, kind="f"):
        """array with given elements"""
        rows = [lift(r) for r in rows]
        return Arr((const(len(rows)),), lambda i: D.select(i[0], rows), kind)

    def sym(self, name, kind="f", sign=2):
        return atom_expr(X.sym(name, integer=kind == "i", sign=sign, real=True))

    def num(self, name, kind="f", sign=0):
        a = X.sym(name, integer=kind == "i", sign=sign, real=kind != "c")
        return Num(atom_expr(a), kind)

    def int(self, e):
        return Num(lift(e), "i")

    def flt(self, x):
        return Num(X.fconst(x), "f")

    def fn(self, name, real=True):
        """uninterpreted function of arrays/numbers"""
        def f(I, a, k):
            args = list(a) + [v for _, v in sorted(k.items())]
            sh = [z.shape for z in args if isinstance(z, Arr)]
            r = npmodel.opaque(I, "user:" + name, args, sh[0] if sh else (), "f" if real else "c")
            return r
        return Model(f, name)


TRUE, FALSE = Num(ONE, "b"), Num(ZERO, "b")


def S(s):
    return Str(s)


def tup(*a):
    return Seq(list(a), True)


def lst(*a):
    return Seq(list(a), False)


class Case:
    def __init__(self, props, mod, func, name, mk, spec=None, raises=None, shape_only=False, method=None, after=None, **opt):
        self.props, self.mod, self.func, self.name, self.mk, self.spec = props.split(), mod, func, name, mk, spec
        self.raises, self.shape_only, self.method, self.after, self.opt = raises, shape_only, method, after, opt

    @property
    def id(self):
        return "%s:%s" % (self.func, self.name)


CASES = []


def case(props, mod, func, name, spec=None, **kw):
    def deco(mk):
        CASES.append(Case(props, mod, func, name, mk, spec, **kw))
        return mk
    return deco


# ---------------------------------------------------------------- specification language

def _e(v):
    if isinstance(v, Num):
        return v.e
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at()
    raise Undecided("number expected in specification, got %r" % (v,))


def _arr(I, a, k):
    sh, f = a
    shape = tuple(_e(s) for s in (sh.items if isinstance(sh, Seq) else [sh]))
    kind = k["kind"].s if "kind" in k else "f"

    def fn(idx):
        return _e(I.call(f, [Num(i, "i") for i in idx], {}))
    return Arr(shape, fn, kind)


def _sum(I, a, k):
    lo, hi, f = a
    return num(D.asum(_e(lo), _e(hi), lambda v: _e(I.call(f, [Num(lift(v) if not isinstance(v, X.Atom) else atom_expr(v), "i")], {}))), "f")


def _diff(I, a, k):
    """partial derivative of a scalar with respect to one concrete array element or symbol"""
    y, x = a
    ex = _e(x)
    (m,), = [list(ex.t)]
    (aid, p), = m
    return num(X.diff(_e(y), X.byid(aid)), "f")


def _delta(I, a, k):
    return num(D.mk_eq0(_e(a[0]) - (_e(a[1]) if len(a) > 1 else ZERO)), "i")


def _cos(I, a, k):
    return num(X.cos(_e(a[0])), "f")


def _sin(I, a, k):
    return num(X.sin(_e(a[0])), "f")


def _sq(I, a, k):
    return num(X.sqrt(_e(a[0])), "f")


def _expj(I, a, k):
    return num(X.expi(_e(a[0])), "c")


def _atan2(I, a, k):
    return num(X.atan2(_e(a[0]), _e(a[1])), "f")


def _re(I, a, k):
    return num(X.real(_e(a[0])), "f")


def _im(I, a, k):
    return num(X.imag(_e(a[0])), "f")


def _oneof(I, a, k):
    return Opaque("oneof", alts=list(a))


def _ones(I, a, k):
    return Str("_")


def _take(I, a, k):
    """rows (and columns) of an array at constant positions; third argument: the diagonal only"""
    v, pos = a[0], [int(_e(z).cval()) for z in a[1].items]
    if len(a) > 2:
        return Seq([num(v.at(const(p), const(p)), "f") for p in pos], False)

    def f(idx):
        return v.at(*[const(pos[D.pick(z, len(pos))]) for z in idx])
    return Arr(tuple(const(len(pos)) for _ in v.shape), f, v.kind)


def _absv(I, a, k):
    return num(X.absval(_e(a[0])), "f")


SPEC_ENV = {"ABS": _absv, "TAKE": _take, "ONEOF": _oneof, "ARR": _arr, "SUM": _sum, "DIFF": _diff, "DELTA": _delta, "COS": _cos, "SIN": _sin, "SQRT": _sq, "EXPJ": _expj,
            "ATAN2": _atan2, "RE": _re, "IM": _im}


_spec_mod = None


def spec_module(project):
    global _spec_mod
    if "pdaspec" not in project.mods:
        src = ""
        d = os.path.join(HERE, "specs")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                src += open(os.path.join(d, f)).read() + "\n"
        tree = ast.parse(src)
        defs = [z.name for z in tree.body if isinstance(z, ast.FunctionDef)]
        twice = {z for z in defs if defs.count(z) > 1}
        if twice:
            raise RuntimeError("required values defined twice: %s" % twice)
        m = Mod("pdaspec", os.path.join(d, "specs.py"), tree, src)
        project.mods["pdaspec"] = m
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
    return project.mods["pdaspec"]


def spec_env(I):
    env = I.module_env("pdaspec")
    if "ARR" not in env.vars:
        for k, f in SPEC_ENV.items():
            env.vars[k] = Model(f, k)
        env.vars["PI"] = Num(atom_expr(X.PI), "f")
        env.vars["J"] = Num(atom_expr(X.I), "c")
    return env


class Result:
    def __init__(self, case):
        self.case = case
        self.status = None        # ok / violation / undecided / raised
        self.value = None
        self.events = []
        self.fallbacks = []
        self.funcs = set()
        self.outcome = compare.Outcome()
        self.raised = None
        self.ctx = None
        self.wall = 0
        self.why = ""
        self.where = ""
        self.spec_value = None
        self.args_after = None
        self.visited = None
        self.key = case.id


def run_case(project, c, with_spec=True):
    t = time.time()
    R = Result(c)
    X.reset() if False else None
    I = absint.Interp(project)
    spec_module(project)
    ctx = D.Ctx()
    D.set_ctx(ctx)
    R.ctx = ctx
    b = Builder(ctx)
    try:
        f = I.function(c.mod, c.func.split(".")[0])
        node = getattr(f, "node", None)
        if node is not None and hasattr(f, "mod"):
            R.where = "%s:%d" % (f.mod.rel, node.lineno)
        if c.mod == "pdaspec":
            spec_env(I)
            m = project.mods.get(c.opt["where"][0])
            q = c.opt["where"][1].split(".")
            node = m.tree if m else None
            for part in q:
                node = next((z for z in (node.body if node else []) if isinstance(z, (ast.ClassDef, ast.FunctionDef)) and z.name == part), None)
            if node is None:
                raise AnchorMissing("%s.%s" % c.opt["where"])
            R.where = "%s:%d" % (m.rel, node.lineno)
        args, kw = c.mk(b)
        try:
            if "." in c.func:
                # method: construct with c.opt['init'] then call
                ia, ik = c.opt["init"](b)
                inst = I.call(f, ia, ik)
                mnode = absint.find_method(f, c.func.split(".")[1], I)
                if mnode is None:
                    raise AnchorMissing("method %s not found" % c.func)
                R.where = "%s:%d" % (mnode.mod.rel, mnode.node.lineno)
                R.value = I.call_user(mnode, [inst] + list(args), kw)
                if c.opt.get("self"):
                    R.value = D.Dct(dict(inst.attrs))
            else:
                R.value = I.call(f, args, kw)
                if c.opt.get("self"):
                    R.value = D.Dct(dict(R.value.attrs))
            if c.after:
                R.value = c.after(I, b, R.value, I.events)
        except PyRaise as e:
            R.raised = (e.etype, e)
        if c.raises:
            if R.raised:
                R.status = "ok" if (c.raises == "*" or R.raised[0] in c.raises.split("|")) else "violation"
                if R.status == "violation":
                    R.why = "raises %s where %s is documented" % (R.raised[0], c.raises)
            elif I.fallbacks or isinstance(R.value, Top):
                R.status = "undecided"
                R.why = str(I.fallbacks[:2])
            else:
                R.status = "violation"
                R.why = "accepted; %s required" % c.raises
        elif R.raised:
            R.status = "raised"
            R.why = "raises %s at %s" % (R.raised[0], getattr(R.raised[1], "where", "?"))
        elif c.spec and with_spec:
            spec_env(I)
            n_ev = len(I.events)
            I.draws, I.loops = {}, []
            sf = I.function("pdaspec", c.spec)
            args2, kw2 = (c.opt["specargs"](b) if "specargs" in c.opt else c.mk(b))
            sv = I.call(sf, args2, kw2)
            R.spec_value = sv
            compare.compare(R.value, sv, ctx, "result", R.outcome, None, c.shape_only)
            R.status = "violation" if R.outcome.diffs else ("undecided" if R.outcome.undecided else "ok")
            if R.status == "violation" and c.opt.get("known") and not c.shape_only:
                # a recorded deviation: only a result that is exactly the recorded one is the known finding
                o = compare.Outcome()
                I.draws, I.loops = {}, []
                args3, kw3 = (c.opt["specargs"](b) if "specargs" in c.opt else c.mk(b))
                compare.compare(R.value, I.call(I.function("pdaspec", c.opt["known"]), args3, kw3), ctx, "result", o)
                if not o.diffs and not o.undecided:
                    R.key = "%s/%s" % (c.id, c.opt["known"])
            del I.events[n_ev:]
        else:
            R.status = "ok"
        if R.status in ("raised", "violation") and I.stats["fallback"]:
            # part of the code was not understood: what follows from it is not certain
            R.status, R.why = "undecided", "not understood: %s (%s)" % (I.fallbacks[:2], R.why or [repr(d) for d in R.outcome.diffs[:1]])
    except AnchorMissing:
        raise
    except (Undecided, NeedSplit) as e:
        if absint.DEBUG:
            traceback.print_exc(limit=-6)
        R.status = "undecided"
        R.why = "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        R.status, R.why = "undecided", "recursion"
    except Exception as e:  # internal limitation of the model
        if absint.DEBUG:
            traceback.print_exc(limit=-6)
        R.status = "undecided"
        R.why = "internal: %s: %s" % (type(e).__name__, e)
    R.events = I.events
    R.fallbacks = I.fallbacks
    R.funcs = set(q for q in I.funcs if q[0] != "pdaspec")
    R.stats = I.stats
    R.visited = getattr(I, "visited", None)
    R.wall = time.time() - t
    return R


from . import tables  # noqa: E402,F401
