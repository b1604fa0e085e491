"""Models of numpy / scipy / builtin functions used by the analysed package."""
from fractions import Fraction
import itertools
import math
from . import expr as X
from .expr import Expr, Undecided, const, lift, ZERO, ONE, atom_expr
from . import dom as D
from .dom import (Arr, Num, Str, Seq, SymSeq, Dct, SliceV, ModV, Ext, Func, Bound, Model, ClassV, Inst, Opaque, IterV,
                  Top, NONE, NoneV, PyRaise, CondList, Picked, kmax, num, pyint, mk_ge, mk_eq0, mk_pos, ctx)
from . import npmodel as N
from .npmodel import (model, bind, as_arr, is_none, iconst, same_dim, dims_differ, bshape, bidx, wrap, ew1, ew2, arith,
                      index, setitem, concat, digest, opaque, MODELS, CONSTANTS, METHODS, transpose, ravel, slice_params)

FULL = SliceV(NONE, NONE, NONE)
B = lambda t: Num(ONE if t else ZERO, "b")

CONSTANTS.update({
    "numpy.pi": Num(X.EPI, "f"), "numpy.nan": Num(atom_expr(X.NAN), "f"), "numpy.inf": Num(atom_expr(X.INF), "f"),
    "numpy.newaxis": NONE, "math.pi": Num(X.EPI, "f"), "numpy.NaN": Num(atom_expr(X.NAN), "f"),
    "numpy.Inf": Num(atom_expr(X.INF), "f"), "scipy.pi": Num(X.EPI, "f"), "math.inf": Num(atom_expr(X.INF), "f"),
    "math.nan": Num(atom_expr(X.NAN), "f"),
    "numpy.e": Num(X.exp(ONE), "f"),
})


def dt_kind(v, default="f"):
    """kind of a dtype argument"""
    if v is None or is_none(v):
        return default
    if isinstance(v, Opaque) and v.kind == "dtype":
        return v.kw["key"]
    if isinstance(v, (Arr, Num)):
        return v.kind
    if isinstance(v, Ext):
        n = v.name.split(".")[-1]
        if n.startswith("bool"):
            return "b"
        if n.startswith("int") or n.startswith("uint"):
            return "i"
        if n.startswith("complex"):
            return "c"
        if n.startswith("float") or n == "double":
            return "f"
    if isinstance(v, Str) and v.s:
        c = v.s.lstrip("<>=")
        for p, k in (("bool", "b"), ("int", "i"), ("i", "i"), ("complex", "c"), ("c", "c"), ("float", "f"), ("f", "f"), ("d", "f")):
            if c.startswith(p):
                return k
    raise Undecided("dtype")


def shape_arg(I, v):
    if isinstance(v, Num):
        if v.kind not in "bi":
            raise PyRaise("TypeError", None, I.where())
        return (v.e,)
    if isinstance(v, Seq):
        out = []
        for z in v.items:
            if not isinstance(z, Num):
                raise Undecided("shape")
            if z.kind not in "bi":
                raise PyRaise("TypeError", None, I.where())
            out.append(z.e)
        return tuple(out)
    if isinstance(v, Arr) and v.ndim == 1:
        c = v.shape[0].cval()
        if c is not None:
            return tuple(v.at(const(k)) for k in range(int(c)))
    if isinstance(v, NoneV):
        return ()
    raise Undecided("shape argument")


def ax_arg(v, nd):
    if is_none(v):
        return None
    a = iconst(v, "axis")
    if a < 0:
        a += nd
    if not 0 <= a < nd:
        raise PyRaise("IndexError", None, None)
    return a


@model("numpy.result_type", "numpy.promote_types", "numpy.common_type", "numpy.find_common_type")
def _(I, a, k):
    ks = [dt_kind(z) for v in a for z in (v.items if isinstance(v, Seq) else [v])]
    r = ks[0]
    for q in ks[1:]:
        r = D.kmax(r, q)
    return Opaque("dtype", key=r)


@model("numpy.dtype")
def _(I, a, k):
    r = dt_kind(a[0])
    return Opaque("dtype", key=r)


# ---------------------------------------------------------------- creation

def _const_array(I, shape, e, kind):
    return Arr(shape, lambda idx: e, kind)


@model("numpy.zeros")
def _(I, a, k):
    s, d, o = bind(a, k, "shape", ("dtype", NONE), ("order", NONE))
    return wrap0(_const_array(I, shape_arg(I, s), ZERO, dt_kind(d)))


def wrap0(a):
    return a


@model("numpy.ones")
def _(I, a, k):
    s, d, o = bind(a, k, "shape", ("dtype", NONE), ("order", NONE))
    return _const_array(I, shape_arg(I, s), ONE, dt_kind(d))


@model("numpy.empty")
def _(I, a, k):
    s, d, o = bind(a, k, "shape", ("dtype", NONE), ("order", NONE))
    sh = shape_arg(I, s)
    return Arr(sh, D.top_elems("uninitialised element"), dt_kind(d))


@model("numpy.full")
def _(I, a, k):
    s, v, d = bind(a, k, "shape", "fill_value", ("dtype", NONE))
    v = as_arr(I, v)
    return full(I, shape_arg(I, s), v, dt_kind(d, v.kind))


def full(I, sh, v, kind):
    r = Arr(sh, lambda idx: ZERO, kind)
    setitem(I, r, [Ext("Ellipsis")], v)
    return r


def _like(fillf):
    def f(I, a, k):
        if fillf is None:
            x, v, d, _s = bind(a, k, "a", "fill_value", ("dtype", NONE), ("shape", NONE))
        else:
            x, d, _s = bind(a, k, "a", ("dtype", NONE), ("shape", NONE))
        x = as_arr(I, x)
        sh = x.shape if is_none(_s) else shape_arg(I, _s)
        kind = dt_kind(d, N.kindof(x))
        if fillf is None:
            return full(I, sh, as_arr(I, v), kind)
        if fillf == "empty":
            return Arr(sh, D.top_elems("uninitialised element"), kind)
        return _const_array(I, sh, fillf, kind)
    return f


MODELS["numpy.zeros_like"] = _like(ZERO)
MODELS["numpy.ones_like"] = _like(ONE)
MODELS["numpy.full_like"] = _like(None)
MODELS["numpy.empty_like"] = _like("empty")


@model("numpy.eye", "numpy.identity")
def _(I, a, k):
    n, m, kk, d = bind(a, k, "N", ("M", NONE), ("k", pyint(0)), ("dtype", NONE))
    n = shape_arg(I, n)[0]
    m = n if is_none(m) else shape_arg(I, m)[0]
    kk = kk.e
    return Arr((n, m), lambda idx: mk_eq0(idx[1] - idx[0] - kk), dt_kind(d))


@model("numpy.arange")
def _(I, a, k):
    d = k.pop("dtype", NONE) if k else NONE
    if len(a) == 1 and not k:
        start, stop, step = num(0), a[0], num(1)
    else:
        start, stop, step = bind(a, k, "start", "stop", ("step", num(1)))
    if is_none(stop):
        start, stop = num(0), start
    s, e, st = start.e, stop.e, step.e
    kd = kmax(start.kind, stop.kind, step.kind)
    n = D.iceil((e - s) / st)
    if n.cval() is not None and n.cval() < 0:
        n = ZERO
    return Arr((n,), lambda idx: s + idx[0] * st, dt_kind(d, "i" if kd in "bi" else "f"))


@model("numpy.linspace")
def _(I, a, k):
    s, e, n, ep, d = bind(a, k, "start", "stop", ("num", num(50)), ("endpoint", B(True)), ("dtype", NONE))
    if n.kind not in "bi":
        raise PyRaise("TypeError", None, I.where())
    if not isinstance(s, Num) or not isinstance(e, Num):
        sa, ea = as_arr(I, s), as_arr(I, e)
        den = Num(n.e - 1 if ep.e.cval() == 1 else n.e, "i")
        diff = arith(I, "Sub", ea, sa)
        fs, fd = as_arr(I, arith(I, "Add", sa, arith(I, "Mult", diff, pyint(0)))).snap(), as_arr(I, diff).snap()
        sh = as_arr(I, diff).shape
        return Arr((n.e,) + sh, lambda idx: fs(idx[1:]) + idx[0] * fd(idx[1:]) / den.e, dt_kind(d, "f"))
    if n.kind not in "bi":
        raise PyRaise("TypeError", None, I.where())
    den = n.e - 1 if ep.e.cval() == 1 else n.e
    step = (e.e - s.e) / den
    return Arr((n.e,), lambda idx: s.e + idx[0] * step, dt_kind(d, "f"))


@model("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ascontiguousarray")
def _(I, a, k):
    x, d, c, nd = bind(a, k, "object", ("dtype", NONE), ("copy", NONE), ("ndmin", NONE))
    return _array(I, x, d)


def _array(I, x, d=NONE, copy=True):
    if isinstance(x, Opaque) and x.kind == "range":
        x = x.kw["seq"]
    x = as_arr(I, x)
    kind = dt_kind(d, N.kindof(x))
    return cast(I, x, kind, copy)


def cast(I, x, kind, copy=True):
    s = x.snap()
    old = N.kindof(x)
    if kind == "i" and old in "fc" and not N.value_is_integer(x):
        return Arr(x.shape, lambda idx: trunc(s(idx)), kind)
    if kind in "bif" and old == "c":
        return Arr(x.shape, lambda idx: X.real(s(idx)), kind)
    if kind == "b" and old != "b":
        return Arr(x.shape, lambda idx: ONE - mk_eq0(s(idx)), kind)
    return Arr(x.shape, s, kind, "mat" if x.cls == "mat" else "nd")


def _asarray(I, a, k):
    x, d = bind(a, k, "a", ("dtype", NONE))
    if isinstance(x, Arr) and is_none(d):
        return x
    return _array(I, x, d, False)


MODELS["numpy.asarray"] = _asarray
MODELS["numpy.asanyarray"] = _asarray


@model("numpy.atleast_1d")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim == 0:
        e = x.at()
        return Arr((1,), lambda idx: e, x.kind)
    return x


@model("numpy.atleast_2d")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim >= 2:
        return x
    if x.ndim == 1:
        return index(I, x, [NONE, FULL])
    e = x.at()
    return Arr((1, 1), lambda idx: e, x.kind)


@model("numpy.matrix", "numpy.mat", "numpy.asmatrix")
def _(I, a, k):
    x = as_arr(I, a[0])
    s = x.snap()
    if x.ndim == 0:
        return Arr((1, 1), lambda idx: s(()), x.kind, "mat")
    if x.ndim == 1:
        return Arr((1, x.shape[0]), lambda idx: s((idx[1],)), x.kind, "mat")
    return Arr(x.shape, s, x.kind, "mat")


@model("numpy.copy")
def _(I, a, k):
    return _array(I, a[0])


def trunc(e):
    if X.is_integer(e):
        return e
    c = e.cval()
    if c is not None:
        return const(int(c))
    if X.sign_of(e) >= 1 or D.ctx().decide_ge0(e) is True:
        return D.ifloor(e)
    return X.fn("trunc", e, integer=True)


# ---------------------------------------------------------------- elementwise functions

def ufunc(*names, f=None, kind=lambda k: k):
    def g(I, a, k):
        if k:
            k = {q: v for q, v in k.items() if not (is_none(v))}
            if k:
                raise Undecided("ufunc keyword")
        x = a[0]
        if is_none(x):
            raise PyRaise("TypeError", None, I.where())
        r = ew1(I, x, f, kind)
        return Num(r.e, r.kind, True) if isinstance(r, Num) else r
    for n in names:
        MODELS[n] = g
    return g


KF = lambda k: "c" if k == "c" else "f"
KR = lambda k: "f" if k == "c" else k
ufunc("numpy.cos", "math.cos", f=X.cos, kind=KF)
ufunc("numpy.sin", "math.sin", f=X.sin, kind=KF)
ufunc("numpy.tan", "math.tan", f=lambda e: X.fn("tan", e), kind=KF)
ufunc("numpy.exp", "math.exp", f=X.exp, kind=KF)
ufunc("numpy.expm1", f=lambda e: X.exp(e) - 1, kind=KF)
ufunc("numpy.sqrt", "math.sqrt", "scipy.sqrt", f=X.sqrt, kind=KF)
ufunc("numpy.square", f=lambda e: e * e, kind=lambda k: k)
ufunc("numpy.abs", "numpy.absolute", "numpy.fabs", f=X.absval, kind=KR)
ufunc("numpy.real", f=X.real, kind=KR)
ufunc("numpy.imag", f=X.imag, kind=KR)
ufunc("numpy.conj", "numpy.conjugate", f=X.conj)
ufunc("numpy.negative", f=lambda e: -e)
ufunc("numpy.ceil", f=D.iceil, kind=KF)
ufunc("numpy.floor", f=D.ifloor, kind=KF)
ufunc("math.ceil", f=D.iceil, kind=lambda k: "i")
ufunc("math.floor", f=D.ifloor, kind=lambda k: "i")
ufunc("numpy.log", "math.log", f=lambda e: log(e), kind=KF)
ufunc("numpy.log10", "math.log10", f=lambda e: log10(e), kind=KF)
ufunc("numpy.log2", f=lambda e: log(e) / log(const(2)), kind=KF)
ufunc("numpy.isnan", f=lambda e: nanflag(e), kind=lambda k: "b")
ufunc("numpy.isfinite", f=lambda e: ONE - nanflag(e), kind=lambda k: "b")
ufunc("numpy.sign", f=lambda e: sign(e))
ufunc("numpy.logical_not", f=lambda e: mk_eq0(e), kind=lambda k: "b")
ufunc("numpy.reciprocal", f=lambda e: ONE / e, kind=KF)
ufunc("numpy.deg2rad", "numpy.radians", f=lambda e: e * X.EPI / 180, kind=KF)
ufunc("numpy.arctan", f=lambda e: X.fn("arctan", e), kind=KF)
ufunc("numpy.trunc", f=lambda e: trunc(e), kind=KF)
ufunc("numpy.rint", f=lambda e: rnd(e), kind=KF)


def rnd(e):
    return e if X.is_integer(e) else X.fn("round", e, integer=True)


def nanflag(e):
    return ONE if "nan" in D._flags(e) else (ZERO if e.cval() is not None else X.fn("isnan", e))


def sign(e):
    if X.sign_of(e) == 2:
        return ONE
    if X.sign_of(-e) == 2:
        return const(-1)
    c = e.cval()
    if c is not None:
        return const((c > 0) - (c < 0))
    return X.fn("sign", e)


def log(e):
    c = e.cval()
    if c == 1:
        return ZERO
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c > 0 and all(X.byid(a).sign == 2 for a, _ in m):
            r = ZERO if c == 1 else X.fn("log", const(c))
            for a, x in m:
                at = X.byid(a)
                if at.kind == "fn" and at.args[0] == "exp":
                    r = r + at.args[1] * const(x)
                elif at.kind == "fn" and at.args[0] == "sqrt":
                    r = r + log(at.args[1]) * const(Fraction(x) / 2)
                else:
                    r = r + X.fn("log", atom_expr(at)) * const(x)
            return r
    # common content
    lc, m, p = X.content(e)
    r = X.fn("log", e)
    if lc > 0 and X.is_real(e) and (m or lc != 1) and all(
            X.byid(a).sign >= 1 and X.byid(a).real for a, _ in m) and len(p.t) >= 1 and not p.cval():
        r = log(Expr({m: Fraction(lc)})) if (m and all(X.byid(a).sign == 2 for a, _ in m)) or not m else None
        if r is not None:
            return r + X.fn("log", p)
        return X.fn("log", e)
    return X.fn("log", e)


def log10(e):
    return log(e) / X.fn("log", const(10), sign=2)


def binufunc(names, f, kind):
    def g(I, a, k):
        if k:
            raise Undecided("ufunc keyword")
        r = ew2(I, a[0], a[1], f, kind)
        return Num(r.e, r.kind, True) if isinstance(r, Num) else r
    for n in names:
        MODELS[n] = g


binufunc(["numpy.add"], lambda x, y: x + y, N.k_arith)
binufunc(["numpy.subtract"], lambda x, y: x - y, N.k_arith)
binufunc(["numpy.multiply"], X.mul, N.k_arith)
binufunc(["numpy.divide", "numpy.true_divide"], lambda x, y: x / y, N.k_div)
binufunc(["numpy.power", "numpy.float_power"], N.p_pow, N.k_arith)
binufunc(["math.pow"], N.p_pow, lambda a, b: "f")
binufunc(["numpy.mod", "numpy.remainder"], N.p_mod, N.k_arith)
binufunc(["numpy.floor_divide"], N.p_floordiv, N.k_arith)
binufunc(["numpy.arctan2", "math.atan2"], lambda y, x: X.atan2(y, x), lambda a, b: "f")
binufunc(["numpy.maximum"], lambda x, y: D.mk_max(x, y), kmax)
binufunc(["numpy.minimum"], lambda x, y: D.mk_min(x, y), kmax)
binufunc(["numpy.hypot"], lambda x, y: X.sqrt(x * x + y * y), lambda a, b: "f")
binufunc(["numpy.logical_and"], lambda x, y: X.mul(tob(x), tob(y)), lambda a, b: "b")
binufunc(["numpy.logical_or"], lambda x, y: tob(x) + tob(y) - X.mul(tob(x), tob(y)), lambda a, b: "b")
for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"),
               ("not_equal", "NotEq")):
    MODELS["numpy." + _n] = (lambda o: lambda I, a, k: N.compare(I, o, a[0], a[1]))(_o)


def tob(e):
    if e.cval() is not None:
        return ONE if e.cval() else ZERO
    return ONE - mk_eq0(e) if not all(X._byid[a].kind == "fn" and X.byid(a).args[0] in X.IDEMP for m in e.t for a, _ in m) else e


@model("numpy.angle")
def _(I, a, k):
    return ew1(I, a[0], lambda e: X.atan2(X.imag(e), X.real(e)), lambda q: "f")


@model("numpy.round", "numpy.around", "builtins.round")
def _(I, a, k):
    x, d = bind(a, k, "a", ("decimals", num(0)))
    if isinstance(x, Top):
        return x
    if isinstance(d, Num) and d.e.cval() == 0:
        return ew1(I, x, rnd, lambda q: q if isinstance(x, Arr) or (isinstance(x, Num) and x.np) or len(a) > 1 else "i")
    return ew1(I, x, lambda e: X.fn("rounddec", e, d.e))


@model("numpy.real_if_close")
def _(I, a, k):
    return a[0]


@model("numpy.nan_to_num")
def _(I, a, k):
    return a[0]


@model("numpy.clip")
def _(I, a, k):
    x, lo, hi = bind(a, k, "a", ("a_min", NONE), ("a_max", NONE))
    if not is_none(lo):
        x = ew2(I, x, lo, lambda p, q: D.mk_max(p, q), kmax)
    if not is_none(hi):
        x = ew2(I, x, hi, lambda p, q: D.mk_min(p, q), kmax)
    return x


@model("numpy.where")
def _(I, a, k):
    if len(a) == 1:
        return nonzero(I, a, k)
    c, x, y = a
    c = as_arr(I, c)
    x, y = as_arr(I, x), as_arr(I, y)
    sh = bshape(I, c.shape, x.shape, y.shape)
    fc, fx, fy = c.snap(), x.snap(), y.snap()

    def f(idx):
        g = tob(fc(bidx(c.shape, sh, idx)))
        v = g.cval()
        if v is not None:
            return fx(bidx(x.shape, sh, idx)) if v else fy(bidx(y.shape, sh, idx))
        return g * fx(bidx(x.shape, sh, idx)) + (ONE - g) * fy(bidx(y.shape, sh, idx))
    return wrap(I, Arr(sh, f, kmax(x.kind, y.kind)))


@model("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere")
def nonzero(I, a, k):
    m = as_arr(I, a[0])
    if m.ndim != 1:
        raise Undecided("nonzero")
    if m.kind != "b":
        m = ew1(I, m, lambda e: ONE - mk_eq0(e), lambda q: "b")
    pos, cnt = N.mask_pos(I, m)
    if m.base is None:
        f = m.snap()
        pos = Arr(pos.shape, pos.snap(), pos.kind, extra={"positions_of": Arr(m.shape, f, "b")})
    return Seq([pos], True)


MODELS["numpy.flatnonzero"] = lambda I, a, k: nonzero(I, a, k).items[0]


@model("numpy.count_nonzero")
def _(I, a, k):
    m = as_arr(I, a[0])
    b = ew1(I, m, tob, lambda q: "i")
    return reduce_sum(I, b, None)


# ---------------------------------------------------------------- reductions

def reduce_sum(I, x, axis, keep=False):
    if axis is None:
        f = x.snap()

        def rec(k, idx):
            if k == x.ndim:
                return f(idx)
            return D.asum(ZERO, x.shape[k], lambda i: rec(k + 1, idx + (i,)))
        if x.ndim == 0:
            return Num(f(()), x.kind, True)
        return Num(rec(0, ()), "i" if x.kind == "b" else x.kind, True)
    f = x.snap()
    n = x.shape[axis]
    sh = x.shape[:axis] + ((ONE,) if keep or x.cls == "mat" else ()) + x.shape[axis + 1:]

    def g(idx):
        pre = idx[:axis]
        post = idx[axis + (1 if keep or x.cls == "mat" else 0):]
        return D.asum(ZERO, n, lambda i: f(pre + (i,) + post))
    return wrap(I, Arr(sh, g, "i" if x.kind == "b" else x.kind, x.cls if x.cls == "mat" else "nd"))


@model("numpy.sum", "numpy.nansum")
def _(I, a, k):
    x, ax, d, kd = bind(a, k, "a", ("axis", NONE), ("dtype", NONE), ("keepdims", B(False)))
    x = as_arr(I, x)
    return reduce_sum(I, x, ax_arg(ax, x.ndim), I.truth(kd) is True)


def _picked_moment(I, x, ax, power):
    """sum over the selected rows / number of them"""
    if not (isinstance(ax, Num) and ax.e.cval() == x.axis):
        raise Undecided("reduction of selected rows over another axis")
    lo, hi = x.n
    sh = x.arr.shape[:x.axis] + x.arr.shape[x.axis + 1:]

    def at(idx, q):
        return x.arr.at(*(idx[:x.axis] + (q,) + idx[x.axis:]))
    cnt = D.asum(lo, hi, x.cond)

    def mu(idx):
        return D.asum(lo, hi, lambda q: X.mul(x.cond(q), at(idx, x.item(q)))) / cnt
    return sh, at, cnt, mu


@model("numpy.mean", "numpy.average", "numpy.nanmean")
def _(I, a, k):
    x, ax, d, kd, w = bind(a, k, "a", ("axis", NONE), ("dtype", NONE), ("keepdims", B(False)), ("weights", NONE))
    if isinstance(x, Picked) and is_none(w) and I.truth(kd) is False:
        sh, at, cnt, mu = _picked_moment(I, x, ax, 1)
        return Arr(sh, mu, "f")
    if not is_none(w):
        raise Undecided("weighted average")
    x = as_arr(I, x)
    ax = ax_arg(ax, x.ndim)
    s = reduce_sum(I, x, ax, I.truth(kd) is True)
    n = ONE
    if ax is None:
        for q in x.shape:
            n = n * q
    else:
        n = x.shape[ax]
    return ew1(I, s, lambda e: e / n, KF)


def _variance(I, a, k, root):
    x, ax, d, o, dd, kd = bind(a, k, "a", ("axis", NONE), ("dtype", NONE), ("out", NONE), ("ddof", num(0)), ("keepdims", B(False)))
    x = as_arr(I, x)
    ax = ax_arg(ax, x.ndim)
    n = ONE
    if ax is None:
        for q in x.shape:
            n = n * q
    else:
        n = x.shape[ax]
    m = ew1(I, reduce_sum(I, x, ax), lambda e: e / n, KF)
    s2 = reduce_sum(I, ew1(I, x, lambda e: X.mul(e, X.conj(e))), ax)
    v = ew2(I, s2, m, lambda p, q: (p - n * X.mul(q, X.conj(q))) / (n - dd.e), lambda p, q: "f")
    return ew1(I, v, X.sqrt) if root else v


MODELS["numpy.var"] = lambda I, a, k: _variance(I, a, k, False)
MODELS["numpy.std"] = lambda I, a, k: _variance(I, a, k, True)


@model("numpy.prod", "numpy.product")
def _(I, a, k):
    x, ax = bind(a, k, "a", ("axis", NONE))
    x = as_arr(I, x)
    if not is_none(ax) or x.ndim != 1:
        raise Undecided("prod")
    c = x.shape[0].cval()
    if c is not None and c <= 8:
        r = ONE
        for j in range(int(c)):
            r = r * x.at(const(j))
        return Num(r, x.kind, True)
    return opaque(I, "prod", [x], (), x.kind)


@model("numpy.cumsum")
def _(I, a, k):
    x, ax = bind(a, k, "a", ("axis", NONE))
    x = as_arr(I, x)
    if x.ndim != 1:
        raise Undecided("cumsum")
    f = x.snap()
    return Arr(x.shape, lambda idx: D.asum(ZERO, idx[0] + 1, lambda i: f((i,))), x.kind)


@model("numpy.cumprod")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim != 1 or len(a) > 1 or k:
        raise Undecided("cumprod")
    return opaque(I, "cumprod", [x], x.shape, x.kind)


@model("numpy.diff")
def _(I, a, k):
    x, n, ax = bind(a, k, "a", ("n", num(1)), ("axis", num(-1)))
    x = as_arr(I, x)
    axis = ax_arg(ax, x.ndim)
    for _ in range(iconst(n)):
        f = x.snap()
        sh = list(x.shape)
        sh[axis] = sh[axis] - 1
        x = Arr(sh, (lambda f: lambda idx: f(idx[:axis] + (idx[axis] + 1,) + idx[axis + 1:]) - f(idx))(f), x.kind)
    return x


def _boolred(name, I, a, k):
    x, ax, kd = bind(a, k, "a", ("axis", NONE), ("keepdims", NONE))
    if isinstance(x, (Seq, SymSeq)) or isinstance(x, Arr) or isinstance(x, Num):
        pass
    if isinstance(x, Top):
        return x
    x = as_arr(I, x)
    axis = ax_arg(ax, x.ndim)
    if axis is None:
        return Num(quant(I, name, x), "b", True)
    f = x.snap()
    sh = x.shape[:axis] + x.shape[axis + 1:]
    n = x.shape[axis]

    def g(idx):
        row = Arr((n,), lambda j: f(idx[:axis] + (j[0],) + idx[axis:]), x.kind)
        return quant(I, name, row)
    return Arr(sh, g, "b")


def quant(I, name, x):
    """0/1 expression of any/all over an array"""
    if x.ndim == 0:
        return tob(x.at())
    c = x.size_const()
    if c is not None and c <= 6 and x.ndim == 1:
        acc = ONE if name == "all" else ZERO
        for j in range(c):
            e = tob(x.at(const(j)))
            acc = X.mul(acc, e) if name == "all" else acc + e - X.mul(acc, e)
        return acc
    b = ew1(I, x, tob, lambda q: "b")
    vs = [X.fresh_idx("q") for _ in x.shape]
    f = b.snap()
    try:
        regs = N.regions(vs, x.shape, lambda box: f(tuple(atom_expr(v) for v in vs)))
        cs = [e.cval() for _, e in regs]
        if all(q == 1 for q in cs):
            return ONE
        if all(q == 0 for q in cs):
            return ZERO
        if name == "any" and any(q == 1 for q in cs) or name == "all" and any(q == 0 for q in cs):
            return ONE if name == "any" else ZERO
    except X.NeedSplit:
        pass
    d = digest(b)
    return X.fn("ind", name, d)


MODELS["numpy.any"] = lambda I, a, k: _boolred("any", I, a, k)
MODELS["numpy.all"] = lambda I, a, k: _boolred("all", I, a, k)
MODELS["numpy.alltrue"] = MODELS["numpy.all"]


@model("numpy.allclose")
def _(I, a, k):
    x, y = a[0], a[1]
    d = ew2(I, x, y, lambda p, q: mk_eq0(p - q), lambda p, q: "b")
    if isinstance(d, Num):
        return d
    e = quant(I, "all", d)
    if e.cval() is not None:
        return Num(e, "b", True)
    return Num(X.fn("ind", "allclose", digest(as_arr(I, x)), digest(as_arr(I, y))), "b", True)


@model("numpy.array_equal")
def _(I, a, k):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim != y.ndim or any(dims_differ(p, q) for p, q in zip(x.shape, y.shape)):
        return B(False)
    return Num(quant(I, "all", ew2(I, x, y, lambda p, q: mk_eq0(p - q), lambda p, q: "b")), "b", True)


def _extremum(name):
    def f(I, a, k):
        x, ax, kd = bind(a, k, "a", ("axis", NONE), ("keepdims", NONE))
        x = as_arr(I, x)
        axis = ax_arg(ax, x.ndim)
        if axis is None:
            if x.ndim == 0:
                return Num(x.at(), x.kind, True)
            return Num(extr(I, name, x), x.kind, True)
        g = x.snap()
        sh = x.shape[:axis] + x.shape[axis + 1:]
        n = x.shape[axis]
        return Arr(sh, lambda idx: extr(I, name, Arr((n,), lambda j: g(idx[:axis] + (j[0],) + idx[axis:]), x.kind)), x.kind)
    return f


def extr(I, name, x):
    c = x.size_const()
    if c is not None and x.ndim == 1 and c <= 16:
        es = [x.at(const(j)) for j in range(c)]
        return (D.mk_min if name == "min" else D.mk_max)(*es)
    mono = monotone(x)
    if mono is not None:
        up = mono
        return x.at(ZERO) if (up == (name == "min")) else x.at(x.shape[0] - 1)
    d = digest(x)
    sg = 0
    return N.closed(name + "of", d, real=True, integer=x.kind in "bi", sign=_allsign(d))()


def _allsign(d):
    s = 2
    for box, e in d[2]:
        s = min(s, X.sign_of(e))
    return s


def monotone(x):
    if x.ndim != 1:
        return None
    v = X.fresh_idx("q")
    try:
        e = D.with_range(v, ZERO, x.shape[0] - 1, False, lambda: x.at(atom_expr(v) + 1) - x.at(atom_expr(v)))
    except (X.NeedSplit, Undecided):
        return None
    if v in e.deps:
        return None
    s = X.sign_of(e)
    if s >= 1:
        return True
    if X.sign_of(-e) >= 1:
        return False
    if X.is_integer(e):
        if ctx().decide_ge0(e):
            return True
        if ctx().decide_ge0(-e):
            return False
    return None


MODELS["numpy.min"] = MODELS["numpy.amin"] = MODELS["numpy.nanmin"] = _extremum("min")
MODELS["numpy.max"] = MODELS["numpy.amax"] = MODELS["numpy.nanmax"] = _extremum("max")


def _argx(name):
    def f(I, a, k):
        x = as_arr(I, a[0])
        if x.ndim != 1 or len(a) > 1 or k:
            raise Undecided(name)
        return opaque(I, name, [x], (), "i", sign=1)
    return f


MODELS["numpy.argmin"] = _argx("argmin")
MODELS["numpy.argmax"] = _argx("argmax")


@model("numpy.median")
def _(I, a, k):
    x, ax = bind(a, k, "a", ("axis", NONE))
    x = as_arr(I, x)
    axis = ax_arg(ax, x.ndim)
    if axis is None or x.ndim == 1:
        return opaque(I, "median", [x], ())
    f = x.snap()
    sh = x.shape[:axis] + x.shape[axis + 1:]
    n = x.shape[axis]

    def g(idx):
        row = Arr((n,), lambda j: f(idx[:axis] + (j[0],) + idx[axis:]), x.kind)
        return opaque(I, "median", [row], ()).e
    return Arr(sh, g, "f")


@model("numpy.cov")
def _(I, a, k):
    x, y, rv, bias, ddof = bind(a, k, "m", ("y", NONE), ("rowvar", B(True)), ("bias", B(False)), ("ddof", NONE))
    if isinstance(x, Picked) and is_none(y) and x.arr.ndim == 2 and (I.truth(rv) is not True) == (x.axis == 0):
        sh, at, cnt, mu = _picked_moment(I, x, num(x.axis), 2)
        dd = (ZERO if I.truth(bias) is True else ONE) if is_none(ddof) else ddof.e
        lo, hi = x.n

        def gp(idx):
            i, j = (idx[0],), (idx[1],)
            return (D.asum(lo, hi, lambda q: X.mul(X.mul(x.cond(q), at(i, x.item(q))), X.conj(at(j, x.item(q))))) - cnt * mu(i) * X.conj(mu(j))) / (cnt - dd)
        return Arr(sh + sh, gp, "f")
    x = as_arr(I, x)
    if x.ndim == 1:
        x = index(I, x, [NONE, FULL])
    elif I.truth(rv) is False:
        x = transpose(I, x)
    if not is_none(y):
        y = as_arr(I, y)
        if y.ndim == 1:
            y = index(I, y, [NONE, FULL])
        elif I.truth(rv) is False:
            y = transpose(I, y)
        x = concat(I, [x, y], 0)
    n = x.shape[1]
    if is_none(ddof):
        dd = ZERO if I.truth(bias) is True else ONE
    else:
        dd = ddof.e
    f = x.snap()
    mean = {}

    def mu(i):
        return D.asum(ZERO, n, lambda q: f((i, q))) / n

    def g(idx):
        i, j = idx
        return (D.asum(ZERO, n, lambda q: X.mul(f((i, q)), X.conj(f((j, q))))) - n * mu(i) * X.conj(mu(j))) / (n - dd)
    r = Arr((x.shape[0], x.shape[0]), g, "f")
    if x.shape[0].cval() == 1:
        e = r.at(ZERO, ZERO)
        return Arr((), lambda idx: e, "f")
    return shorten(I, r)


def shorten(I, r):
    """a covariance whose entries are heavy expressions gets a name for them"""
    if r.kind == "c" or r.size_const() is not None:
        return r
    vs = [X.fresh_idx("q"), X.fresh_idx("q")]
    f = r.snap()
    try:
        regs = N.regions(vs, r.shape, lambda box: f((atom_expr(vs[0]), atom_expr(vs[1]))))
        if max(sum(1 for _ in X.walk_atoms(e)) for _, e in regs) < 20:
            return r
        return opaque(I, "let", [r], r.shape, r.kind, sym=((0, 1),))
    except (Undecided, X.NeedSplit):
        return r


@model("numpy.corrcoef")
def _(I, a, k):
    c = MODELS["numpy.cov"](I, a, k)
    if c.ndim == 0:
        return c
    f = c.snap()
    return Arr(c.shape, lambda idx: f(idx) / X.sqrt(f((idx[0], idx[0])) * f((idx[1], idx[1]))), "f")


# ---------------------------------------------------------------- products

@model("numpy.dot")
def _(I, a, k):
    x, y = bind(a, k, "a", "b")
    return dot(I, x, y)


def dot(I, x, y):
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    x, y = as_arr(I, x), as_arr(I, y)
    if x.ndim == 0 or y.ndim == 0:
        return arith(I, "Mult", wrap(I, x), wrap(I, y))
    mat = x.cls == "mat" or y.cls == "mat"
    if mat:
        if x.ndim == 1:
            x = index(I, x, [NONE, FULL])
        if y.ndim == 1:
            y = index(I, y, [NONE, FULL])
    ax = y.ndim - 2 if y.ndim > 1 else 0
    n, m = x.shape[-1], y.shape[ax]
    if not same_dim(n, m):
        if dims_differ(n, m):
            raise PyRaise("ValueError", None, I.where())
        raise Undecided("dot of %r and %r" % (x.shape, y.shape))
    if y.ndim > 2:
        raise Undecided("dot of higher dimension")
    fx, fy = x.snap(), y.snap()
    nx = x.ndim - 1

    def g(idx):
        ix, iy = idx[:nx], idx[nx:]
        return D.asum(ZERO, n, lambda q: X.mul(fx(ix + (q,)), fy((q,) + iy)))
    r = Arr(x.shape[:-1] + y.shape[:ax] + y.shape[ax + 1:], g, N.k_arith(x.kind, y.kind), "mat" if mat else "nd")
    return wrap(I, named(I, r))


def named(I, r):
    """Small matrices whose entries are long sums get a name that stands for their (canonical) entries."""
    if not (1 <= r.ndim <= 2) or r.size_const() is None or r.size_const() > 16:
        return r
    if max(len(r.at(*[X.const(k) for k in idx]).t) for idx in _consts(r.shape)) < 6:
        return r
    es = [r.at(*[X.const(k) for k in idx]) for idx in _consts(r.shape)]
    if not all(all(any(X._byid[a].kind == "sum" for a, _ in m) for m in e.t) for e in es):
        return r
    return opaque(I, "let", [r], r.shape, r.kind, **({"sym": ((0, 1),)} if r.ndim == 2 and is_symmetric(r) else {}))


def _consts(shape):
    return itertools.product(*[range(int(lift(n).cval())) for n in shape])


@model("numpy.matmul")
def _(I, a, k):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim <= 2 and y.ndim <= 2:
        if x.ndim == 0 or y.ndim == 0:
            raise PyRaise("ValueError", None, I.where())
        return dot(I, x, y)
    # stacked: only (K,n,m)@(K,m,p) and broadcasts
    if x.ndim >= 2 and y.ndim >= 2:
        bs = bshape(I, x.shape[:-2], y.shape[:-2])
        n, m = x.shape[-1], y.shape[-2]
        if not same_dim(n, m):
            raise Undecided("matmul")
        fx, fy = x.snap(), y.snap()

        def g(idx):
            bi = idx[:-2]
            return D.asum(ZERO, n, lambda q: X.mul(fx(bidx(x.shape[:-2], bs, bi) + (idx[-2], q)),
                                                   fy(bidx(y.shape[:-2], bs, bi) + (q, idx[-1]))))
        return Arr(bs + (x.shape[-2], y.shape[-1]), g, N.k_arith(x.kind, y.kind))
    raise Undecided("matmul")


@model("numpy.linalg.multi_dot")
def _(I, a, k):
    items = I.iter_items(a[0])[1]
    r = items[0]
    for z in items[1:]:
        r = dot(I, r, z)
    return r


@model("numpy.outer")
def _(I, a, k):
    x, y = ravel(I, as_arr(I, a[0])), ravel(I, as_arr(I, a[1]))
    if as_arr(I, a[0]).ndim == 0 or as_arr(I, a[1]).ndim == 0:
        raise Undecided("outer of scalar")
    fx, fy = x.snap(), y.snap()
    return Arr((x.shape[0], y.shape[0]), lambda idx: X.mul(fx((idx[0],)), fy((idx[1],))), N.k_arith(x.kind, y.kind))


@model("numpy.inner", "numpy.vdot")
def _(I, a, k):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim == 1 and y.ndim == 1:
        return dot(I, x, y)
    raise Undecided("inner")


@model("numpy.kron")
def _(I, a, k):
    raise Undecided("kron")


@model("numpy.einsum")
def _(I, a, k):
    if not isinstance(a[0], Str) or a[0].s is None or "..." in a[0].s:
        raise Undecided("einsum")
    spec = a[0].s.replace(" ", "")
    ops = [as_arr(I, z) for z in a[1:]]
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise("ValueError", None, I.where())
        for c, d in zip(s, o.shape):
            if c in dims:
                if not same_dim(dims[c], d):
                    raise PyRaise("ValueError", None, I.where())
            dims[c] = d
    summed = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]

    def g(idx):
        env = dict(zip(out, idx))

        def rec(k):
            if k == len(summed):
                r = ONE
                for s, f in zip(ins, fs):
                    r = X.mul(r, f(tuple(env[c] for c in s)))
                return r

            def body(i):
                env[summed[k]] = i
                return rec(k + 1)
            return D.asum(ZERO, dims[summed[k]], body)
        return rec(0)
    kd = kmax(*[o.kind for o in ops])
    return wrap(I, Arr(tuple(dims[c] for c in out), g, kd))


@model("numpy.trace")
def _(I, a, k):
    x = as_arr(I, a[0])
    f = x.snap()
    return Num(D.asum(ZERO, x.shape[0], lambda i: f((i, i))), x.kind, True)


@model("numpy.diag", "numpy.diagonal", "numpy.diagflat")
def _(I, a, k):
    v, kk = bind(a, k, "v", ("k", num(0)))
    v = as_arr(I, v)
    off = kk.e
    f = v.snap()
    if v.ndim == 1:
        n = v.shape[0]
        o = off.cval()
        if o is None:
            raise Undecided("diag offset")
        o = int(o)
        m = n + abs(o)
        st = ZERO if o >= 0 else const(-o)

        def g(idx):
            e = mk_eq0(idx[1] - idx[0] - o)
            if e.cval() == 0:
                return ZERO
            return X.mul(e, f((idx[0] - st,)))
        return Arr((m, m), g, v.kind)
    if v.ndim == 2:
        o = off.cval()
        if o is None:
            raise Undecided("diag offset")
        o = int(o)
        r0, c0 = (0, o) if o >= 0 else (-o, 0)
        p, q = v.shape[0] - r0, v.shape[1] - c0
        if same_dim(p, q):
            n = p
        else:
            n = p if D.require(q - p) else q
        return Arr((n,), lambda idx: f((idx[0] + r0, idx[0] + c0)), v.kind)
    raise PyRaise("ValueError", None, I.where())


@model("numpy.triu", "numpy.tril")
def _(I, a, k):
    raise Undecided("triu")


# ---------------------------------------------------------------- shape manipulation

def items_of(I, v):
    if isinstance(v, Seq):
        return [as_arr(I, z) for z in v.items]
    if isinstance(v, Arr):
        c = v.shape[0].cval()
        if c is not None:
            return [as_arr(I, index(I, v, [pyint(j)])) for j in range(int(c))]
    if isinstance(v, SymSeq):
        return None
    raise Undecided("sequence of arrays")


def up1(I, a):
    if a.ndim == 0:
        e = a.at()
        return Arr((1,), lambda idx: e, a.kind)
    return a


@model("numpy.hstack")
def _(I, a, k):
    its = items_of(I, a[0])
    if its is None:
        raise Undecided("hstack of symbolic list")
    its = [up1(I, z) for z in its]
    return concat(I, its, 0 if its[0].ndim == 1 else 1)


@model("numpy.vstack", "numpy.row_stack")
def _(I, a, k):
    its = items_of(I, a[0])
    if its is None:
        x = as_arr(I, a[0])
        if x.ndim == 2:
            return x
        if x.ndim == 3 and x.shape[1].cval() == 1:
            f = x.snap()
            return Arr((x.shape[0], x.shape[2]), lambda idx: f((idx[0], ZERO, idx[1])), x.kind)
        raise Undecided("vstack")
    its = [up1(I, z) for z in its]
    its = [index(I, z, [NONE, FULL]) if z.ndim == 1 else z for z in its]
    return concat(I, its, 0)


@model("numpy.column_stack")
def _(I, a, k):
    its = items_of(I, a[0])
    its = [index(I, up1(I, z), [FULL, NONE]) if z.ndim <= 1 else z for z in its]
    return concat(I, its, 1)


@model("numpy.concatenate")
def _(I, a, k):
    s, ax = bind(a, k, "arrays", ("axis", num(0)))
    its = items_of(I, s)
    if is_none(ax):
        return concat(I, [ravel(I, z) for z in its], 0)
    for z in its:
        if z.ndim == 0:
            raise PyRaise("ValueError", None, I.where())
    return concat(I, its, iconst(ax))


@model("numpy.append")
def _(I, a, k):
    x, v, ax = bind(a, k, "arr", "values", ("axis", NONE))
    x, v = as_arr(I, x), as_arr(I, v)
    if is_none(ax):
        return concat(I, [ravel(I, x), ravel(I, v)], 0)
    return concat(I, [x, v], iconst(ax))


@model("numpy.stack")
def _(I, a, k):
    s, ax = bind(a, k, "arrays", ("axis", num(0)))
    x = as_arr(I, s if isinstance(s, (SymSeq, Arr)) else Seq(list(s.items), False))
    axis = iconst(ax)
    if axis < 0:
        axis += x.ndim
    if axis == 0:
        return x
    perm = list(range(1, x.ndim))
    perm.insert(axis, 0)
    return permute(x, perm)


@model("numpy.block", "numpy.bmat")
def _(I, a, k):
    rows = a[0]
    if not isinstance(rows, Seq):
        raise Undecided("block")
    if rows.items and isinstance(rows.items[0], Seq):
        rs = [MODELS["numpy.hstack"](I, [r], {}) for r in rows.items]
        rs = [index(I, r, [NONE, FULL]) if r.ndim == 1 else r for r in rs]
        return concat(I, rs, 0)
    return MODELS["numpy.hstack"](I, [rows], {})


def permute(x, perm):
    f = x.snap()
    inv = [perm.index(j) for j in range(x.ndim)]
    return Arr([x.shape[p] for p in perm], lambda idx: f(tuple(idx[j] for j in inv)), x.kind)


@model("numpy.transpose")
def _(I, a, k):
    x, axes = bind(a, k, "a", ("axes", NONE))
    x = as_arr(I, x)
    if is_none(axes):
        return transpose(I, x)
    return permute(x, [iconst(z) for z in axes.items])


@model("numpy.swapaxes")
def _(I, a, k):
    x = as_arr(I, a[0])
    p = list(range(x.ndim))
    i, j = iconst(a[1]), iconst(a[2])
    p[i], p[j] = p[j], p[i]
    return permute(x, p)


@model("numpy.ravel", "numpy.flatten")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim == 2 and x.cls == "mat":
        return x
    return ravel(I, x)


def _flatten(I, a, k):
    r = ravel(I, as_arr(I, a[0]))
    if r is a[0] or r.base is not None:
        return Arr(r.shape, r.snap(), r.kind)
    return r


@model("numpy.squeeze")
def _(I, a, k):
    x, ax = bind(a, k, "a", ("axis", NONE))
    x = as_arr(I, x)
    keys = [pyint(0) if s.cval() == 1 and (is_none(ax) or j == iconst(ax) % x.ndim) else FULL for j, s in enumerate(x.shape)]
    if all(isinstance(q, SliceV) for q in keys):
        return x
    save = x.cls
    y = Arr(x.shape, x.snap(), x.kind) if x.cls == "mat" else x
    r = index(I, y, keys)
    if isinstance(r, Num):
        e = r.e
        return Arr((), lambda idx: e, r.kind)
    if save == "mat" and r.ndim == 1:
        return x
    return r


@model("numpy.expand_dims")
def _(I, a, k):
    x, ax = bind(a, k, "a", "axis")
    x = as_arr(I, x)
    j = iconst(ax)
    if j < 0:
        j += x.ndim + 1
    return index(I, x, [FULL] * j + [NONE] + [FULL] * (x.ndim - j))


@model("numpy.reshape")
def _(I, a, k):
    x = as_arr(I, a[0])
    sh = a[1] if len(a) == 2 else (Seq(list(a[1:]), True) if len(a) > 2 else k.get("newshape"))
    sh = list(shape_arg(I, sh))
    neg = [j for j, s in enumerate(sh) if s.cval() == -1]
    tot = ONE
    for s in x.shape:
        tot = tot * s
    if neg:
        r = ONE
        for j, s in enumerate(sh):
            if j not in neg:
                r = r * s
        q = tot / r
        if not X.is_integer(q):
            q2 = D.ifloor(q)
            q = q2
        sh[neg[0]] = q
    r = ONE
    for s in sh:
        r = r * s
    if not same_dim(r, tot):
        if dims_differ(r, tot):
            raise PyRaise("ValueError", None, I.where())
        raise Undecided("reshape")
    return reshape(I, x, tuple(sh))


def reshape(I, x, sh):
    src = [(j, s) for j, s in enumerate(x.shape) if s.cval() != 1]
    dst = [(j, s) for j, s in enumerate(sh) if s.cval() != 1]
    if len(src) == len(dst) and all(same_dim(p[1], q[1]) for p, q in zip(src, dst)):
        nd = x.ndim
        mp = [(p[0], q[0]) for p, q in zip(src, dst)]
        nds = len(sh)

        def vmap(idx):
            r = [ZERO] * nd
            for s, d in mp:
                r[s] = idx[d]
            return tuple(r)

        def inv(idx):
            r = [ZERO] * nds
            for s, d in mp:
                r[d] = idx[s]
            return [], tuple(r)
        return Arr(sh, None, x.kind, base=x, vmap=vmap, inv=inv)
    f = x.snap()
    if len(src) <= 1 and len(dst) == 2:
        n = dst[1][1]
        sj = src[0][0] if src else 0
        nd = x.ndim

        def g(idx):
            r = [ZERO] * nd
            r[sj] = idx[dst[0][0]] * n + idx[dst[1][0]]
            return f(tuple(r))
        return Arr(sh, g, x.kind)
    if len(dst) == 1 and len(src) == 2:
        flat = ravel(I, Arr(tuple(s for _, s in src), lambda ix: f(_spread(ix, src, x.ndim)), x.kind))
        ff = flat.snap()
        dj = dst[0][0]
        return Arr(sh, lambda idx: ff((idx[dj],)), x.kind)
    # general case: position in the flattened array
    flat = ravel(I, Arr(tuple(s for _, s in src), lambda ix: f(_spread(ix, src, x.ndim)), x.kind)) if len(src) > 1 else Arr(
        (src[0][1] if src else ONE,), lambda ix: f(_spread(ix, src, x.ndim)), x.kind)
    ff = flat.snap()

    def h(idx):
        p = ZERO
        for (j, s) in dst:
            p = p * s + idx[j]
        return ff((p,))
    return Arr(sh, h, x.kind)


def _spread(ix, src, nd):
    r = [ZERO] * nd
    for v, (j, _) in zip(ix, src):
        r[j] = v
    return tuple(r)


@model("numpy.tile")
def _(I, a, k):
    x, reps = bind(a, k, "A", "reps")
    x = as_arr(I, x)
    rp = list(shape_arg(I, reps))
    sh = list(x.shape)
    while len(sh) < len(rp):
        sh.insert(0, ONE)
    while len(rp) < len(sh):
        rp.insert(0, ONE)
    off = len(sh) - x.ndim
    f = x.snap()
    out = [s * r for s, r in zip(sh, rp)]

    def g(idx):
        r = []
        for j in range(off, len(sh)):
            s = sh[j]
            if s.cval() == 1:
                r.append(ZERO)
            elif rp[j].cval() == 1:
                r.append(idx[j])
            else:
                r.append(D.imod(idx[j], s))
        return f(tuple(r))
    return Arr(out, g, x.kind)


@model("numpy.repeat")
def _(I, a, k):
    x, reps, ax = bind(a, k, "a", "repeats", ("axis", NONE))
    x = as_arr(I, x)
    if isinstance(reps, Num) and x.ndim <= 1:
        x = up1(I, x)
        n = x.shape[0]
        f = x.snap()
        if n.cval() == 1:
            return Arr((reps.e,), lambda idx: f((ZERO,)), x.kind)
        return Arr((n * reps.e,), lambda idx: f((D.ifloor(idx[0] / reps.e),)), x.kind)
    raise Undecided("repeat")


@model("numpy.roll")
def _(I, a, k):
    x, sh, ax = bind(a, k, "a", "shift", ("axis", NONE))
    x = as_arr(I, x)
    if is_none(ax):
        if isinstance(sh, Seq):
            s = ZERO
            for z in sh.items:
                s = s + z.e
        else:
            s = sh.e
        if x.ndim == 1:
            return roll1(x, s, 0)
        if x.ndim == 2:
            if s.cval() == 0:
                return Arr(x.shape, x.snap(), x.kind)
            flat = ravel(I, x)
            y = roll1(flat, s, 0)
            f = y.snap()
            n = x.shape[1]
            return Arr(x.shape, lambda idx: f((idx[0] * n + idx[1],)), x.kind)
        raise Undecided("roll")
    if isinstance(ax, Seq):
        axes = [iconst(z) for z in ax.items]
        shs = [z.e for z in sh.items] if isinstance(sh, Seq) else [sh.e] * len(axes)
    else:
        axes = [iconst(ax)]
        shs = [sh.e]
    for j, s in zip(axes, shs):
        x = roll1(x, s, j % x.ndim)
    return x


def roll1(x, s, j):
    f = x.snap()
    n = x.shape[j]
    if s.cval() == 0:
        return Arr(x.shape, f, x.kind)
    return Arr(x.shape, lambda idx: f(idx[:j] + (D.imod(idx[j] - s, n),) + idx[j + 1:]), x.kind)


@model("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _(I, a, k):
    x, ax = bind(a, k, "m", ("axis", NONE))
    x = as_arr(I, x)
    rev = SliceV(NONE, NONE, num(-1))
    if is_none(ax):
        return index(I, x, [rev] * x.ndim)
    j = iconst(ax) % x.ndim
    return index(I, x, [FULL] * j + [rev])


MODELS["numpy.flipud"] = lambda I, a, k: index(I, as_arr(I, a[0]), [SliceV(NONE, NONE, num(-1))])
MODELS["numpy.fliplr"] = lambda I, a, k: index(I, as_arr(I, a[0]), [FULL, SliceV(NONE, NONE, num(-1))])


@model("numpy.pad")
def _(I, a, k):
    k = dict(k)
    x, pw = as_arr(I, a[0]), (a[1] if len(a) > 1 else k.pop("pad_width"))
    mode = a[2] if len(a) > 2 else k.pop("mode", Str("constant"))
    a = a[:3]
    pads = pad_width(I, pw, x.ndim)
    if not isinstance(mode, Str) or mode.s is None:
        raise Undecided("pad mode")
    m = mode.s
    f = x.snap()
    sh = [s + p + q for s, (p, q) in zip(x.shape, pads)]
    nsh = x.shape
    if m == "constant":
        cv = k.pop("constant_values", num(0))
        if k:
            raise Undecided("pad keyword")
        cv = as_arr(I, cv)
        if cv.ndim > 2:
            raise Undecided("pad values")

        def g(idx):
            inside = []
            val = None
            for j in range(len(nsh)):
                p, q = pads[j]
                i = idx[j] - p
                lo = mk_ge(i)
                hi = mk_ge(nsh[j] - 1 - i)
                for side, gg in ((0, lo), (1, hi)):
                    c = gg.cval()
                    if c == 0:
                        return cval(j, side)
                    if c is None:
                        inside.append((gg, j, side))
            r = f(tuple(idx[j] - pads[j][0] for j in range(len(nsh))))
            for gg, j, side in inside:
                r = gg * r + (ONE - gg) * cval(j, side)
            return r

        def cval(j, side):
            if cv.ndim == 0:
                return cv.at()
            if cv.ndim == 1:
                return cv.at(const(side)) if cv.shape[0].cval() == 2 else cv.at(ZERO)
            return cv.at(const(j if cv.shape[0].cval() != 1 else 0), const(side))
        return Arr(sh, g, x.kind)
    if k:
        raise Undecided("pad keyword")

    def src(j, i):
        """source index for padded index i (already shifted)"""
        n = nsh[j]
        lo = mk_ge(i)
        lc = lo.cval()
        hi = mk_ge(n - 1 - i)
        hc = hi.cval()
        if lc == 1 and hc == 1:
            return i
        if lc is None or hc is None:
            raise Undecided("pad index")
        if m == "edge":
            return ZERO if lc == 0 else n - 1
        if m == "reflect":
            return -i if lc == 0 else 2 * (n - 1) - i
        if m == "symmetric":
            return -i - 1 if lc == 0 else 2 * n - 1 - i
        if m == "wrap":
            return n + i if lc == 0 else i - n
        raise Undecided("pad mode " + m)
    if m not in ("edge", "reflect", "symmetric", "wrap"):
        return opaque(I, "pad:" + m, [x, as_key_pads(pads)], sh, x.kind)
    return Arr(sh, lambda idx: f(tuple(src(j, idx[j] - pads[j][0]) for j in range(len(nsh)))), x.kind)


def as_key_pads(pads):
    return Seq([Num(p, "i") for q in pads for p in q], True)


def pad_width(I, pw, nd):
    if isinstance(pw, Num):
        return [(pw.e, pw.e)] * nd
    if isinstance(pw, Arr):
        c = pw.shape[0].cval()
        if pw.ndim == 1 and c == 2:
            return [(pw.at(ZERO), pw.at(ONE))] * nd
        raise Undecided("pad width")
    if isinstance(pw, Seq):
        if all(isinstance(z, Num) for z in pw.items):
            if len(pw.items) == 1:
                return [(pw.items[0].e,) * 2] * nd
            return [(pw.items[0].e, pw.items[1].e)] * nd
        out = []
        for z in pw.items:
            if isinstance(z, Arr):
                out.append((z.at(ZERO), z.at(ONE)))
            elif len(z.items) == 1:
                out.append((z.items[0].e,) * 2)
            else:
                out.append((z.items[0].e, z.items[1].e))
        if len(out) == 1:
            out = out * nd
        if len(out) != nd:
            raise PyRaise("ValueError", None, I.where())
        return out
    raise Undecided("pad width")


@model("numpy.take")
def _(I, a, k):
    x, ii, ax = bind(a, k, "a", "indices", ("axis", NONE))
    x = as_arr(I, x)
    if is_none(ax):
        return index(I, ravel(I, x), [ii])
    j = iconst(ax) % x.ndim
    return index(I, x, [FULL] * j + [ii])


@model("numpy.shape")
def _(I, a, k):
    if isinstance(a[0], Num):
        return Seq([], True)
    return Seq([Num(s, "i") for s in as_arr(I, a[0]).shape], True)


@model("numpy.size")
def _(I, a, k):
    return N.arr_attr(I, as_arr(I, a[0]), "size")


@model("numpy.ndim")
def _(I, a, k):
    return pyint(as_arr(I, a[0]).ndim)


@model("numpy.ndenumerate")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim != 1:
        raise Undecided("ndenumerate")
    f = x.snap()
    return SymSeq(x.shape[0], lambda i: Seq([Seq([Num(i, "i")], True), Num(f((i,)), x.kind, True)], True))


@model("numpy.meshgrid")
def _(I, a, k):
    raise Undecided("meshgrid")


@model("numpy.delete", "numpy.insert")
def _(I, a, k):
    raise Undecided("delete")


@model("numpy.sort", "numpy.unique")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim != 1 or k or len(a) > 1:
        raise Undecided("sort")
    if const_len(x):
        xs = vals(x)
        o = sort_order(xs)
        if o is not None:
            return listed(I, [xs[q] for q in o], x.kind)
    return opaque(I, "sort", [x], x.shape, x.kind)


def _unique(I, a, k):
    x = as_arr(I, a[0])
    if k or len(a) > 1:
        raise Undecided("unique")
    if x.ndim == 1:
        e = x.snap()((atom_expr(X.sym("_p0", integer=True, idx=True)),))
        if not any(str(v.args[0]) == "_p0" for v in e.deps):
            return Arr((ONE,), lambda i: e, x.kind)      # all entries equal
    key = digest(x)
    n = N.closed("nunique", key, integer=True, sign=2)()
    return opaque(I, "unique", [x], (n,), x.kind)


MODELS["numpy.unique"] = _unique


@model("numpy.argsort")
def _(I, a, k):
    x = as_arr(I, a[0])
    kk = {q: v for q, v in k.items() if q not in ("kind", "axis")}
    if x.ndim != 1 or kk:
        raise Undecided("argsort")
    if const_len(x):
        o = sort_order(vals(x))
        if o is not None:
            return listed(I, [const(q) for q in o], "i")
    return opaque(I, "argsort", [x], x.shape, "i", sign=1)


@model("numpy.searchsorted")
def _(I, a, k):
    x, v, side = bind(a, k, "a", "v", ("side", Str("left")))
    x, va = as_arr(I, x), as_arr(I, v)
    if const_len(x, va) and isinstance(side, Str):
        xs = vals(x)
        rows = [count_below(xs, z, side.s) for z in vals(va)]
        if None not in rows:
            return listed(I, [const(q) for q in rows], "i")
    key = (digest(x), digest(side))
    f = va.snap()
    # element-wise: congruent on the searched value
    def g(idx):
        tok = X.opaque_token("searchsorted", key, integer=True, sign=1)
        return X.elem(X.opaque_token("ss", (key, f(idx)), integer=True, sign=1)) if not f(idx).deps else _ssfn(key, f(idx))
    return wrap(I, Arr(va.shape, g, "i"))


def _ssfn(key, e):
    return X.fn("searchsorted", e, key, integer=True, sign=1)


@model("numpy.digitize")
def _(I, a, k):
    raise Undecided("digitize")


@model("numpy.interp")
def _(I, a, k):
    x, xp, fp, l, r = bind(a, k, "x", "xp", "fp", ("left", NONE), ("right", NONE))
    raise Undecided("np.interp")


@model("numpy.unwrap")
def _(I, a, k):
    x, dc, ax = bind(a, k, "p", ("discont", NONE), ("axis", num(-1)))
    x = as_arr(I, x)
    j = iconst(ax) % x.ndim
    if x.ndim == 1:
        return opaque(I, "unwrap", [x], x.shape)
    f = x.snap()
    n = x.shape[j]

    def g(idx):
        row = Arr((n,), lambda q: f(idx[:j] + (q[0],) + idx[j + 1:]), x.kind)
        o = opaque(I, "unwrap", [row], (n,))
        return o.at(idx[j])
    return Arr(x.shape, g, "f")


@model("numpy.histogram")
def _(I, a, k):
    x, b = bind(a, k, "a", ("bins", num(10)))
    x = as_arr(I, x)
    if isinstance(b, Num):
        raise Undecided("histogram")
    b = as_arr(I, b)
    if x.ndim != 1:
        x = MODELS["numpy.ravel"](I, [x], {})
    # every value adds one to the bin that contains it
    xs, bs = x.snap(), b.snap()
    h = Arr((b.shape[0] - 1,), lambda j: D.asum(ZERO, x.shape[0], lambda r: X.fn(
        "inbin", xs((r,)), bs((j[0],)), bs((j[0] + 1,)), D.mk_eq0(j[0] + 2 - b.shape[0]), integer=True, sign=1)), "i")
    return Seq([h, b], True)


# ---------------------------------------------------------------- polynomials

@model("numpy.poly")
def _(I, a, k):
    x = as_arr(I, a[0])
    return opaque(I, "poly", [x], (x.shape[0] + 1,), "f")


@model("numpy.roots")
def _(I, a, k):
    x = as_arr(I, a[0])
    return opaque(I, "roots", [x], (x.shape[0] - 1,), "c")


@model("numpy.polyval")
def _(I, a, k):
    p, x = bind(a, k, "p", "x")
    p = as_arr(I, p)
    n = p.shape[0]
    f = p.snap()
    return ew1(I, x, lambda e: D.asum(ZERO, n, lambda i: X.mul(f((i,)), X.power(e, n - 1 - i))), lambda q: kmax(q, p.kind))


@model("numpy.polyder")
def _(I, a, k):
    p = as_arr(I, a[0])
    n = p.shape[0]
    f = p.snap()
    return Arr((n - 1,), lambda idx: f(idx) * (n - 1 - idx[0]), p.kind)


@model("numpy.polymul")
def _(I, a, k):
    return MODELS["numpy.convolve"](I, a, k)


@model("numpy.convolve", "scipy.signal.convolve", "scipy.signal.fftconvolve")
def _(I, a, k):
    x, y, mode, m2 = bind(a, k, "a", "v", ("mode", Str("full")), ("method", NONE))
    return convolve(I, as_arr(I, x), as_arr(I, y), mode)


MODELS["scipy.signal.convolve"] = lambda I, a, k: convolve(
    I, *(lambda x, y, m, q: (as_arr(I, x), as_arr(I, y), m))(*bind(a, k, "in1", "in2", ("mode", Str("full")), ("method", NONE))))


def convolve(I, x, y, mode):
    if x.ndim != y.ndim or x.ndim not in (1, 2):
        if x.ndim != y.ndim:
            raise PyRaise("ValueError", None, I.where())
        raise Undecided("convolve")
    if not isinstance(mode, Str) or mode.s is None:
        raise Undecided("convolve mode")
    m = mode.s
    fx, fy = x.snap(), y.snap()
    nd = x.ndim

    def full_at(pos):
        """sum over q of x[q] y[pos-q]"""
        def rec(j, ix, iy):
            if j == nd:
                return X.mul(fx(ix), fy(iy))
            # q from max(0, pos-ny+1) to min(nx-1,pos)
            nx, ny = x.shape[j], y.shape[j]
            # iterate over the (structurally) smaller operand with range guards decided by region splitting
            lo = D.mk_max(ZERO, pos[j] - ny + 1)
            hi = D.mk_min(nx, pos[j] + 1)
            return D.asum(lo, hi, lambda q: rec(j + 1, ix + (q,), iy + (pos[j] - q,)))
        return rec(0, (), ())
    if m == "full":
        sh = [p + q - 1 for p, q in zip(x.shape, y.shape)]
        return Arr(sh, full_at, N.k_arith(x.kind, y.kind))
    if m == "same":
        sh = list(x.shape)
        st = [D.ifloor((q - 1) / 2) for p, q in zip(x.shape, y.shape)]
        return Arr(sh, lambda idx: full_at(tuple(i + s for i, s in zip(idx, st))), N.k_arith(x.kind, y.kind))
    if m == "valid":
        sh, st = [], []
        big = None
        for p, q in zip(x.shape, y.shape):
            ge = ctx().decide_ge0(p - q)
            if ge is None:
                raise Undecided("valid convolution of undecided sizes")
            if ge:
                sh.append(p - q + 1)
                st.append(q - 1)
            else:
                sh.append(q - p + 1)
                st.append(p - 1)
        return Arr(sh, lambda idx: full_at(tuple(i + s for i, s in zip(idx, st))), N.k_arith(x.kind, y.kind))
    raise PyRaise("ValueError", None, I.where())


@model("numpy.correlate")
def _(I, a, k):
    raise Undecided("correlate")


@model("numpy.polynomial.polynomial.polysub", "numpy.polynomial.polynomial.polyadd")
def _(I, a, k):
    return _polyadd(I, as_arr(I, a[0]), as_arr(I, a[1]), -1)


MODELS["numpy.polynomial.polynomial.polyadd"] = lambda I, a, k: _polyadd(I, as_arr(I, a[0]), as_arr(I, a[1]), 1)


def _polyadd(I, x, y, s):
    n, m = x.shape[0], y.shape[0]
    big = n if D.require(n - m) else m
    fx, fy = x.snap(), y.snap()

    def g(idx):
        i = idx[0]
        a = mk_ge(n - 1 - i)
        b = mk_ge(m - 1 - i)
        r = ZERO
        if a.cval() != 0:
            r = r + a * fx(idx)
        if b.cval() != 0:
            r = r + s * b * fy(idx)
        return r
    return Arr((big,), g, kmax(x.kind, y.kind))


# ---------------------------------------------------------------- linear algebra (uninterpreted)

@model("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.linalg.pinv")
def _(I, a, k):
    x = as_arr(I, a[0])
    if x.ndim != 2:
        raise PyRaise("ValueError", None, I.where())
    return inverse(I, x)


def inverse(I, x):
    if x.ndim == 2 and x.size_const() == 1:
        e = x.at(ZERO, ZERO)
        return Arr((1, 1), lambda idx: ONE / e, "f", x.cls)
    if is_diagonal(x):
        f = x.snap()
        return wrap(I, Arr(x.shape, lambda idx: _dg(mk_eq0(idx[0] - idx[1]), lambda: ONE / f((idx[0], idx[0]))), kmax(x.kind, "f"), x.cls))
    sym = is_symmetric(x)
    r = opaque(I, "inv", [x], (x.shape[1], x.shape[0]), kmax(x.kind, "f"), **({"sym": ((0, 1),)} if sym else {}))
    return Arr(r.shape, r.snap(), r.kind, x.cls) if x.cls == "mat" else r


def _dg(e, v):
    return ZERO if e.cval() == 0 else X.mul(e, v())


def is_diagonal(x):
    """every entry carries the factor [row == column]"""
    if not same_dim(x.shape[0], x.shape[1]):
        return False
    vs = [X.fresh_idx("q"), X.fresh_idx("q")]
    f = x.snap()
    one = lambda box: not ((box[1][0] - atom_expr(vs[0])).t or (box[1][1] - box[1][0] - 1).t) or not (
        (box[0][0] - atom_expr(vs[1])).t or (box[0][1] - box[0][0] - 1).t) or not (
        (box[0][0] - box[1][0]).t or (box[0][1] - box[1][1]).t or (box[0][1] - box[0][0] - 1).t)
    try:
        regs = N.regions(vs, x.shape, lambda box: f((atom_expr(vs[0]), atom_expr(vs[1]))))
    except (Undecided, X.NeedSplit):
        return False
    return any(e.t for _, e in regs) and all(not N.pin(e, vs, box).t or one(box) for box, e in regs)


def is_symmetric(x):
    if x.ndim != 2 or not same_dim(x.shape[0], x.shape[1]):
        return False
    vs = [X.fresh_idx("q"), X.fresh_idx("q")]
    f = x.snap()
    try:
        regs = N.regions(vs, x.shape, lambda box: f((atom_expr(vs[0]), atom_expr(vs[1]))) - f((atom_expr(vs[1]), atom_expr(vs[0]))))
    except (Undecided, X.NeedSplit):
        return False
    return all(not N.pin(e, vs, box).t for box, e in regs)


@model("numpy.linalg.solve", "scipy.linalg.solve")
def _(I, a, k):
    A, b = as_arr(I, a[0]), as_arr(I, a[1])
    if A.ndim != 2 or dims_differ(A.shape[0], b.shape[0]):
        raise PyRaise("ValueError", None, I.where())
    return dot(I, inverse(I, A), b)


@model("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def _(I, a, k):
    A, b = as_arr(I, a[0]), as_arr(I, a[1])
    if A.ndim != 2 or dims_differ(A.shape[0], b.shape[0]):
        raise PyRaise("ValueError", None, I.where())
    if same_dim(A.shape[0], A.shape[1]):
        x = dot(I, inverse(I, A), b)
    else:
        # the minimiser depends on (A^H A, A^H b) only
        At = transpose(I, A)
        if A.kind == "c":
            At = ew1(I, At, X.conj, lambda q: q)
        x = dot(I, inverse(I, dot(I, At, A)), dot(I, At, b))
    return Seq([x, Top("residuals"), Top("rank"), Top("singular values")], True)


@model("numpy.linalg.svd")
def _(I, a, k):
    x = as_arr(I, a[0])
    fm = k.get("full_matrices", B(True))
    m, n = x.shape
    if I.truth(fm) is True:
        if same_dim(m, n):
            r = m
        else:
            raise Undecided("svd")
        u, s, v = (m, m), (r,), (n, n)
    else:
        r = D.mk_min(m, n)
        u, s, v = (m, r), (r,), (r, n)
    return Seq([opaque(I, "svd_u", [x], u), opaque(I, "svd_s", [x], s, sign=1), opaque(I, "svd_v", [x], v)], True)


@model("numpy.linalg.eigvals", "numpy.linalg.eigvalsh")
def _(I, a, k):
    x = as_arr(I, a[0])
    return opaque(I, "eigvals", [x], (x.shape[0],), "c")


@model("numpy.linalg.cholesky")
def _(I, a, k):
    x = as_arr(I, a[0])
    return opaque(I, "cholesky", [x], x.shape)


@model("numpy.linalg.norm")
def _(I, a, k):
    x, o, ax = bind(a, k, "x", ("ord", NONE), ("axis", NONE))
    x = as_arr(I, x)
    if x.ndim == 1 and (is_none(o) or (isinstance(o, Num) and o.e.cval() == 2)):
        f = x.snap()
        return Num(X.sqrt(D.asum(ZERO, x.shape[0], lambda i: X.mul(f((i,)), X.conj(f((i,)))))), "f", True)
    return opaque(I, "norm", [x, o], (), sign=1)


@model("numpy.linalg.matrix_rank", "numpy.linalg.det")
def _(I, a, k):
    return opaque(I, "det", [as_arr(I, a[0])], ())


@model("scipy.linalg.toeplitz")
def _(I, a, k):
    c, r = bind(a, k, "c", ("r", NONE))
    c = ravel(I, as_arr(I, c))
    r = c if is_none(r) else ravel(I, as_arr(I, r))
    fc, fr = c.snap(), r.snap()

    def g(idx):
        d = idx[0] - idx[1]
        ge = mk_ge(d)
        v = ge.cval()
        if v == 1:
            return fc((d,))
        if v == 0:
            return fr((-d,))
        return ge * fc((d,)) + (ONE - ge) * fr((-d,))
    return Arr((c.shape[0], r.shape[0]), g, kmax(c.kind, r.kind))


# ---------------------------------------------------------------- sparse

@model("scipy.sparse.diags")
def _(I, a, k):
    ds, offs, sh, fmt = bind(a, k, "diagonals", ("offsets", num(0)), ("shape", NONE), ("format", NONE))
    if isinstance(offs, Num):
        offs = Seq([offs], False)
        if isinstance(ds, Arr) and ds.ndim == 1:
            ds = Seq([ds], False)
    dl = [as_arr(I, z) for z in I.iter_items(ds)[1]]
    ol = [z.e for z in I.iter_items(offs)[1]]
    if is_none(sh):
        o0 = ol[0]
        n = dl[0].shape[0] + X.absval(o0)
        shape = (n, n)
    else:
        shape = shape_arg(I, sh)
    return make_dia(I, dl, ol, shape)


def make_dia(I, dl, ol, shape):
    fs = [d.snap() for d in dl]
    ns = []
    for d, o in zip(dl, ol):
        ge = mk_ge(o).cval()
        if ge is None:
            raise Undecided("diagonal offset")
        ln = shape[0] - (o if ge else -o)
        if not same_dim(ln, d.shape[0]):
            if d.shape[0].cval() == 1:
                pass
            elif dims_differ(ln, d.shape[0]):
                raise PyRaise("ValueError", None, I.where())
            else:
                raise Undecided("diagonal length")
        ns.append((ge, ln))

    def g(idx):
        i, j = idx
        r = ZERO
        for f, o, (ge, ln), d in zip(fs, ol, ns, dl):
            e = mk_eq0(j - i - o)
            if e.cval() == 0:
                continue
            p = i if ge else j
            r = r + e * f((ZERO if d.shape[0].cval() == 1 and ln.cval() != 1 else p,))
        return r
    return Arr(shape, g, kmax(*[d.kind for d in dl]), "dia", extra={"offs": ol, "diags": dl})


@model("scipy.sparse.eye", "scipy.sparse.identity")
def _(I, a, k):
    n = shape_arg(I, a[0])[0]
    return Arr((n, n), lambda idx: mk_eq0(idx[0] - idx[1]), "f", "dia",
               extra={"offs": [ZERO], "diags": [Arr((n,), lambda idx: ONE, "f")]})


@model("scipy.sparse.issparse", "scipy.sparse.isspmatrix")
def _(I, a, k):
    return B(isinstance(a[0], Arr) and a[0].cls == "dia")


# ---------------------------------------------------------------- fft

@model("numpy.fft.rfft", "scipy.fft.rfft")
def _(I, a, k):
    x, n = bind(a, k, "a", ("n", NONE))
    x = as_arr(I, x)
    if x.ndim != 1:
        raise Undecided("rfft of matrix")
    x, n = fit_len(I, x, n)
    f = x.snap()
    m = D.ifloor(n / 2) + 1
    return Arr((m,), lambda idx: D.asum(ZERO, n, lambda t: X.mul(f((t,)), X.expi(-2 * X.EPI * idx[0] * t / n))), "c")


def fit_len(I, x, n):
    if is_none(n):
        return x, x.shape[0]
    n = n.e
    if same_dim(n, x.shape[0]):
        return x, n
    f = x.snap()
    L = x.shape[0]

    def g(idx):
        e = mk_ge(L - 1 - idx[0])
        c = e.cval()
        if c == 0:
            return ZERO
        return f(idx) if c == 1 else e * f(idx)
    return Arr((n,), g, x.kind), n


@model("numpy.fft.fft", "scipy.fft.fft")
def _(I, a, k):
    x, n = bind(a, k, "a", ("n", NONE))
    x = as_arr(I, x)
    if x.ndim != 1:
        raise Undecided("fft of matrix")
    x, n = fit_len(I, x, n)
    f = x.snap()
    return Arr((n,), lambda idx: D.asum(ZERO, n, lambda t: X.mul(f((t,)), X.expi(-2 * X.EPI * idx[0] * t / n))), "c")


@model("numpy.fft.ifft")
def _(I, a, k):
    x, n = bind(a, k, "a", ("n", NONE))
    x = as_arr(I, x)
    x, n = fit_len(I, x, n)
    f = x.snap()
    return Arr((n,), lambda idx: D.asum(ZERO, n, lambda t: X.mul(f((t,)), X.expi(2 * X.EPI * idx[0] * t / n))) / n, "c")


@model("numpy.fft.irfft", "scipy.fft.irfft")
def _(I, a, k):
    x, n = bind(a, k, "a", ("n", NONE))
    x = as_arr(I, x)
    if x.ndim != 1:
        raise Undecided("irfft of matrix")
    m = x.shape[0]
    n = 2 * (m - 1) if is_none(n) else n.e
    f0 = x.snap()

    def f(i):
        e = mk_ge(m - 1 - i)
        c = e.cval()
        if c == 0:
            return ZERO
        return f0((i,)) if c == 1 else e * f0((i,))
    par = D.imod(n, const(2)).cval()
    if par is None:
        raise Undecided("irfft of undecided parity")
    h = D.ifloor(n / 2)

    def g(idx):
        t = idx[0]
        r = X.real(f(ZERO))

        def term(q):
            w = X.expi(2 * X.EPI * q * t / n)
            z = X.mul(f(q), w)
            return z + X.conj(z)
        if par == 0:
            r = r + D.asum(ONE, h, term)
            r = r + X.real(f(h)) * X.expi(X.EPI * t)
        else:
            r = r + D.asum(ONE, h + 1, term)
        return r / n
    return Arr((n,), g, "f")


@model("numpy.fft.rfftfreq")
def _(I, a, k):
    n, d = bind(a, k, "n", ("d", num(1)))
    return Arr((D.ifloor(n.e / 2) + 1,), lambda idx: idx[0] / (n.e * d.e), "f")


@model("numpy.fft.fftfreq")
def _(I, a, k):
    raise Undecided("fftfreq")


# ---------------------------------------------------------------- signal processing

def is_one(I, a):
    """denominator [1.0]"""
    if a.ndim == 0:
        return a.at().cval() == 1
    return a.ndim == 1 and a.shape[0].cval() == 1 and a.at(ZERO).cval() == 1


@model("scipy.signal.lfilter")
def _(I, a, k):
    b, aa, x, ax, zi = bind(a, k, "b", "a", "x", ("axis", num(-1)), ("zi", NONE))
    if any(isinstance(v, Top) for v in (b, aa, x, zi)):
        return Top("unknown filter argument")
    b, aa, x = up1(I, as_arr(I, b)), up1(I, as_arr(I, aa)), as_arr(I, x)
    if x.ndim > 1 and iconst(ax) % x.ndim == x.ndim - 1:
        f = x.snap()
        lead = x.shape[:-1]
        n = x.shape[-1]
        if not is_none(zi):
            raise Undecided("lfilter with zi on matrix")

        def row(pre):
            return MODELS["scipy.signal.lfilter"](I, [b, aa, Arr((n,), lambda j: f(pre + (j[0],)), x.kind)], {})
        return Arr(x.shape, lambda idx: row(idx[:-1]).at(idx[-1]), kmax(x.kind, b.kind, "f"))
    if x.ndim != 1:
        raise Undecided("lfilter of matrix")
    fir = is_one(I, aa)
    if aa.shape[0].cval() == 1 and not fir:
        a0 = aa.at(ZERO)
        b = ew1(I, b, lambda e: e / a0, KF)
        fir = True
    fb, fx = b.snap(), x.snap()
    L = b.shape[0]
    kd = kmax(x.kind, b.kind, aa.kind, "f")
    if fir:
        fz = None if is_none(zi) else as_arr(I, zi).snap()

        def g(idx):
            n = idx[0]
            up = D.mk_min(L, n + 1)
            r = D.asum(ZERO, up, lambda q: X.mul(fb((q,)), fx((n - q,))))
            if fz is not None:
                inz = mk_ge(L - 2 - n)
                c = inz.cval()
                if c == 1:
                    r = r + fz((n,))
                elif c is None:
                    r = r + inz * fz((n,))
            return r
        y = Arr(x.shape, g, kd)
        if is_none(zi):
            return y
        return Seq([y, Top("final filter state")], True)
    small = [v.shape[0].cval() for v in (b, aa, x)]
    if is_none(zi) and all(z is not None for z in small) and small[0] <= 4 and small[1] <= 4 and small[2] <= 5:
        # short signal: the recursion itself
        nb, na, n = map(int, small)
        fa, out = aa.snap(), []
        a0 = fa((ZERO,))
        for t in range(n):
            v = ZERO
            for q in range(min(nb, t + 1)):
                v = v + X.mul(fb((const(q),)), fx((const(t - q),)))
            for q in range(1, min(na, t + 1)):
                v = v - X.mul(fa((const(q),)), out[t - q])
            out.append(v if a0.cval() == 1 else v / a0)
        return Arr(x.shape, lambda idx: D.select(idx[0], out), kd)
    # recursive filter: linear operator determined by (b, a)
    args = [b, aa, x] + ([] if is_none(zi) else [zi])
    y = opaque(I, "lfilter", args, x.shape, kd)
    if is_none(zi):
        return y
    return Seq([y, opaque(I, "lfilter_zf", args, as_arr(I, zi).shape, kd)], True)


@model("scipy.signal.lfilter_zi")
def _(I, a, k):
    b, aa = bind(a, k, "b", "a")
    b, aa = up1(I, as_arr(I, b)), up1(I, as_arr(I, aa))
    if is_one(I, aa):
        f = b.snap()
        L = b.shape[0]
        return Arr((L - 1,), lambda idx: D.asum(idx[0] + 1, L, lambda q: f((q,))), "f")
    n, m = b.shape[0], aa.shape[0]
    return opaque(I, "lfilter_zi", [b, aa], (D.mk_max(n, m) - 1,))


@model("scipy.signal.freqz")
def _(I, a, k):
    b, aa, w, whole = bind(a, k, "b", ("a", num(1)), ("worN", num(512)), ("whole", B(False)))
    b, aa = up1(I, as_arr(I, b)), up1(I, as_arr(I, aa))
    if isinstance(w, Num):
        raise Undecided("freqz on default grid")
    if b.ndim == 2 and b.shape[1].cval() == 1:
        b = ravel(I, b)
    if b.ndim != 1 or aa.ndim != 1:
        raise Undecided("freqz of matrix")
    w = as_arr(I, w)
    fb, fa, fw = b.snap(), aa.snap(), w.snap()

    def pol(f, n, th):
        return D.asum(ZERO, n, lambda q: X.mul(f((q,)), X.expi(-th * q)))

    def g(idx):
        th = fw(idx)
        return pol(fb, b.shape[0], th) / pol(fa, aa.shape[0], th)
    return Seq([w, Arr(w.shape, g, "c")], True)


def _opsig(name, outs, argn=None):
    def f(I, a, k):
        args = [z for z in a] + [z for q, z in sorted(k.items())]
        key = tuple([digest(z) for z in args] + [tuple(sorted(k))])
        res = []
        for j, (nm, kd) in enumerate(outs):
            n = X.elem(X.opaque_token(name + "_len_" + nm, key, integer=True, sign=2))
            tok = X.opaque_token(name + "_" + nm, key, real=kd != "c")
            res.append(Arr((n,), (lambda tok: lambda idx: X.elem(tok, *idx))(tok), kd))
        return Seq(res, True) if len(res) > 1 else res[0]
    MODELS[name] = f


_opsig("scipy.signal.residue", [("r", "c"), ("p", "c"), ("k", "c")])
_opsig("scipy.signal.invres", [("b", "c"), ("a", "c")])
_opsig("scipy.signal.periodogram", [("f", "f"), ("P", "f")])


@model("scipy.signal.firwin")
def _(I, a, k):
    n = a[0]
    if "window" in k or len(a) > 2:
        pass
    args = list(a[1:]) + [Str(q) if False else v for q, v in sorted(k.items())]
    keyargs = Seq([Str(q) for q in sorted(k)], True)
    return opaque(I, "firwin", [n] + args + [keyargs], (n.e,))


@model("scipy.signal.tf2ss", "scipy.signal.lti_conversion.tf2ss")
def _(I, a, k):
    b, aa = as_arr(I, a[0]), as_arr(I, a[1])
    b, aa = up1(I, b), up1(I, aa)
    p = aa.shape[0] - 1
    fa, fb = aa.snap(), b.snap()
    a0 = fa((ZERO,))
    if dims_differ(b.shape[0], aa.shape[0]) and D.require(b.shape[0] - aa.shape[0]):
        raise Undecided("improper transfer function")
    off = aa.shape[0] - b.shape[0]

    def bn(i):
        if not off.t:
            return fb((i,)) / a0
        g = mk_ge(i - off)
        c = g.cval()
        return fb((i - off,)) / a0 if c == 1 else (ZERO if c == 0 else g * fb((i - off,)) / a0)

    def A(idx):
        i, j = idx
        first = mk_eq0(i)
        c = first.cval()
        if c == 1:
            return -fa((j + 1,)) / a0
        sub = mk_eq0(i - 1 - j)
        if c == 0:
            return sub
        return first * (-fa((j + 1,)) / a0) + (ONE - first) * sub
    Am = Arr((p, p), A, "f")
    Bm = Arr((p, 1), lambda idx: mk_eq0(idx[0]), "f")
    Cm = Arr((1, p), lambda idx: bn(idx[1] + 1) - fa((idx[1] + 1,)) / a0 * bn(ZERO), "f")
    Dm = Arr((1, 1), lambda idx: bn(ZERO), "f")
    return Seq([Am, Bm, Cm, Dm], True)


@model("scipy.special.comb", "scipy.special.binom", "math.comb")
def _(I, a, k):
    n, r = a[0], a[1]
    if isinstance(n, Num) and isinstance(r, Num) and n.e.cval() is not None and r.e.cval() is not None:
        return Num(const(math.comb(int(n.e.cval()), int(r.e.cval()))), "f")
    return ew2(I, n, r, lambda p, q: X.fn("comb", p, q), lambda p, q: "f")


@model("math.factorial", "scipy.special.factorial")
def _(I, a, k):
    c = a[0].e.cval()
    if c is not None:
        return Num(const(math.factorial(int(c))), "i")
    return Num(X.fn("factorial", a[0].e, integer=True, sign=2), "i")


# ---------------------------------------------------------------- interpolation

def gt(a, b):
    """constant truth of a > b, or None"""
    v = D.mk_pos(a - b).cval()
    return None if v is None else bool(v)


def const_len(*arrs):
    return all(z.ndim == 1 and z.shape[0].cval() is not None and z.shape[0].cval() <= 24 for z in arrs)


def count_below(xs, v, side):
    """position of v among the sorted values xs, where every comparison is decided; None otherwise"""
    n = 0
    for z in xs:
        c = gt(v, z) if side == "left" else gt(z, v)
        if c is None:
            return None
        n += c if side == "left" else not c
    return n


def vals(x):
    return [x.at(const(q)) for q in range(int(x.shape[0].cval()))]


def listed(I, rows, kind):
    return Arr((const(len(rows)),), lambda i: D.select(i[0], rows), kind)


@model("scipy.interpolate.interp1d")
def _(I, a, k):
    names = ["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"]
    kw = dict(zip(names, a))
    kw.update(k)
    kw.setdefault("kind", Str("linear"))
    kw.setdefault("bounds_error", NONE)
    kw.setdefault("fill_value", Num(atom_expr(X.NAN), "f"))
    kw.setdefault("assume_sorted", B(False))
    x, y = as_arr(I, kw["x"]), as_arr(I, kw["y"])
    if y.ndim == 1 and dims_differ(x.shape[0], y.shape[0]):
        raise PyRaise("ValueError", None, I.where())
    if y.ndim != 1 or "axis" in kw:
        raise Undecided("interp1d of matrix")
    keys = tuple(digest(kw[q]) for q in ("kind", "bounds_error", "fill_value", "assume_sorted"))
    if isinstance(kw["kind"], Str) and kw["kind"].s not in ("linear", "nearest", "previous", "next", "zero", "slinear", "quadratic", "cubic", "nearest-up"):
        raise PyRaise("NotImplementedError", None, I.where())
    fillv, be = kw["fill_value"], kw["bounds_error"]
    extra = isinstance(fillv, Str)
    if extra and fillv.s != "extrapolate":
        raise PyRaise("ValueError", None, I.where())
    if extra and isinstance(be, Num) and be.e.cval() == 1:
        raise PyRaise("ValueError", None, I.where())
    check = not extra if be is NONE else (isinstance(be, Num) and be.e.cval() == 1)
    fills = None
    if isinstance(fillv, Seq) and len(fillv.items) == 2:
        fills = [as_arr(I, z) for z in fillv.items]
    elif isinstance(fillv, Num):
        fills = [as_arr(I, fillv)] * 2
    if fills and any(z.ndim for z in fills):
        fills = None

    data = opaque(I, "interpolant", [x, y], ()).e

    def call(I2, args, kw2):
        t = as_arr(I2, args[0])
        f = t.snap()
        r = explicit(I2, t)
        if r is not None:
            return wrap(I2, r)
        return wrap(I2, Arr(t.shape, lambda idx: X.fn("interp1d", f(idx), data, keys), "f"))

    def explicit(I2, t):
        if not const_len(x, y, t) or not isinstance(kw["kind"], Str) or not (extra or fills):
            return None
        xs, ys, ts = vals(x), vals(y), vals(t)
        if not (isinstance(kw["assume_sorted"], Num) and kw["assume_sorted"].e.cval() == 1):
            o = sort_order(xs)
            if o is None:
                return None
            xs, ys = [xs[q] for q in o], [ys[q] for q in o]
        n, kd = len(xs), kw["kind"].s
        rows = []
        for v in ts:
            below, above = gt(xs[0], v), gt(v, xs[-1])
            if below is None or above is None:
                return None
            if (below or above) and check:
                raise PyRaise("ValueError", None, I2.where())
            if (below or above) and not extra:
                rows.append(fills[0].at() if below else fills[1].at())
                continue
            if kd in ("linear", "slinear"):
                m = count_below(xs, v, "left")
                if m is None or n < 2:
                    return None
                m = min(max(m, 1), n - 1)
                rows.append((ys[m] - ys[m - 1]) / (xs[m] - xs[m - 1]) * (v - xs[m - 1]) + ys[m - 1])
            elif kd in ("nearest", "nearest-up"):
                m = count_below([(p + q) / const(2) for p, q in zip(xs, xs[1:])], v, "left" if kd == "nearest" else "right")
                if m is None:
                    return None
                rows.append(ys[min(m, n - 1)])
            elif kd in ("previous", "zero"):
                m = count_below(xs, v, "right")
                if m is None:
                    return None
                rows.append(ys[min(max(m, 1), n) - 1])
            elif kd == "next":
                m = count_below(xs, v, "left")
                if m is None:
                    return None
                rows.append(ys[min(m, n - 1)])
            else:
                return None
        return listed(I2, rows, "c" if y.kind == "c" else "f")
    o = Model(call, "interp1d")
    o.interp = kw
    return o


def sort_order(xs):
    """stable sorting permutation where every comparison is decided; None otherwise"""
    o = []
    for q in range(len(xs)):
        k = len(o)
        while k > 0:
            c = gt(xs[o[k - 1]], xs[q])
            if c is None:
                return None
            if not c:
                break
            k -= 1
        o.insert(k, q)
    return o


# ---------------------------------------------------------------- random numbers

def draw(I, kind, shape, key=(), rows=False):
    """Fresh independent draws.  For constant sizes the values of one distribution form one stream in the order of
    consumption; otherwise a draw is identified by its ordinal, the surrounding loop indices and its own indices."""
    shape = tuple(shape)
    I.event("draw", "%s draw of shape %s" % (kind, shape), key=kind)
    cs = [z.cval() for z in shape]
    if not I.loops and None not in cs:
        k = (kind, key, "stream")
        off = I.draws.get(k, 0)
        tok = X.opaque_token("draw:" + kind, k, rand=True)
        head = shape[:-1] if rows else shape
        n = 1
        for c in (cs[:-1] if rows else cs):
            n *= int(c)
        I.draws[k] = off + n

        def f(idx):
            p = ZERO
            for z, s in zip(idx, head):
                p = p * s + z
            return X.elem(tok, p + off, *([idx[-1]] if rows else []))
    else:
        k = (kind, key, len(I.loops))
        n = I.draws.get(k, 0)
        I.draws[k] = n + 1
        tok = X.opaque_token("draw:" + kind, (kind, key, n), rand=True)
        big = [j for j, c in enumerate(cs) if c != 1]
        outer = tuple(I.loops)

        def f(idx):
            return X.elem(tok, *(outer + tuple(idx[j] for j in big)))
    tok.rand = True
    if not shape:
        return Num(f(()), "f", False)
    return Arr(shape, f, "f")


def _intdims(I, args):
    out = []
    for z in args:
        if not isinstance(z, Num):
            raise Undecided("random shape")
        if z.kind not in "bi":
            raise PyRaise("TypeError", None, I.where())
        out.append(z.e)
    return tuple(out)


@model("numpy.random.randn", "numpy.random.standard_normal")
def _(I, a, k):
    if k:
        raise Undecided("randn keyword")
    return draw(I, "normal", _intdims(I, a))


def _stdnorm(I, a, k):
    s, = bind(a, k, ("size", NONE))
    return draw(I, "normal", shape_arg(I, s))


MODELS["numpy.random.standard_normal"] = _stdnorm


@model("numpy.random.rand")
def _(I, a, k):
    return draw(I, "uniform", _intdims(I, a))


@model("numpy.random.random_sample", "numpy.random.random", "numpy.random.uniform")
def _(I, a, k):
    s, = bind(a, k, ("size", NONE))
    return draw(I, "uniform", shape_arg(I, s))


def _uniform(I, a, k):
    lo, hi, s = bind(a, k, ("low", num(0)), ("high", num(1)), ("size", NONE))
    u = draw(I, "uniform", shape_arg(I, s))
    return arith(I, "Add", lo, arith(I, "Mult", arith(I, "Sub", hi, lo), u))


MODELS["numpy.random.uniform"] = _uniform


@model("numpy.random.normal")
def _(I, a, k):
    loc, sc, s = bind(a, k, ("loc", num(0)), ("scale", num(1)), ("size", NONE))
    loc, sc = as_arr(I, loc), as_arr(I, sc)
    sh = shape_arg(I, s) if not is_none(s) else bshape(I, loc.shape, sc.shape)
    z = draw(I, "normal", sh)
    return arith(I, "Add", wrap(I, loc), arith(I, "Mult", wrap(I, sc), z))


@model("numpy.random.multivariate_normal")
def _(I, a, k):
    k = {q: v for q, v in k.items() if q not in ("check_valid", "tol")}
    m, c, s = bind(a, k, "mean", "cov", ("size", NONE))
    return mvn(I, m, c, s, "mvn")


def mvn(I, m, c, s, kind):
    m, c = as_arr(I, m), as_arr(I, c)
    if m.ndim != 1 or c.ndim != 2:
        raise PyRaise("ValueError", None, I.where())
    if dims_differ(m.shape[0], c.shape[0]) or dims_differ(c.shape[0], c.shape[1]):
        raise PyRaise("ValueError", None, I.where())
    sh = shape_arg(I, s) if not is_none(s) else ()
    z = draw(I, kind, tuple(sh) + (m.shape[0],), digest(c), rows=True)
    return arith(I, "Add", m, z)


@model("scipy.stats.multivariate_normal")
def _(I, a, k):
    m, c, s = bind(a, {q: v for q, v in k.items() if q not in ("allow_singular",)}, ("mean", NONE), ("cov", NONE), ("seed", NONE))
    return Opaque("mvn", mean=m, cov=c, key=(digest(m), digest(c)))


@model("numpy.random.RandomState", "numpy.random.default_rng")
def _(I, a, k):
    return Opaque("rng", seed=a[0] if a else NONE)


@model("numpy.random.seed")
def _(I, a, k):
    I.event("seed", "global generator seeded")
    return NONE


@model("numpy.random.choice", "numpy.random.permutation", "numpy.random.shuffle", "numpy.random.randint")
def _(I, a, k):
    raise Undecided("random choice")


# ---------------------------------------------------------------- builtins

@model("builtins.len")
def _(I, a, k):
    v = a[0]
    if isinstance(v, Seq):
        return pyint(len(v.items))
    if isinstance(v, Dct):
        return pyint(len(v.d))
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise("TypeError", None, I.where())
        return Num(v.shape[0], "i")
    if isinstance(v, SymSeq):
        return Num(v.n, "i")
    if isinstance(v, Num) or is_none(v):
        raise PyRaise("TypeError", None, I.where())
    if isinstance(v, Str) and v.s is not None:
        return pyint(len(v.s))
    if isinstance(v, Opaque) and v.kind == "range":
        return Num(v.kw["seq"].n, "i")
    if isinstance(v, Inst):
        from .absint import find_method
        m = find_method(v.cls, "__len__", I)
        if m:
            return I.call_user(m, [v], {})
    if isinstance(v, Picked) and v.axis == 0:
        lo, hi = v.n
        return Num(D.asum(lo, hi, v.cond), "i")
    if isinstance(v, CondList):
        lo, hi = v.n
        return Num(D.asum(lo, hi, v.cond), "i")
    if isinstance(v, Top):
        return v
    raise Undecided("len of %s" % type(v).__name__)


@model("builtins.range")
def _(I, a, k):
    for z in a:
        if isinstance(z, Top):
            return z
        if not isinstance(z, Num):
            raise PyRaise("TypeError", None, I.where())
        if z.kind not in "bi":
            raise PyRaise("TypeError", None, I.where())
    if len(a) == 1:
        lo, hi, st = ZERO, a[0].e, ONE
    else:
        lo, hi = a[0].e, a[1].e
        st = a[2].e if len(a) > 2 else ONE
    c = st.cval()
    if c is None or c == 0:
        raise Undecided("range step")
    if c > 0:
        n = D.iceil((hi - lo) / const(c))
    else:
        n = D.iceil((lo - hi) / const(-c))
    if n.cval() is not None and n.cval() < 0:
        n = ZERO
    if n.cval() is None and ctx().decide_ge0(n) is not True:
        if ctx().decide_ge0(-n) is True:
            n = ZERO
        # else: treated as non-negative (an empty range only removes iterations)
    s = SymSeq(n, lambda i: Num(lo + i * st, "i"))
    if c == 1:
        s.lo = lo
    return s


@model("builtins.enumerate")
def _(I, a, k):
    it, start = bind(a, k, "iterable", ("start", num(0)))
    items = I.iter_items(it)
    if items is None:
        raise Undecided("enumerate")
    if items[0] == "list":
        return Seq([Seq([Num(start.e + j, "i"), v], True) for j, v in enumerate(items[1])], False)
    _, lo, hi, at = items
    return SymSeq(hi - lo, lambda i: Seq([Num(start.e + i, "i"), at(lo + i)], True))


@model("builtins.zip")
def _(I, a, k):
    its = [I.iter_items(z) for z in a]
    if any(q is None for q in its):
        raise Undecided("zip")
    if all(q[0] == "list" for q in its):
        n = min(len(q[1]) for q in its)
        return Seq([Seq([q[1][j] for q in its], True) for j in range(n)], False)
    ns = []
    gets = []
    for q in its:
        if q[0] == "list":
            ns.append(const(len(q[1])))
            lst = q[1]
            gets.append(lambda i, lst=lst: lst[int(i.cval())] if i.cval() is not None else _und())
        else:
            ns.append(q[2] - q[1])
            gets.append(lambda i, q=q: q[3](q[1] + i))
    n = ns[0]
    for m in ns[1:]:
        if not same_dim(n, m):
            n = D.mk_min(n, m)
    return SymSeq(n, lambda i: Seq([g(i) for g in gets], True))


def _und():
    raise Undecided("symbolic position in list")


@model("builtins.reversed")
def _(I, a, k):
    items = I.iter_items(a[0])
    if items[0] == "list":
        return Seq(list(reversed(items[1])), False)
    _, lo, hi, at = items
    return SymSeq(hi - lo, lambda i: at(hi - 1 - i))


@model("builtins.map")
def _(I, a, k):
    f = a[0]
    if len(a) != 2:
        raise Undecided("map")
    items = I.iter_items(a[1])
    if items is None:
        raise Undecided("map")
    if items[0] == "list":
        return Seq([I.call(f, [z], {}) for z in items[1]], False)
    _, lo, hi, at = items
    return SymSeq(hi - lo, lambda i: I.call(f, [at(lo + i)], {}))


@model("builtins.list", "builtins.tuple")
def _(I, a, k):
    if not a:
        return Seq([], False)
    v = a[0]
    items = I.iter_items(v)
    if items is None:
        raise Undecided("list")
    if items[0] == "list":
        return Seq(items[1], False)
    _, lo, hi, at = items
    return SymSeq(hi - lo, lambda i: at(lo + i))


MODELS["builtins.tuple"] = lambda I, a, k: (lambda r: Seq(r.items, True) if isinstance(r, Seq) else r)(MODELS["builtins.list"](I, a, k))
MODELS["builtins.set"] = MODELS["builtins.tuple"]


@model("builtins.dict")
def _(I, a, k):
    d = {}
    if a and isinstance(a[0], Dct):
        d.update(a[0].d)
    elif a:
        raise Undecided("dict")
    d.update(k)
    return Dct(d)


@model("builtins.iter")
def _(I, a, k):
    items = I.iter_items(a[0])
    if items is None:
        raise Undecided("iter")
    if items[0] == "list":
        lst = items[1]

        def at(i):
            c = i.cval()
            if c is None:
                raise Undecided("symbolic iterator position")
            return lst[int(c)]
        if isinstance(a[0], Arr):
            arr = a[0]
            at = lambda i: index(I, arr, [num(i, "i")])
        return IterV(const(len(lst)), at)
    _, lo, hi, at = items
    return IterV(hi - lo, lambda i: at(lo + i))


@model("builtins.next")
def _(I, a, k):
    it = a[0]
    if not isinstance(it, IterV):
        raise Undecided("next")
    v = it.at(it.pos)
    it.pos = it.pos + 1
    return v


def _int(I, a, k):
    if not a:
        return pyint(0)
    v = a[0]
    if isinstance(v, Arr) and v.size_const() == 1:
        v = Num(v.at(*[ZERO] * v.ndim), v.kind)
    if isinstance(v, Num):
        return Num(trunc(v.e), "i")
    if isinstance(v, Top):
        return v
    if is_none(v):
        raise PyRaise("TypeError", None, I.where())
    raise Undecided("int of %s" % type(v).__name__)


MODELS["builtins.int"] = _int
MODELS["numpy.int"] = _int
MODELS["numpy.int64"] = _int


def _float(I, a, k):
    v = a[0]
    if isinstance(v, Arr) and v.size_const() == 1:
        v = Num(v.at(*[ZERO] * v.ndim), v.kind)
    if isinstance(v, Num):
        return Num(v.e, "f")
    if isinstance(v, Str) and v.s in ("nan", "inf", "-inf"):
        return Num(X.fconst(float(v.s)), "f")
    if isinstance(v, Top):
        return v
    if isinstance(v, (NoneV, Arr, Seq)):
        raise PyRaise("TypeError", None, I.where())
    raise Undecided("float")


MODELS["builtins.float"] = _float
MODELS["numpy.float64"] = _float
MODELS["numpy.float"] = _float


@model("builtins.complex")
def _(I, a, k):
    r = a[0]
    e = r.e + (X.EI * a[1].e if len(a) > 1 else ZERO)
    return Num(e, "c")


@model("builtins.bool")
def _(I, a, k):
    c = I.truth(a[0])
    return B(c) if isinstance(c, bool) else Num(c, "b")


@model("builtins.str", "builtins.repr", "builtins.format")
def _(I, a, k):
    return a[0] if a and isinstance(a[0], Str) else Str(None)


@model("builtins.abs")
def _(I, a, k):
    return ew1(I, a[0], X.absval, KR)


def _minmax(name):
    def f(I, a, k):
        if k:
            raise Undecided(name)
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Seq):
                a = v.items
            else:
                return MODELS["numpy." + name](I, [v], {})
        for z in a:
            if isinstance(z, Top):
                return z
            if not isinstance(z, Num):
                raise Undecided(name)
        g = D.mk_min if name == "min" else D.mk_max
        return Num(g(*[z.e for z in a]), kmax(*[z.kind for z in a]))
    return f


MODELS["builtins.min"] = _minmax("min")
MODELS["builtins.max"] = _minmax("max")


@model("builtins.sum")
def _(I, a, k):
    it, st = bind(a, k, "iterable", ("start", num(0)))
    items = I.iter_items(it)
    if items is None:
        raise Undecided("sum")
    if items[0] == "list":
        r = st
        for z in items[1]:
            r = I.binop("Add", r, z)
        return r
    _, lo, hi, at = items
    first = at(lo)
    if isinstance(first, Num):
        return Num(st.e + D.asum(lo, hi, lambda i: at(i).e), kmax(st.kind, first.kind))
    fa = as_arr(I, first)
    r = Arr(fa.shape, lambda idx: D.asum(lo, hi, lambda i: as_arr(I, at(i)).at(*idx)), fa.kind)
    return arith(I, "Add", r, st)


def _anyall(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, Seq):
            acc = ONE if name == "all" else ZERO
            for z in v.items:
                c = I.truth(z)
                e = c if isinstance(c, Expr) else (ONE if c else ZERO)
                acc = X.mul(acc, e) if name == "all" else acc + e - X.mul(acc, e)
            return Num(acc, "b")
        if isinstance(v, (Arr, SymSeq)):
            return Num(quant(I, name, as_arr(I, v)), "b")
        if isinstance(v, Top):
            return v
        raise Undecided(name)
    return f


MODELS["builtins.any"] = _anyall("any")
MODELS["builtins.all"] = _anyall("all")


@model("builtins.pow")
def _(I, a, k):
    return arith(I, "Pow", a[0], a[1])


@model("builtins.divmod")
def _(I, a, k):
    return Seq([arith(I, "FloorDiv", a[0], a[1]), arith(I, "Mod", a[0], a[1])], True)


@model("builtins.sorted")
def _(I, a, k):
    if k:
        raise Undecided("sorted")
    items = I.iter_items(a[0])
    if items and items[0] == "list" and all(isinstance(z, Num) and z.e.cval() is not None for z in items[1]):
        return Seq(sorted(items[1], key=lambda z: z.e.cval()), False)
    if items and items[0] == "list" and all(isinstance(z, Str) and z.s is not None for z in items[1]):
        return Seq(sorted(items[1], key=lambda z: z.s), False)
    raise Undecided("sorted")


@model("builtins.callable")
def _(I, a, k):
    return B(isinstance(a[0], (Func, Bound, Model, Ext, ClassV)) or (isinstance(a[0], Opaque) and a[0].kind == "partial"))


@model("builtins.hasattr")
def _(I, a, k):
    try:
        I.getattr(a[0], a[1].s)
        return B(True)
    except PyRaise:
        return B(False)


@model("builtins.getattr")
def _(I, a, k):
    try:
        return I.getattr(a[0], a[1].s)
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


@model("builtins.slice")
def _(I, a, k):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


@model("builtins.print")
def _(I, a, k):
    I.event("print", "print")
    return NONE


@model("builtins.type")
def _(I, a, k):
    return Opaque("type", of=a[0], key="type")


@model("builtins.super")
def _(I, a, k):
    raise Undecided("super")


@model("builtins.id")
def _(I, a, k):
    raise Undecided("id")


def type_matches(I, v, t):
    if isinstance(t, Seq):
        return any(type_matches(I, v, q) for q in t.items)
    if isinstance(t, ClassV):
        if not isinstance(v, Inst):
            return False
        c = v.cls
        seen = [c.node]
        stack = [c]
        while stack:
            c = stack.pop()
            if c.node is t.node:
                return True
            import ast
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    q = c.env.lookup(b.id)
                    q = I._force(q) if q is not None else None
                    if isinstance(q, ClassV):
                        stack.append(q)
        return False
    if isinstance(t, Ext):
        n = t.name
        s = n.split(".")[-1]
        if n.endswith("dia_matrix") or n.endswith("dia_array"):
            return isinstance(v, Arr) and v.cls == "dia"
        if s in ("spmatrix", "csr_matrix", "csc_matrix", "coo_matrix"):
            return isinstance(v, Arr) and v.cls == "dia" and s == "spmatrix"
        if s in ("ndarray", "matrix"):
            if isinstance(v, Arr):
                return v.cls != "dia" and (s == "ndarray" or v.cls == "mat")
            return False
        if s in ("float", "float64", "floating", "Real", "float32"):
            if isinstance(v, Num):
                if s == "float64" or s == "floating":
                    return v.kind == "f" and v.np
                if s == "Real":
                    return v.kind in "bif"
                return v.kind == "f"
            return False
        if s in ("int", "int64", "integer", "Integral", "int_"):
            if isinstance(v, Num):
                if s == "int":
                    return v.kind in "bi" and not v.np
                if s == "Integral":
                    return v.kind in "bi"
                return v.kind == "i" and v.np
            return False
        if s in ("bool", "bool_"):
            return isinstance(v, Num) and v.kind == "b"
        if s in ("complex",):
            return isinstance(v, Num) and v.kind == "c"
        if s in ("number", "Number"):
            return isinstance(v, Num) and (s == "Number" or v.np)
        if s == "str":
            return isinstance(v, Str)
        if s in ("list", "List"):
            return isinstance(v, (Seq, SymSeq)) and not getattr(v, "tup", False)
        if s in ("tuple", "Tuple"):
            return isinstance(v, Seq) and v.tup
        if s in ("Sequence",):
            return isinstance(v, (Seq, SymSeq, Str))
        if s in ("Iterable",):
            return isinstance(v, (Seq, SymSeq, Str, Arr, Dct))
        if s in ("dict", "Dict"):
            return isinstance(v, Dct)
        if s == "Callable":
            return isinstance(v, (Func, Bound, Model, Ext))
    if isinstance(t, Opaque) and t.kind == "type":
        raise Undecided("type")
    raise Undecided("isinstance %r" % (t,))


@model("builtins.isinstance")
def _(I, a, k):
    if isinstance(a[0], Top):
        return Num(I.opaque_cond("isinstance"), "b")
    return B(type_matches(I, a[0], a[1]))


@model("numpy.isscalar")
def _(I, a, k):
    return B(isinstance(a[0], (Num, Str)))


@model("numpy.iscomplexobj")
def _(I, a, k):
    return B(as_arr(I, a[0]).kind == "c")


# ---------------------------------------------------------------- misc libraries

def _noop(I, a, k):
    return NONE


for _n in ("sys.stdout.write", "sys.stdout.flush", "warnings.simplefilter", "warnings.filterwarnings", "logging.info",
           "logging.warning", "time.sleep"):
    MODELS[_n] = _noop


@model("warnings.warn")
def _(I, a, k):
    I.event("warn", "warning")
    return NONE


for _n in ("figure", "plot", "fill_between", "legend", "xlabel", "ylabel", "show", "title", "subplots", "draw", "errorbar",
           "clf", "semilogx", "semilogy", "loglog", "grid", "tight_layout", "savefig", "cla", "subplot"):
    MODELS["matplotlib.pyplot." + _n] = lambda I, a, k: Opaque("figure", key="figure")


@model("functools.partial")
def _(I, a, k):
    return Opaque("partial", f=a[0], args=list(a[1:]), kw=k)


@model("itertools.repeat")
def _(I, a, k):
    x, n = bind(a, k, "object", ("times", NONE))
    if is_none(n):
        raise Undecided("infinite repeat")
    return SymSeq(n.e, lambda i: x)


@model("itertools.chain")
def _(I, a, k):
    out = []
    for z in a:
        it = I.iter_items(z)
        if it is None or it[0] != "list":
            raise Undecided("chain")
        out.extend(it[1])
    return Seq(out, False)


@model("itertools.count")
def _(I, a, k):
    s = a[0].e if a else ZERO
    return IterV(atom_expr(X.INF), lambda i: Num(s + i, "i"))


@model("itertools.product")
def _(I, a, k):
    its = [I.iter_items(z) for z in a]
    if k or any(q is None or q[0] != "list" for q in its):
        raise Undecided("product")
    import itertools
    return Seq([Seq(list(t), True) for t in itertools.product(*[q[1] for q in its])], False)


@model("multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool")
def _(I, a, k):
    return Opaque("pool", key="pool")


@model("multiprocessing.cpu_count", "os.cpu_count")
def _(I, a, k):
    return Num(X.elem(X.opaque_token("cpu_count", (), integer=True, sign=2)), "i")


@model("copy.deepcopy", "copy.copy")
def _(I, a, k):
    return D.deepcopy_val(_unview(a[0]), {})


def _unview(v):
    if isinstance(v, Arr):
        return Arr(v.shape, v.snap(), v.kind, v.cls, extra=dict(v.extra))
    return v


@model("scipy.stats.mstats.mquantiles")
def _(I, a, k):
    x = a[0]
    xa = as_arr(I, x)
    p = k.get("prob", a[1] if len(a) > 1 else None)
    pa = as_arr(I, p)
    ax = k.get("axis", a[4] if len(a) > 4 else NONE)
    ax = NONE if ax is None else ax
    if is_none(ax):
        return opaque(I, "mquantiles", [xa, pa], pa.shape)
    j = iconst(ax)
    sh = list(xa.shape)
    sh[j] = pa.shape[0]
    return opaque(I, "mquantiles%d" % j, [xa, pa], sh)


for _n in ("scipy.sparse.linalg.eigen.arpack.eigs", "scipy.sparse.linalg.eigs", "scipy.sparse.linalg.eigsh"):
    def _eigs(I, a, k):
        kk = k.get("k", num(6))
        x = as_arr(I, a[0])
        args = [N.as_dense(x)] + [v for q, v in sorted(k.items())]
        return opaque(I, "eigs", args, (kk.e,), "c")
    MODELS[_n] = _eigs


# ---------------------------------------------------------------- methods

for _m, _f in {"copy": "numpy.copy", "dot": "numpy.dot", "sum": "numpy.sum", "mean": "numpy.mean", "std": "numpy.std",
               "var": "numpy.var", "min": "numpy.min", "max": "numpy.max", "flatten": None, "ravel": "numpy.ravel",
               "reshape": "numpy.reshape", "squeeze": "numpy.squeeze", "transpose": None, "conj": "numpy.conj",
               "conjugate": "numpy.conj", "any": "numpy.any", "all": "numpy.all", "cumsum": "numpy.cumsum", "clip": "numpy.clip",
               "round": "numpy.round", "diagonal": "numpy.diagonal", "prod": "numpy.prod", "argsort": "numpy.argsort",
               "take": "numpy.take", "argmin": "numpy.argmin", "argmax": "numpy.argmax", "repeat": "numpy.repeat",
               "trace": "numpy.trace", "nonzero": "numpy.nonzero", "searchsorted": "numpy.searchsorted",
               "swapaxes": "numpy.swapaxes"}.items():
    if _f:
        METHODS[_m] = _f
METHODS["flatten"] = _flatten


def _m_transpose(I, a, k):
    if len(a) == 1:
        return transpose(I, a[0])
    axes = a[1].items if isinstance(a[1], Seq) else a[1:]
    return permute(a[0], [iconst(z) for z in axes])


METHODS["transpose"] = _m_transpose


def _m_copy(I, a, k):
    v = a[0]
    if isinstance(v, Num):
        return v
    return Arr(v.shape, v.snap(), N.kindof(v), v.cls, extra=dict(v.extra))


METHODS["copy"] = _m_copy
METHODS["tolist"] = lambda I, a, k: MODELS["builtins.list"](I, [a[0]], {})
METHODS["item"] = lambda I, a, k: (Num(a[0].at(*[ZERO] * a[0].ndim), a[0].kind) if isinstance(a[0], Arr) and a[0].size_const() == 1
                                   else (index(I, a[0], a[1:]) if len(a) > 1 else a[0]))


def _m_astype(I, a, k):
    v = a[0]
    kind = dt_kind(a[1] if len(a) > 1 else k.get("dtype"))
    if isinstance(v, Num):
        return Num(v.e, kind, True)
    return cast(I, v, kind)


METHODS["astype"] = _m_astype


def _m_fill(I, a, k):
    setitem(I, a[0], [Ext("Ellipsis")], a[1])
    return NONE


METHODS["fill"] = _m_fill


def _m_dense(I, a, k):
    v = a[0]
    if v.cls != "dia":
        raise PyRaise("AttributeError", None, I.where())
    return N.as_dense(v)


METHODS["toarray"] = _m_dense
METHODS["todense"] = lambda I, a, k: (lambda r: Arr(r.shape, r.snap(), r.kind, "mat"))(_m_dense(I, a, k))
METHODS["diagonal"] = lambda I, a, k: MODELS["numpy.diag"](I, [N.as_dense(a[0])] + a[1:], k)


def _m_sort(I, a, k):
    raise Undecided("in-place sort")


METHODS["sort"] = _m_sort


def obj_method(I, v, attr):
    def M(f):
        return Model(f, attr)
    if isinstance(v, Str):
        if attr in ("lower", "upper", "strip") and v.s is not None:
            return M(lambda I2, a, k: Str(getattr(v.s, attr)()))
        if attr in ("startswith", "endswith") and v.s is not None:
            return M(lambda I2, a, k: B(getattr(v.s, attr)(a[0].s)))
        return M(lambda I2, a, k: Str(None))
    if isinstance(v, Seq):
        if attr == "append":
            def ap(I2, a, k):
                if getattr(v, "log", None) is not None:
                    v.log.append((ONE, a[0]))       # a join multiplies the condition of the branch
                    return NONE
                v.items.append(a[0])
                return NONE
            return M(ap)
        if attr == "extend":
            def ex(I2, a, k):
                it = I.iter_items(a[0])
                if it is None or it[0] != "list" or getattr(v, "log", None) is not None:
                    raise Undecided("extend")
                v.items.extend(it[1])
                return NONE
            return M(ex)
        if attr == "insert":
            def ins(I2, a, k):
                if getattr(v, "log", None) is not None:
                    raise Undecided("insert")
                v.items.insert(iconst(a[0]), a[1])
                return NONE
            return M(ins)
        if attr == "copy":
            return M(lambda I2, a, k: Seq(list(v.items), v.tup))
        if attr == "pop":
            def pop(I2, a, k):
                if getattr(v, "log", None) is not None:
                    raise Undecided("pop")
                return v.items.pop(iconst(a[0]) if a else -1)
            return M(pop)
        if attr in ("index", "count"):
            raise Undecided(attr)
        raise PyRaise("AttributeError", None, I.where())
    if isinstance(v, Dct):
        if attr == "keys":
            return M(lambda I2, a, k: Seq([Str(q) if isinstance(q, str) else num(q) for q in v.d], False))
        if attr == "values":
            return M(lambda I2, a, k: Seq(list(v.d.values()), False))
        if attr == "items":
            return M(lambda I2, a, k: Seq([Seq([Str(q) if isinstance(q, str) else num(q), z], True) for q, z in v.d.items()], False))
        if attr == "get":
            def get(I2, a, k):
                q = I.hashkey(a[0])
                return v.d.get(q, a[1] if len(a) > 1 else NONE)
            return M(get)
        if attr == "update":
            def upd(I2, a, k):
                if a:
                    v.d.update(a[0].d)
                v.d.update(k)
                return NONE
            return M(upd)
        if attr == "copy":
            return M(lambda I2, a, k: Dct(dict(v.d)))
        if attr == "pop":
            def dpop(I2, a, k):
                q = I.hashkey(a[0])
                if q in v.d:
                    return v.d.pop(q)
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError", None, I.where())
            return M(dpop)
        if attr == "setdefault":
            def sd(I2, a, k):
                return v.d.setdefault(I.hashkey(a[0]), a[1] if len(a) > 1 else NONE)
            return M(sd)
        raise Undecided("dict method " + attr)
    if isinstance(v, Opaque):
        if v.kind == "mvn" and attr == "rvs":
            def rvs(I2, a, k):
                s = a[0] if a else k.get("size", num(1))
                sh = s
                r = mvn(I, v.kw["mean"], v.kw["cov"], sh, "mvn")
                if isinstance(s, Num) and s.e.cval() == 1:
                    return index(I, r, [pyint(0)])
                return r
            return M(rvs)
        if v.kind == "rng":
            def rn(I2, a, k):
                return MODELS["numpy.random." + attr](I, a, k)
            return M(rn)
        if v.kind == "pool":
            if attr in ("map", "imap", "imap_unordered"):
                def pm(I2, a, k):
                    r = MODELS["builtins.map"](I, a[:2], {})
                    if attr == "imap_unordered" and isinstance(r, Seq):      # one of the possible orders
                        r = Seq(list(reversed(r.items)), False)
                    return r
                return M(pm)
            if attr == "starmap":
                def sm(I2, a, k):
                    items = I.iter_items(a[1])
                    if items[0] == "list":
                        return Seq([I.call(a[0], list(z.items), {}) for z in items[1]], False)
                    return SymSeq(items[2] - items[1], lambda i: I.call(a[0], list(items[3](items[1] + i).items), {}))
                return M(sm)
            if attr == "apply":
                return M(lambda I2, a, k: I.call(a[0], list(a[1].items), {}))
            if attr == "__enter__":
                return M(lambda I2, a, k: v)
            return M(_noop)
        if v.kind == "partial":
            if attr == "func":
                return v.kw["f"]
        if v.kind == "dtype":
            if attr in ("kind",):
                return Str({"b": "b", "i": "i", "f": "f", "c": "c"}[v.kw["key"]])
            if attr in ("char", "name"):
                return Str(None)
        if v.kind == "type" and attr == "__name__":
            return Str(None)
        if v.kind == "figure":
            return M(lambda I2, a, k: v)
        h = v.kw.get("attr")
        if h is not None:
            return h(I, attr)
        raise Undecided("attribute %s of %s" % (attr, v.kind))
    if isinstance(v, SymSeq):
        if attr == "append":
            raise Undecided("append to symbolic list")
    raise Undecided("attribute %s" % attr)
