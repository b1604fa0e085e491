"""Array semantics of the abstract interpreter: indexing, elementwise operations, attributes."""
from fractions import Fraction
from . import expr as X
from .expr import Expr, Undecided, const, lift, ZERO, ONE, atom_expr
from . import dom as D
from .dom import (Arr, Num, Str, Seq, SymSeq, Dct, SliceV, ModV, Ext, Model, Inst, Opaque, IterV, Top, NONE, NoneV,
                  PyRaise, CondList, kmax, num, pyint, mk_ge, mk_eq0, mk_pos, ctx)

MODELS = {}
CONSTANTS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def bind(args, kw, *params):
    """bind call arguments; params are 'name' or ('name', default)"""
    names = [p if isinstance(p, str) else p[0] for p in params]
    out = {}
    if len(args) > len(names):
        raise Undecided("too many arguments for library call")
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        if k not in names:
            raise Undecided("unmodelled keyword %s" % k)
        out[k] = v
    for p in params:
        if isinstance(p, str):
            if p not in out:
                raise Undecided("missing argument %s" % p)
        elif p[0] not in out:
            out[p[0]] = p[1]
    return [out[n] for n in names]


# ---------------------------------------------------------------- conversion

def is_none(v):
    return isinstance(v, NoneV)


def iconst(v, what="integer"):
    if isinstance(v, Num):
        c = v.e.cval()
        if c is not None and c.denominator == 1:
            return int(c)
    raise Undecided("non-constant " + what)


def as_arr(I, v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Num):
        e = v.e
        return Arr((), lambda idx: e, v.kind)
    if isinstance(v, Seq):
        if not v.items:
            return Arr((0,), lambda idx: ZERO, "f")
        items = [as_arr(I, z) for z in v.items]
        sh = items[0].shape
        for it in items:
            if len(it.shape) != len(sh):
                raise Undecided("ragged sequence")
            for p, q in zip(it.shape, sh):
                if not same_dim(p, q):
                    raise Undecided("ragged sequence")
        fs = [it.snap() for it in items]
        n = len(fs)

        def f(idx):
            c = idx[0].cval()
            if c is not None:
                return fs[int(c)](idx[1:])
            c = ctx().resolve(idx[0]).cval()
            if c is not None:
                return fs[int(c)](idx[1:])
            r = fs[n - 1](idx[1:])
            for k in range(n - 2, -1, -1):
                g = mk_ge(const(k) - idx[0])
                gc = g.cval()
                if gc == 1:
                    r = fs[k](idx[1:])
                elif gc is None:
                    r = g * fs[k](idx[1:]) + (ONE - g) * r
            return r
        return Arr((n,) + tuple(sh), f, kmax(*[it.kind for it in items]))
    if isinstance(v, SymSeq):
        first = v.at(ZERO)
        if isinstance(first, Top):
            raise Undecided(first.why)
        fa = as_arr(I, first)

        def g(idx):
            return as_arr(I, v.at(idx[0])).at(*idx[1:])
        return Arr((v.n,) + tuple(fa.shape), g, fa.kind)
    if isinstance(v, Opaque) and v.kind == "range":
        return as_arr(I, v.kw["seq"])
    if isinstance(v, Top):
        raise Undecided(v.why)
    raise Undecided("array from %s" % type(v).__name__)


def same_dim(p, q):
    d = p - q
    if not d.t:
        return True
    d = ctx().resolve(d)
    if not d.t:
        return True
    C = ctx()
    if C.decide_ge0(d) and C.decide_ge0(-d):
        return True
    return False


def dims_differ(p, q):
    d = ctx().resolve(p - q)
    c = d.cval()
    if c is not None:
        return c != 0
    C = ctx()
    return bool(C.decide_ge0(d - 1) or C.decide_ge0(-d - 1))


def bdim(I, p, q):
    if same_dim(p, q):
        return p
    if p.cval() == 1:
        return q
    if q.cval() == 1:
        return p
    if dims_differ(p, q) and dims_differ(p, ONE) and dims_differ(q, ONE):
        raise PyRaise("ValueError", None, I.where())
    raise Undecided("broadcast of %r and %r" % (p, q))


def bshape(I, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j] if d is None else bdim(I, d, s[j])
        out.append(d)
    return tuple(out)


def bidx(shape, out_shape, idx):
    """index into an operand of `shape` broadcast to out_shape"""
    off = len(out_shape) - len(shape)
    r = []
    for k, s in enumerate(shape):
        i = idx[off + k]
        if s.cval() == 1 and out_shape[off + k].cval() != 1:
            i = ZERO
        elif s.cval() == 1:
            i = ZERO
        r.append(i)
    return tuple(r)


def out_cls(*arrs):
    for a in arrs:
        if isinstance(a, Arr) and a.cls == "mat":
            return "mat"
    return "nd"


def wrap(I, a):
    """0-d arrays become numpy scalars"""
    if isinstance(a, Arr) and a.ndim == 0:
        return Num(a.at(), a.kind, True)
    return a


# ---------------------------------------------------------------- elementwise

def ew1(I, v, f, kindf=lambda k: k):
    if isinstance(v, Top):
        return v
    if isinstance(v, Num):
        return Num(f(v.e), kindf(v.kind), v.np)
    if isinstance(v, (Seq, SymSeq)):
        v = as_arr(I, v)
    if isinstance(v, Arr):
        s = dense(v).snap()
        return Arr(v.shape, lambda idx: f(s(idx)), kindf(v.kind), "nd" if v.cls == "dia" else v.cls)
    raise Undecided("elementwise operation on %s" % type(v).__name__)


def dense(v):
    return v


def ew2(I, a, b, f, kindf):
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(f(a.e, b.e), kindf(a.kind, b.kind), a.np or b.np)
    a = as_arr(I, a)
    b = as_arr(I, b)
    sh = bshape(I, a.shape, b.shape)
    fa, fb = a.snap(), b.snap()
    sa, sb = a.shape, b.shape
    r = Arr(sh, lambda idx: f(fa(bidx(sa, sh, idx)), fb(bidx(sb, sh, idx))), kindf(a.kind, b.kind), out_cls(a, b))
    return wrap(I, r)


def k_arith(a, b):
    k = kmax(a, b)
    return "i" if k == "b" else k


def k_div(a, b):
    k = kmax(a, b)
    return "c" if k == "c" else "f"


def p_add(a, b):
    return a + b


def p_pow(a, b):
    c = b.cval()
    if c is not None:
        return X.power(a, c)
    if X.is_integer(b) and a.cval() == -1:
        # (-1)**n
        return X.expi(X.mul(X.EPI, b))
    return X.power(a, b)


def p_floordiv(a, b):
    q = a / b
    if not b.t:
        return X.atom_expr(X.INF)
    return D.ifloor(q)


def p_mod(a, b):
    return D.imod(a, b)


def arith(I, op, a, b):
    mat = (isinstance(a, Arr) and a.cls == "mat") or (isinstance(b, Arr) and b.cls == "mat")
    dia = (isinstance(a, Arr) and a.cls == "dia") or (isinstance(b, Arr) and b.cls == "dia")
    if isinstance(a, Dct) or isinstance(b, Dct):
        raise Undecided("dict arithmetic")
    if op == "Mult" and mat and not (isinstance(a, Num) or isinstance(b, Num)):
        return MODELS["numpy.matmul"](I, [a, b], {})
    if dia:
        if isinstance(a, Num) or isinstance(b, Num):
            if op == "Mult" or (op == "Div" and isinstance(b, Num)):
                A, s = (a, b) if isinstance(a, Arr) else (b, a)
                r = ew2(I, as_dense(A), s, (lambda x, y: x * y) if op == "Mult" else (lambda x, y: x / y), k_div)
                r.cls = "dia"
                ex = dict(A.extra)
                ex["diags"] = [arith(I, op, d, s) for d in ex["diags"]]
                r.extra = ex
                return r
            raise Undecided("sparse arithmetic")
        if op in ("Add", "Sub") and isinstance(a, Arr) and isinstance(b, Arr):
            a, b = as_dense(a), as_dense(b)
        elif op == "Mult":
            return MODELS["numpy.matmul"](I, [as_dense(a), as_dense(b)], {})
        else:
            raise Undecided("sparse arithmetic")
    if op == "Add":
        return ew2(I, a, b, p_add, k_arith)
    if op == "Sub":
        return ew2(I, a, b, lambda x, y: x - y, k_arith)
    if op == "Mult":
        return ew2(I, a, b, X.mul, k_arith)
    if op == "Div":
        if isinstance(b, Num) and b.e.cval() == 0 and not b.np and isinstance(a, Num) and not a.np:
            raise PyRaise("ZeroDivisionError", None, I.where())
        return ew2(I, a, b, lambda x, y: x / y, k_div)
    if op == "Pow":
        if mat:
            raise Undecided("matrix power")

        def kp(p, q):
            if isinstance(b, Num) and not isinstance(a, Arr) and p == "i" and q == "i":
                c = b.e.cval()
                if c is not None and c < 0:
                    return "f"
            return k_arith(p, q)
        return ew2(I, a, b, p_pow, kp)
    if op == "FloorDiv":
        return ew2(I, a, b, p_floordiv, k_arith)
    if op == "Mod":
        return ew2(I, a, b, p_mod, k_arith)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if op == "BitAnd":
            return ew2(I, a, b, X.mul, kmax)
        if op == "BitOr":
            return ew2(I, a, b, lambda x, y: x + y - X.mul(x, y), kmax)
        return ew2(I, a, b, lambda x, y: x + y - 2 * X.mul(x, y), kmax)
    raise Undecided("operator " + op)


def as_dense(a):
    if isinstance(a, Arr) and a.cls == "dia":
        return Arr(a.shape, a.snap(), a.kind)
    return a


CMP = {
    "Lt": lambda a, b: mk_pos(b - a),
    "Gt": lambda a, b: mk_pos(a - b),
    "LtE": lambda a, b: ONE - mk_pos(a - b),
    "GtE": lambda a, b: ONE - mk_pos(b - a),
    "Eq": lambda a, b: mk_eq0(a - b),
    "NotEq": lambda a, b: ONE - mk_eq0(a - b),
}


def compare(I, op, a, b):
    if isinstance(a, (SymSeq, Opaque, Inst, Dct)) or isinstance(b, (SymSeq, Opaque, Inst, Dct)):
        raise Undecided("comparison")
    if getattr(I, "cmps", None) is not None and op != "NotEq" and op != "Eq":
        I.cmps.append((I.where(), a, b))
    return ew2(I, a, b, CMP[op], lambda p, q: "b")


def logical(I, op, a, b):
    f = X.mul if op == "and" else (lambda x, y: x + y - X.mul(x, y))
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(f(a.e, b.e), "b")
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    raise Undecided("logical")


# ---------------------------------------------------------------- indexing

def norm_index(e, n):
    """python index -> non-negative index"""
    c = e.cval()
    if c is not None:
        return e if c >= 0 else n + e
    at = X.single_atom(e)
    if at is not None and at.kind == "elem" and at.args[0].opaque == "maskpos":
        return e
    e2 = ctx().resolve(e)
    r = ctx().decide_ge0(e2)
    if r is True:
        return e
    if r is False:
        return n + e
    if X.is_integer(e) and any(v in ctx().owners for v in e2.deps):
        g = mk_ge(e)
        gc = g.cval()
        if gc is not None:
            return e if gc else n + e
    return e       # assume in range


def bound(v, n, default):
    """clipped slice bound"""
    if is_none(v):
        return default
    if isinstance(v, Arr) and v.ndim == 0:
        v = Num(v.at(), v.kind)
    if not isinstance(v, Num):
        raise Undecided("slice bound")
    if v.kind not in "bi":
        raise PyRaise("TypeError", None, None)
    e = norm_index(v.e, n)
    c = ctx().resolve(n - e)
    if c.t == {}:
        return e
    ge = ctx().decide_ge0(c)
    if ge is None:
        raise Undecided("slice bound %r of %r" % (e, n))
    if ge is False:
        return n
    ge0 = ctx().decide_ge0(e)
    if ge0 is False:
        return ZERO
    return e


def slice_params(s, n):
    step = ONE if is_none(s.c) else s.c.e
    c = step.cval()
    if c is None or c == 0:
        raise Undecided("slice step")
    c = int(c)
    if c > 0:
        a = bound(s.a, n, ZERO)
        b = bound(s.b, n, n)
        ln = b - a
    else:
        a = n - 1 if is_none(s.a) else bound_neg(s.a, n)
        b = const(-1) if is_none(s.b) else bound_neg(s.b, n)
        ln = a - b
    k = abs(c)
    if ctx().decide_ge0(ln) is False:
        ln = ZERO
    elif ctx().decide_ge0(ln) is None:
        raise Undecided("slice length %r" % (ln,))
    if k != 1:
        ln = D.iceil(ln / const(k))
    return a, c, ln


def bound_neg(v, n):
    e = norm_index(v.e, n)
    ge = ctx().decide_ge0(n - 1 - e)
    if ge is None:
        raise Undecided("slice bound")
    return e if ge else n - 1


def expand_keys(keys, ndim):
    used = sum(1 for k in keys if not is_none(k) and not (isinstance(k, Ext) and k.name == "Ellipsis"))
    # boolean masks of dimension d consume d axes
    for k in keys:
        if isinstance(k, Arr) and k.kind == "b":
            used += k.ndim - 1
    out = []
    seen = False
    for k in keys:
        if isinstance(k, Ext) and k.name == "Ellipsis" and not seen:
            seen = True
            out.extend([SliceV(NONE, NONE, NONE)] * (ndim - used))
        else:
            out.append(k)
    if not seen:
        out.extend([SliceV(NONE, NONE, NONE)] * (ndim - used))
    return out


def index(I, arr, keys):
    if isinstance(arr, Num):
        if all(is_none(k) or (isinstance(k, Ext) and k.name == "Ellipsis") for k in keys):
            a = as_arr(I, arr)
            n = sum(1 for k in keys if is_none(k))
            e = arr.e
            return Arr((ONE,) * n, lambda idx: e, arr.kind) if n else arr
        raise PyRaise("TypeError", None, I.where())
    for k in keys:
        if isinstance(k, Top):
            return Top(k.why)
    if any(isinstance(k, CondList) for k in keys):
        full = lambda k: isinstance(k, SliceV) and is_none(k.a) and is_none(k.b) and is_none(k.c)
        ax = [j for j, k in enumerate(keys) if isinstance(k, CondList)][0]
        if len(keys) > arr.ndim or not all(full(k) for j, k in enumerate(keys) if j != ax):
            raise Undecided("selection by a list built in a loop")
        fr = arr.snap()
        c = keys[ax]
        return D.Picked(Arr(arr.shape, fr, arr.kind), ax, c.n, c.cond, lambda q: c.item(q).e)
    keys = [as_arr(I, k) if isinstance(k, (Seq, SymSeq)) else k for k in keys]
    keys = [Num(k.at(), k.kind, True) if isinstance(k, Arr) and k.ndim == 0 else k for k in keys]
    keys = expand_keys(keys, arr.ndim)
    nk = sum(1 for k in keys if not is_none(k))
    if nk > arr.ndim and not any(isinstance(k, Arr) and k.kind == "b" for k in keys):
        raise PyRaise("IndexError", None, I.where())
    if any(isinstance(k, Arr) for k in keys):
        return fancy(I, arr, keys)
    shape = []
    plan = []      # per base axis: ('int', e) or ('sl', a, c)
    order = []     # for output axes: base axis or None
    ax = 0
    mat_int = False
    for k in keys:
        if is_none(k):
            shape.append(ONE)
            order.append(None)
            continue
        n = arr.shape[ax]
        if isinstance(k, SliceV):
            if is_none(k.a) and is_none(k.b) and is_none(k.c):
                plan.append(("sl", ZERO, 1, n))
                shape.append(n)
            else:
                a, c, ln = slice_params(k, n)
                plan.append(("sl", a, c, ln))
                shape.append(ln)
            order.append(ax)
        elif isinstance(k, Num):
            if k.kind not in "bi":
                raise PyRaise("IndexError", None, I.where())
            e = norm_index(k.e, n)
            if ctx().decide_ge0(e) is False or ctx().decide_ge0(n - 1 - e) is False:
                raise PyRaise("IndexError", None, I.where())
            plan.append(("int", e))
            if arr.cls == "mat":
                shape.append(ONE)
                order.append(None)
                mat_int = True
        elif isinstance(k, Ext) and k.name == "Ellipsis":
            raise Undecided("ellipsis")
        else:
            raise Undecided("index %s" % type(k).__name__)
        ax += 1
    if arr.cls == "mat" and mat_int and all(p[0] == "int" for p in plan):
        return Num(arr.at(*[p[1] for p in plan]), arr.kind, True)
    if not shape and not order:
        return Num(arr.at(*[p[1] for p in plan]), arr.kind, True)
    nax = len(plan)

    def vmap(idx):
        r = [None] * nax
        for j, o in enumerate(order):
            if o is not None:
                _, a, c, _n = plan[o]
                r[o] = a + idx[j] * const(c) if c != 1 or a.t else idx[j]
        for q, p in enumerate(plan):
            if p[0] == "int":
                r[q] = p[1]
        return tuple(r)
    base_shape = arr.shape

    def inv(bi):
        g = []
        out = []
        pos = {}
        for q, p in enumerate(plan):
            if p[0] == "int":
                g.append(("eq", bi[q] - p[1]))
            else:
                _, a, c, ln = p
                if c == 1:
                    v = bi[q] - a
                    if a.t:
                        g.append(("ge", v))
                    if not same_dim(a + ln, base_shape[q]):
                        g.append(("ge", ln - 1 - v))
                else:
                    v = (bi[q] - a) * const(Fraction(1, c))
                    if abs(c) != 1:
                        g.append(("eq", D.imod(bi[q] - a, const(abs(c)))))
                    g.append(("ge", (bi[q] - a) if c > 0 else (a - bi[q])))
                    last = a + (ln - 1) * const(c)
                    g.append(("ge", (last - bi[q]) if c > 0 else (bi[q] - last)))
                pos[q] = v
        for o in order:
            out.append(ZERO if o is None else pos[o])
        return g, tuple(out)
    return Arr(shape, None, arr.kind, arr.cls if arr.cls == "mat" else "nd", base=arr, vmap=vmap, inv=inv)


def kindof(arr):
    a = arr
    while a.base is not None:
        a = a.base
    return a.kind


def fancy(I, arr, keys):
    arrs = [(j, k) for j, k in enumerate(keys) if isinstance(k, Arr)]
    if any(k.kind == "b" for _, k in arrs):
        return mask_select(I, arr, keys)
    if any(k.kind not in "bi" for _, k in arrs):
        raise PyRaise("IndexError", None, I.where())
    if any(is_none(k) for k in keys):
        raise Undecided("newaxis with fancy index")
    # all integer arrays broadcast together (ints participate too)
    bs = bshape(I, *[k.shape for _, k in arrs])
    first = arrs[0][0]
    adv = [j for j, k in enumerate(keys) if isinstance(k, (Arr, Num))]
    if adv != list(range(adv[0], adv[0] + len(adv))):
        first = 0
        contiguous = False
    else:
        contiguous = True
        first = adv[0]
    fs = {j: k.snap() for j, k in arrs}
    sl = {}
    out_sl = []
    for j, k in enumerate(keys):
        if isinstance(k, SliceV):
            a, c, ln = slice_params(k, arr.shape[j])
            sl[j] = (a, c, len(out_sl))
            out_sl.append((j, ln))
    nb = len(bs)
    pre = [ln for j, ln in out_sl if contiguous and j < first]
    post = [ln for j, ln in out_sl if not (contiguous and j < first)]
    shape = tuple(pre) + tuple(bs) + tuple(post)
    src = arr.snap()
    npre = len(pre)
    ashape = arr.shape

    def f(idx):
        bi = idx[npre:npre + nb]
        si = idx[:npre] + idx[npre + nb:]
        r = []
        for j, k in enumerate(keys):
            if j in fs:
                r.append(norm_index(fs[j](bidx(k.shape, bs, bi)), ashape[j]))
            elif isinstance(k, Num):
                r.append(norm_index(k.e, ashape[j]))
            else:
                a, c, p = sl[j]
                r.append(a + si[p] * const(c))
        return src(tuple(r))
    return Arr(shape, f, arr.kind, arr.cls if arr.cls == "mat" else "nd")


def mask_select(I, arr, keys):
    js = [j for j, k in enumerate(keys) if isinstance(k, Arr)]
    if len(js) != 1 or any(not (isinstance(k, (SliceV, Arr)) or isinstance(k, Num)) for k in keys):
        raise Undecided("mask index")
    j = js[0]
    m = keys[j]
    if m.ndim != 1:
        if len(keys) == 1 and m.ndim == arr.ndim:
            raise Undecided("multi-dimensional mask")
        raise Undecided("mask index")
    if not same_dim(m.shape[0], arr.shape[j]):
        if dims_differ(m.shape[0], arr.shape[j]):
            raise PyRaise("IndexError", None, I.where())
        raise Undecided("mask length")
    pos, cnt = mask_pos(I, m)
    keys2 = list(keys)
    keys2[j] = pos
    return fancy(I, arr, keys2)


def mask_pos(I, m):
    """(array of selected positions, number of selected)"""
    n = m.shape[0]
    nc = n.cval()
    if nc is not None and nc <= 24:
        vals = []
        for k in range(int(nc)):
            try:
                vals.append(m.at(const(k)).cval())
            except (X.NeedSplit, Undecided):
                vals.append(None)
        if all(z is not None for z in vals):
            sel = [k for k, z in enumerate(vals) if z]

            def at(idx):
                return D.select(idx[0], [const(z) for z in sel])
            return Arr((const(len(sel)),), at, "i"), const(len(sel))
    # constant masks
    v = X.fresh_idx("q")
    try:
        e = D.with_range(v, ZERO, n, False, lambda: m.at(atom_expr(v)))
        c = e.cval()
    except (X.NeedSplit, Undecided):
        c = None
    if c == 1:
        return Arr((n,), lambda idx: idx[0], "i"), n
    if c == 0:
        return Arr((0,), lambda idx: ZERO, "i"), ZERO
    d = digest(m)
    cnt = D.asum(ZERO, n, lambda i: m.at(i))
    el = closed("maskpos", d, integer=True, sign=1)
    return Arr((cnt,), lambda idx: el(idx[0]), "i"), cnt


# ---------------------------------------------------------------- digests

DG = [X.sym("_g%d" % i, integer=True, idx=True) for i in range(6)]


def regions(vs, shape, body, limit=300):
    """evaluate body() on a partition of the index box into regions on which it is uniform"""
    work = [tuple((ZERO, s) for s in shape)]
    out = []
    while work:
        box = work.pop()
        if len(out) + len(work) > limit:
            raise Undecided("too many regions")

        def nest(k):
            if k == len(vs):
                return body(box)
            return D.with_range(vs[k], box[k][0], box[k][1], True, lambda: nest(k + 1))
        if any((hi - lo).cval() is not None and (hi - lo).cval() <= 0 for lo, hi in box):
            continue
        try:
            out.append((box, nest(0)))
        except X.NeedSplit as ns:
            if ns.var not in vs:
                raise
            k = vs.index(ns.var)

            def pieces(j):
                if j == k:
                    return D.split_pieces(box[k][0], box[k][1], ns)
                return D.with_range(vs[j], box[j][0], box[j][1], True, lambda: pieces(j + 1))
            try:
                ps = pieces(0)
            except X.NeedSplit as ns2:
                if ns2.var not in vs:
                    raise
                k2 = vs.index(ns2.var)
                k = k2
                ns = ns2

                def pieces2(j):
                    if j == k2:
                        return D.split_pieces(box[k2][0], box[k2][1], ns2)
                    return D.with_range(vs[j], box[j][0], box[j][1], True, lambda: pieces2(j + 1))
                ps = pieces2(0)
            for lo, hi in reversed(ps):
                b = list(box)
                b[k] = (lo, hi)
                work.append(tuple(b))
    return out


def pin(e, vs, box):
    """substitute index variables whose range is a single point"""
    mp = {}
    for v, (lo, hi) in zip(vs, box):
        if (hi - lo).cval() == 1:
            mp[v] = lo
    return X.subst(e, mp) if mp else e


_dcache = {}


def digest(v):
    """canonical key of an abstract value (used for congruence of uninterpreted operations)"""
    if isinstance(v, Arr):
        f = v.snap()
        vs = DG[:v.ndim]
        # nested use of the same generic variables is avoided by shifting
        depth = len([g for g in DG if g in ctx().ranges])
        if depth:
            vs = [X.sym("_g%d_%d" % (depth, i), integer=True, idx=True) for i in range(v.ndim)]
        regs = regions(vs, v.shape, lambda box: pin(f(tuple(atom_expr(x) for x in vs)), vs, box))
        if depth:
            mp = {x: atom_expr(DG[i]) for i, x in enumerate(vs)}
            regs = [(tuple((X.subst(a, mp), X.subst(b, mp)) for a, b in box), X.subst(e, mp)) for box, e in regs]
        if v.ndim == 1:
            regs = merge_adjacent(regs)
        return ("arr", tuple(v.shape), tuple(regs))
    if isinstance(v, Num):
        return ("num", v.e)
    if isinstance(v, Seq):
        return ("seq",) + tuple(digest(z) for z in v.items)
    if isinstance(v, Str):
        if v.s is None:
            raise Undecided("unknown string")
        return ("str", v.s)
    if isinstance(v, NoneV):
        return ("none",)
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, Dct):
        return ("dict",) + tuple((k, digest(z)) for k, z in v.d.items())
    if isinstance(v, Opaque) and "key" in v.kw:
        return ("opaque", v.kind, v.kw["key"])
    raise Undecided("digest of %s" % type(v).__name__)


def merge_adjacent(regs):
    g = DG[0]
    out = []
    for box, e in regs:
        lo, hi = box[0]
        if out and (out[-1][0][0][1] - lo).cval() == 0:
            (plo, phi), = out[-1][0]
            pe = out[-1][1]
            # single points may be instances of the neighbouring formula
            if pe == e or X.subst(e, {g: plo}) == pe and (phi - plo).cval() == 1:
                out[-1] = (((plo, hi),), e)
                continue
            if (hi - lo).cval() == 1 and X.subst(pe, {g: lo}) == e:
                out[-1] = (((plo, hi),), pe)
                continue
        out.append((box, e))
    return out


# ---------------------------------------------------------------- stores

def trunc_store(I, base, v):
    k = kindof(base)
    if k in "bi" and v.kind in "fc":
        if not value_is_integer(v):
            I.event("trunc", "floating point value stored into an integer array")
    elif k == "f" and v.kind == "c":
        I.event("cplx", "complex value stored into a real array")


def value_is_integer(v):
    if isinstance(v, Num):
        return X.is_integer(v.e)
    try:
        vs = [X.fresh_idx("z") for _ in v.shape]
        f = v.snap()

        def nest(k):
            if k == len(vs):
                return X.is_integer(f(tuple(atom_expr(x) for x in vs)))
            return D.with_range(vs[k], ZERO, v.shape[k], False, lambda: nest(k + 1))
        return nest(0)
    except (Undecided, X.NeedSplit):
        return False


def setitem(I, arr, keys, v):
    from .absint import Write, guard_expr
    if isinstance(v, (Seq, SymSeq)):
        v = as_arr(I, v)
    if isinstance(v, NoneV) or isinstance(v, Str):
        raise PyRaise("TypeError", None, I.where())
    if isinstance(v, Opaque):
        raise Undecided("store of %s" % v.kind)
    keys = [as_arr(I, k) if isinstance(k, (Seq, SymSeq)) else k for k in keys]
    keys = [Num(k.at(), k.kind, True) if isinstance(k, Arr) and k.ndim == 0 else k for k in keys]
    if any(isinstance(k, Arr) for k in keys):
        return setitem_fancy(I, arr, keys, v)
    sel = index(I, arr, keys)
    if isinstance(sel, Num) and arr.ndim > 0:
        # scalar store: build the view by hand
        ks = [norm_index(k.e, n) for k, n in zip(expand_keys(keys, arr.ndim), arr.shape)]

        def inv0(bi):
            return [("eq", b - k) for b, k in zip(bi, ks)], ()
        chain = [inv0]
        vshape = ()
    elif isinstance(sel, Num):
        chain = []
        vshape = ()
    else:
        chain = [sel.inv] if sel is not arr else []
        vshape = sel.shape
    b = arr
    while b.base is not None:
        if b.inv is None:
            raise Undecided("store through a non-invertible view")
        chain.append(b.inv)
        b = b.base
    va = as_arr(I, v)
    trunc_store(I, b, va)
    vf = va.snap()
    # the assigned value must broadcast to the selection
    vs = va.shape
    while len(vs) > len(vshape) and vs[0].cval() == 1:
        f0 = vf
        vf = (lambda f0: lambda idx: f0((ZERO,) + idx))(f0)
        vs = vs[1:]
    if len(vs) > len(vshape):
        if arr.cls == "mat" and len(vshape) == 0:
            pass
        raise PyRaise("ValueError", None, I.where())
    for p, q in zip(reversed(vs), reversed(vshape)):
        if p.cval() == 1:
            continue
        if not same_dim(p, q):
            if dims_differ(p, q):
                raise PyRaise("ValueError", None, I.where())
            raise Undecided("store of shape %r into %r" % (vs, vshape))
    conds = [("cond", c) for c in I.pathconds] if b.log is not None else []

    def locate(idx):
        gs = []
        cur = idx
        for inv in reversed(chain):
            g, cur = inv(cur)
            gs = gs + g
        return gs, cur

    real_store = kindof(b) in "bif"

    def value(idx):
        gs, cur = locate(idx)
        e = vf(bidx(vs, vshape, cur))
        return e

    def guards(idx):
        return locate(idx)[0]

    if b.log is not None:
        b.log.append(Write(lambda idx: guards(idx) + conds, value))
    old = b.fn

    def newfn(idx):
        g = guard_expr(guards(idx))
        c = g.cval()
        if c == 0:
            return old(idx)
        if c == 1:
            return value(idx)
        return g * value(idx) + (ONE - g) * old(idx)
    b.fn = newfn
    b.cache = {}


def setitem_fancy(I, arr, keys, v):
    from .absint import Write, guard_expr
    keys = expand_keys(keys, arr.ndim)
    # the positions where a mask holds select the same elements as the mask
    keys = [k.extra["positions_of"] if isinstance(k, Arr) and k.extra.get("positions_of") is not None else k for k in keys]
    b = arr
    if b.base is not None:
        raise Undecided("fancy store through view")
    js = [j for j, k in enumerate(keys) if isinstance(k, Arr)]
    if len(js) == 1 and keys[js[0]].kind == "b" and keys[js[0]].ndim == 1 and all(
            isinstance(k, SliceV) and is_none(k.a) and is_none(k.b) and is_none(k.c) for j, k in enumerate(keys) if j not in js):
        m = keys[js[0]].snap()
        ax = js[0]
        va = as_arr(I, v)
        trunc_store(I, b, va)
        vf = va.snap()
        if va.ndim == 0:
            val = lambda idx: vf(())
        else:
            # x[m] = y  where y = e[m] : positional assignment through the rank of the mask
            pos, cnt = mask_pos(I, keys[js[0]])
            src = getattr(va, "sel_from", None)
            if va.ndim != b.ndim and va.ndim != 1:
                raise Undecided("mask store")
            if pos.shape[0] == b.shape[ax]:
                rank = lambda i: i
            else:
                mm = keys[js[0]]
                sel = const_mask(mm)

                def rank(i):
                    if sel is not None:
                        out, n = [], 0
                        for z in sel:
                            out.append(const(n))
                            n += z
                        return D.select(i, out)
                    return X.fn("rank", i, mask_key(mm), integer=True, sign=1)
            if va.ndim == b.ndim:
                def val(idx):
                    ii = list(idx)
                    ii[ax] = rank(idx[ax]) if va.shape[ax].cval() != 1 else ZERO
                    return unrank(vf(tuple(ii)))
            else:
                def val(idx):
                    return unrank(vf((rank(idx[-1]) if ax == b.ndim - 1 else idx[-1],)))
        old = b.fn

        def newfn(idx):
            g = m((idx[ax],))
            c = g.cval()
            if c == 0:
                return old(idx)
            if c == 1:
                return val(idx)
            return g * val(idx) + (ONE - g) * old(idx)
        if b.log is not None:
            b.log.append(Write(lambda idx: [("cond", m((idx[ax],)))], val))
        b.fn = newfn
        b.cache = {}
        return
    if len(js) == 1 and keys[js[0]].ndim == arr.ndim and keys[js[0]].kind == "b" and len(keys) == 1:
        m = keys[0].snap()
        va = as_arr(I, v)
        if va.ndim != 0:
            raise Undecided("mask store")
        trunc_store(I, b, va)
        vf = va.snap()
        old = b.fn

        def newfn2(idx):
            g = m(idx)
            c = g.cval()
            if c == 0:
                return old(idx)
            if c == 1:
                return vf(())
            return g * vf(()) + (ONE - g) * old(idx)
        if b.log is not None:
            b.log.append(Write(lambda idx: [("cond", m(idx))], lambda idx: vf(())))
        b.fn = newfn2
        b.cache = {}
        return
    raise Undecided("fancy store")


def const_mask(m):
    """list of truth values where all are decided"""
    nc = m.shape[0].cval()
    if nc is None or nc > 24:
        return None
    out = []
    for k in range(int(nc)):
        try:
            z = m.at(const(k)).cval()
        except (X.NeedSplit, Undecided):
            z = None
        if z is None:
            return None
        out.append(int(z))
    return out


def mask_key(m):
    return digest(m)


def unrank(e):
    """maskpos[rank(i)] = i"""
    mp = {}
    for a in X.walk_atoms(e):
        if a.kind == "elem" and a.args[0].opaque == "maskpos" and len(a.args) == 2:
            ix = a.args[1]
            if len(ix.t) == 1:
                (m, c), = ix.t.items()
                if c == 1 and len(m) == 1:
                    r = X.byid(m[0][0])
                    if r.kind == "fn" and r.args[0] == "rank" and r.args[2] == a.args[0].key:
                        mp[a] = r.args[1]
    return X._subst(e, mp, frozenset(mp), {}) if mp else e


# ---------------------------------------------------------------- attributes

def arr_attr(I, v, attr):
    if isinstance(v, Num):
        if attr == "shape":
            if not v.np:
                raise PyRaise("AttributeError", None, I.where())
            return Seq([], True)
        if attr in ("real",):
            return Num(X.real(v.e), "f" if v.kind == "c" else v.kind, v.np)
        if attr == "imag":
            return Num(X.imag(v.e), "f" if v.kind == "c" else v.kind, v.np)
        if attr == "ndim":
            return pyint(0)
        if attr == "size":
            return pyint(1)
        if attr == "T":
            return v
        v0 = v
        if not v.np and attr not in ("conjugate",):
            raise PyRaise("AttributeError", None, I.where())
        return method(I, v, attr)
    if v.cls == "dia":
        if attr == "offsets":
            return as_arr(I, Seq([Num(o, "i") for o in v.extra["offs"]], True))
        if attr == "data":
            return dia_data(I, v)
    if attr == "shape":
        return Seq([Num(s, "i") for s in v.shape], True)
    if attr == "ndim":
        return pyint(v.ndim)
    if attr == "size":
        r = ONE
        for s in v.shape:
            r = r * s
        return Num(r, "i")
    if attr == "T":
        return transpose(I, v)
    if attr in ("A",) and v.cls == "mat":
        return Arr(v.shape, v.snap(), v.kind)
    if attr == "A1" and v.cls == "mat":
        return ravel(I, Arr(v.shape, v.snap(), v.kind))
    if attr == "real":
        if v.kind != "c":
            return v
        return ew1(I, v, X.real, lambda k: "f")
    if attr == "imag":
        return ew1(I, v, X.imag, lambda k: "f" if k == "c" else k)
    if attr == "dtype":
        return Opaque("dtype", key=kindof(v))
    if attr == "flat":
        return ravel(I, v)
    return method(I, v, attr)


def method(I, v, attr):
    name = METHODS.get(attr)
    if name is None:
        raise Undecided("array method " + attr)
    f = MODELS[name] if isinstance(name, str) else name
    return Model(lambda I2, args, kw: f(I2, [v] + list(args), kw), attr)


METHODS = {}


def transpose(I, v):
    if v.ndim < 2:
        return v
    r = Arr(tuple(reversed(v.shape)), None, v.kind, v.cls, base=v, vmap=lambda idx: tuple(reversed(idx)),
            inv=lambda idx: ([], tuple(reversed(idx))))
    if v.cls == "dia":
        s = v.snap()
        r = Arr(tuple(reversed(v.shape)), lambda idx: s(tuple(reversed(idx))), v.kind, "dia",
                extra={"offs": [-o for o in v.extra["offs"]], "diags": v.extra["diags"]})
    return r


def ravel(I, v):
    if v.ndim == 1:
        return v
    if v.ndim == 0:
        s = v.snap()
        return Arr((1,), lambda idx: s(()), v.kind)
    big = [k for k, s in enumerate(v.shape) if s.cval() != 1]
    if len(big) <= 1:
        j = big[0] if big else 0
        nd = v.ndim

        def vmap(idx):
            r = [ZERO] * nd
            r[j] = idx[0]
            return tuple(r)
        return Arr((v.shape[j],), None, v.kind, base=v, vmap=vmap, inv=lambda idx: ([], (idx[j],)))
    if v.ndim == 2:
        a, b = v.shape
        f = v.snap()
        return Arr((a * b,), lambda idx: f(divmod_dims(idx[0], b)), v.kind)
    f, sh = v.snap(), v.shape

    def g(idx):
        i, out = idx[0], []
        for s in sh[:0:-1]:
            i, r = divmod_dims(i, s)
            out.append(r)
        return f(tuple([i] + out[::-1]))
    n = ONE
    for s in sh:
        n = n * s
    return Arr((n,), g, v.kind)


def divmod_dims(i, b):
    c = i.cval()
    bc = b.cval()
    if c is not None and bc is not None:
        q, r = divmod(int(c), int(bc))
        return (const(q), const(r))
    if X.is_integer(i) and X.is_integer(b):
        q, r = D.divmod_poly(ctx().resolve(i), b)
        if q is not None and ctx().decide_ge0(r) and ctx().decide_ge0(b - 1 - r):
            return (q, r)
    q = X.fn("idiv", i, b, integer=True, sign=1)
    r = X.fn("irem", i, b, integer=True, sign=1)
    return (q, r)


def dia_data(I, v):
    offs, diags = v.extra["offs"], v.extra["diags"]
    # column-aligned storage; the width is the last used column + 1 over all diagonals
    width = v.extra.get("width")
    if width is None:
        width = ZERO
        for o, d in zip(offs, diags):
            k = mk_ge(o).cval()
            end = d.shape[0] + (o if k == 1 else ZERO)
            if not width.t:
                width = end
            elif D.require(end - width):
                width = end
    fs = [d.snap() for d in diags]
    ns = [d.shape[0] for d in diags]

    def row(k, j):
        o = offs[k]
        off = o if mk_ge(o).cval() == 1 else ZERO
        g = mk_ge(j - off) * mk_ge(off + ns[k] - 1 - j)
        c = g.cval()
        if c == 0:
            return ZERO
        val = fs[k]((j - off,))
        return val if c == 1 else g * val

    def f(idx):
        c = ctx().resolve(idx[0]).cval()
        if c is None:
            raise Undecided("dia row")
        return row(int(c), idx[1])
    return Arr((len(offs), width), f, v.kind)


def obj_attr(I, v, attr):
    from .npfuncs import obj_method
    return obj_method(I, v, attr)


def opaque_getitem(I, v, keys):
    if v.kind == "range":
        return I.getitem(v.kw["seq"], keys)
    g = v.kw.get("getitem")
    if g is not None:
        return g(I, keys)
    raise Undecided("subscript of %s" % v.kind)


def r_like(I, name, keys):
    if name == "numpy.s_":
        return Seq(list(keys), True) if len(keys) != 1 else keys[0]
    parts = []
    for k in keys:
        if isinstance(k, SliceV):
            a = ZERO if is_none(k.a) else k.a.e
            step = ONE if is_none(k.c) else k.c.e
            if not X.is_integer(step):
                raise Undecided("r_ slice")
            parts.append(MODELS["numpy.arange"](I, [num(a), k.b, num(step)], {}))
        elif isinstance(k, Str):
            raise Undecided("r_ directive")
        else:
            parts.append(k)
    if name == "numpy.r_":
        arrs = []
        for p in parts:
            a = as_arr(I, p)
            if a.ndim == 0:
                e = a.at()
                a = (lambda e, kd: Arr((1,), lambda idx: e, kd))(e, a.kind)
            arrs.append(a)
        return concat(I, arrs, 0)
    if name == "numpy.c_":
        arrs = []
        for p in parts:
            a = as_arr(I, p)
            if a.ndim == 1:
                a = index(I, a, [SliceV(NONE, NONE, NONE), NONE])
            arrs.append(a)
        return concat(I, arrs, 1)
    raise Undecided(name)


def concat(I, arrs, axis):
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    for a in arrs:
        if a.ndim != nd:
            raise PyRaise("ValueError", None, I.where())
        for k in range(nd):
            if k != axis and not same_dim(a.shape[k], arrs[0].shape[k]):
                if dims_differ(a.shape[k], arrs[0].shape[k]):
                    raise PyRaise("ValueError", None, I.where())
                raise Undecided("concatenation of different shapes")
    tot = ZERO
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[axis]
    fs = [a.snap() for a in arrs]
    shape = list(arrs[0].shape)
    shape[axis] = tot

    def f(idx):
        i = idx[axis]

        def at(k):
            return fs[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:])

        def rec(k):
            if k == len(fs) - 1:
                return at(k)
            if arrs[k].shape[axis].cval() == 0:
                return rec(k + 1)
            g = mk_ge(offs[k + 1] - 1 - i)
            c = g.cval()
            if c == 1:
                return at(k)
            if c == 0:
                return rec(k + 1)
            return g * at(k) + (ONE - g) * rec(k + 1)
        return rec(0)
    cls = "mat" if any(a.cls == "mat" for a in arrs) else "nd"
    return Arr(shape, f, kmax(*[a.kind for a in arrs]), cls)


def submodule(full):
    return Ext(full)


def key_exprs(k):
    if isinstance(k, X.Expr):
        yield k
    elif isinstance(k, (tuple, list)):
        for z in k:
            yield from key_exprs(z)


def key_subst(k, mp):
    if isinstance(k, X.Expr):
        return X.subst(k, mp)
    if isinstance(k, tuple):
        return tuple(key_subst(z, mp) for z in k)
    if isinstance(k, list):
        return [key_subst(z, mp) for z in k]
    return k


PARAM = [X.sym("_p%d" % j, integer=True, idx=True) for j in range(6)]


def closed(op, key, **meta):
    """Function building the elements of an uninterpreted result.  Index variables of enclosing loops and sums that occur
    in the arguments become leading indices of the result, so that instances for different indices correspond."""
    free = []
    for e in key_exprs(key):
        if any("carry" in a.flags or (a.kind == "elem" and a.args[0].opaque == "carry") for a in X.walk_atoms(e)):
            raise Undecided("loop-carried argument of %s" % op)
        for v in sorted(e.deps, key=lambda a: a.id):
            nm = str(v.args[0])
            if not nm.startswith("_g") and v not in free and v.kind == "sym":
                free.append(v)
    free = [v for v in free if v not in PARAM]
    if not free:
        tok = X.opaque_token(op, key, **meta)
        return lambda *idx: X.elem(tok, *idx)
    if len(free) > len(PARAM):
        raise Undecided("too many loop indices in argument of %s" % op)
    shift = {}
    for e in key_exprs(key):
        for a in X.walk_atoms(e):
            if a.kind == "elem":
                for ie in a.args[1:]:
                    for v in free:
                        if v not in shift and v in ie.deps and X._lin_coeff(ie, v) == 1:
                            c = ie - atom_expr(v)
                            if not c.deps:
                                shift[v] = c
    mp = {v: atom_expr(PARAM[j]) - shift.get(v, ZERO) for j, v in enumerate(free)}
    tok = X.opaque_token(op, key_subst(key, mp), **meta)
    head = [atom_expr(v) + shift.get(v, ZERO) for v in free]
    return lambda *idx: X.elem(tok, *(head + list(idx)))


def opaque(I, op, args, shape, kind="f", **meta):
    """uninterpreted operation result: same arguments give the same array"""
    key = tuple(digest(a) for a in args)
    meta.setdefault("real", kind != "c")
    meta.setdefault("integer", kind in "bi")
    el = closed(op, key, **meta)
    r = Arr(tuple(shape), lambda idx: el(*idx), kind)
    return wrap(I, r)


from . import npfuncs  # noqa: E402,F401
