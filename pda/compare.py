"""Comparison of abstract values: the value graph derived from the code against the value graph derived from a specification.

A pair of values agrees on a region of the index space when the normal form of their difference is zero.  A difference whose normal
form is not zero is reported only if it is also non-zero as a function (identity test at generic points) and is built from
operations that both sides share; everything else is counted as undecided and stays silent.
"""
import itertools
from . import expr as X
from . import dom as D
from . import npmodel
from .dom import Arr, Num, Seq, Str, NoneV, Dct, Top, PyRaise, Inst, CondList
from .expr import Undecided, NeedSplit, ZERO, atom_expr, lift

IV = [X.sym("_q%d" % k, integer=True, idx=True) for k in range(6)]


class Diff:
    def __init__(self, what, msg):
        self.what, self.msg = what, msg

    def __repr__(self):
        return "%s: %s" % (self.what, self.msg)


class Outcome:
    def __init__(self):
        self.proved = 0       # regions with normal form zero
        self.agreed = 0       # regions equal at all generic points only
        self.undecided = []   # (what, why)
        self.diffs = []

    def merge(self, o):
        self.proved += o.proved
        self.agreed += o.agreed
        self.undecided += o.undecided
        self.diffs += o.diffs


def opaque_ops(e, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def visit(e):
        for a in X.walk_atoms(e):
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "elem" and a.args[0].opaque and a.args[0].opaque != "let":
                acc.add(a.args[0].opaque)
            elif a.kind == "fn" and str(a.args[0]) not in KNOWN_FN:
                acc.add("fn:" + str(a.args[0]))
    visit(e)
    return acc


KNOWN_FN = {"sqrt", "abs", "inv", "expi", "exp", "conj", "atan2", "log", "pos", "ge", "eq0", "floor", "ceil", "idiv", "irem", "sign", "min", "max",
            "pow", "isnan"}


def dim_atoms(es, ctx):
    out = set()
    for e in es:
        for a in X.walk_atoms(e):
            if a.kind == "sym" and a in ctx.dimmin:
                out.add(a)
    return out


def assignments(ctx, n=3):
    """small instances of the symbolic dimensions"""
    dims = sorted(ctx.dimmin, key=lambda a: a.id)
    for k in range(n):
        yield {a: ctx.dimmin[a] + (k * (j + 1) + (j * j) % 3) % 4 for j, a in enumerate(dims)}


def points(vs, box, env, limit=16):
    """sample points of an index box whose bounds may refer to each other's variables"""
    order, todo = [], list(range(len(box)))
    while todo:
        k = next((k for k in todo if not any(vs[j] in (box[k][0].deps | box[k][1].deps) for j in todo if j != k)), None)
        if k is None:
            raise Undecided("cyclic index bounds")
        order.append(k)
        todo.remove(k)
    n = 0

    def rec(d, b):
        if d == len(order):
            yield dict(b)
            return
        k = order[d]
        l, h = X._int(X.neval(box[k][0], env, b)), X._int(X.neval(box[k][1], env, b))
        r = list(range(l, h))
        r = r if len(r) <= 4 else [r[0], r[1], r[len(r) // 2], r[-1]]
        for q in r:
            b[vs[k]] = q
            yield from rec(d + 1, b)
            del b[vs[k]]
    for b in rec(0, {}):
        yield b
        n += 1
        if n >= limit:
            return


def numeric(res, ref, vs, box, ctx, tol=1e-6):
    """None: all zero; otherwise a witness (dims, index, value, reference)"""
    tested = tried = 0
    for s, dims in enumerate(assignments(ctx)):
        for seed in (11 + s, 29 + s):
            env = X.NumEnv(seed, dims)
            for b in points(vs, box, env):
                tried += 1
                try:
                    v = X.neval(res, env, b)
                    w = X.neval(ref, env, b)
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                tested += 1
                if not (abs(v) < 1e300 and abs(w) < 1e300):
                    continue
                if abs(v) > tol * (1 + abs(w)):
                    return dims, tuple(b.values()), v, w
    if not tried and box:
        return None       # empty region
    if not tested:
        raise Undecided("no generic point")
    return None


def show(e, n=260):
    s = X.show(e, 8)
    return s if len(s) <= n else s[:n] + "..."


def zero(e):
    try:
        return X.is_zero(e)
    except Undecided:
        return False


def cmp_expr(a, b, vs, box, what, ctx, out, spec_ops):
    r = npmodel.pin(a - b, vs, box)
    if zero(r):
        out.proved += 1
        return
    extra = opaque_ops(r) - spec_ops
    try:
        w = numeric(r, b, vs, box, ctx)
    except (Undecided, NeedSplit) as e:
        out.undecided.append((what, "generic point: %s" % e))
        return
    if w is None:
        out.agreed += 1
        return
    if extra:
        out.undecided.append((what, "uninterpreted operations " + ",".join(sorted(extra))))
        return
    bx = "" if not box else " for " + ", ".join("%s in [%s, %s)" % ("ijklmn"[k], show(lo, 40), show(hi, 40)) for k, (lo, hi) in enumerate(box))
    mp = {v: atom_expr(X.sym("ijklmn"[k], integer=True, idx=True)) for k, v in enumerate(vs)}
    try:
        sa, sb = show(X.subst(npmodel.pin(a, vs, box), mp)), show(X.subst(npmodel.pin(b, vs, box), mp))
    except Undecided:
        sa, sb = show(a), show(b)
    out.diffs.append(Diff(what, "computed%s:  %s  ---  required:  %s" % (bx, sa, sb)))


def collect_ops(v, ctx, acc):
    """uninterpreted operations in a specification value"""
    if isinstance(v, D.Opaque) and v.kind == "oneof":
        for z in v.kw["alts"]:
            collect_ops(z, ctx, acc)
    elif isinstance(v, Seq):
        for z in v.items:
            collect_ops(z, ctx, acc)
    elif isinstance(v, Num):
        opaque_ops(v.e, acc)
    elif isinstance(v, Arr):
        vs = IV[:v.ndim]
        try:
            for box, e in npmodel.regions(vs, v.shape, lambda box: v.at(*[atom_expr(q) for q in vs])):
                opaque_ops(e, acc)
        except (Undecided, NeedSplit):
            pass
    elif isinstance(v, Dct):
        for z in v.d.values():
            collect_ops(z, ctx, acc)


def same_type(code, spec, what, out):
    def t(v):
        if isinstance(v, Arr):
            return "array"
        if isinstance(v, Num):
            return "number"
        if isinstance(v, Seq):
            return "sequence"
        if isinstance(v, NoneV):
            return "None"
        if isinstance(v, Str):
            return "string"
        return type(v).__name__
    out.diffs.append(Diff(what, "result is %s where %s is required" % (t(code), t(spec))))


def compare(code, spec, ctx, what="result", out=None, spec_ops=None, shape_only=False):
    out = out or Outcome()
    if spec_ops is None:
        spec_ops = set()
        collect_ops(spec, ctx, spec_ops)
    if isinstance(spec, Str) and spec.s == "_":
        return out
    if isinstance(spec, D.Opaque) and spec.kind == "oneof":
        alts = spec.kw["alts"]
        for z in alts:
            if isinstance(z, Arr) and isinstance(code, Arr) and z.ndim == code.ndim or type(z) is type(code) and not isinstance(z, Arr):
                return compare(code, z, ctx, what, out, spec_ops, shape_only)
        return compare(code, alts[0], ctx, what, out, spec_ops, shape_only)
    if isinstance(code, Top) or isinstance(spec, Top):
        out.undecided.append((what, "unknown value: %s" % (code.why if isinstance(code, Top) else spec.why)))
        return out
    if isinstance(spec, Seq):
        if isinstance(code, Arr) and code.ndim == 1 and code.shape[0].cval() == len(spec.items):
            code = Seq([Num(code.at(k), code.kind) for k in range(len(spec.items))], True)
        if not isinstance(code, Seq):
            if isinstance(code, (Arr, Num, NoneV, Str)):
                same_type(code, spec, what, out)
            else:
                out.undecided.append((what, type(code).__name__))
            return out
        if len(code.items) != len(spec.items):
            out.diffs.append(Diff(what, "%d values returned, %d documented" % (len(code.items), len(spec.items))))
            return out
        for k, (c, s) in enumerate(zip(code.items, spec.items)):
            compare(c, s, ctx, "%s[%d]" % (what, k), out, spec_ops, shape_only)
        return out
    if isinstance(spec, NoneV):
        if isinstance(code, NoneV):
            out.proved += 1
        elif isinstance(code, (Arr, Num, Seq, Str)):
            same_type(code, spec, what, out)
        else:
            out.undecided.append((what, type(code).__name__))
        return out
    if isinstance(spec, Str):
        if isinstance(code, Str) and code.s is not None and spec.s is not None:
            if code.s == spec.s:
                out.proved += 1
            else:
                out.diffs.append(Diff(what, "string %r where %r is required" % (code.s, spec.s)))
        elif isinstance(code, (Arr, Num, Seq, NoneV)):
            same_type(code, spec, what, out)
        else:
            out.undecided.append((what, "string"))
        return out
    if isinstance(spec, Num):
        if isinstance(code, Arr) and code.ndim == 0:
            code = Num(code.at(), code.kind)
        if isinstance(code, Num):
            if not shape_only:
                cmp_expr(code.e, spec.e, [], [], what, ctx, out, spec_ops)
            else:
                out.proved += 1
        elif isinstance(code, (Arr, Seq, NoneV, Str)):
            same_type(code, spec, what, out)
        else:
            out.undecided.append((what, type(code).__name__))
        return out
    if isinstance(spec, Arr):
        if isinstance(code, Seq) and spec.ndim == 1 and not code.tup and all(isinstance(z, Num) for z in code.items):
            items = code.items
            code = Arr((len(items),), lambda idx: _pick(items, idx), "f")
        if isinstance(code, Num) and spec.ndim == 0:
            code = Arr((), lambda idx, e=code.e: e, code.kind)
        if not isinstance(code, Arr):
            if isinstance(code, (Num, Seq, NoneV, Str)):
                same_type(code, spec, what, out)
            else:
                out.undecided.append((what, type(code).__name__))
            return out
        if code.cls not in ("nd", "matrix") and spec.cls == "nd":
            out.undecided.append((what, "array class " + code.cls)) if code.ndim != spec.ndim else None
        if code.ndim != spec.ndim:
            out.diffs.append(Diff(what, "%d-dimensional result where %d dimensions are required" % (code.ndim, spec.ndim)))
            return out
        for k, (p, q) in enumerate(zip(code.shape, spec.shape)):
            d = p - q
            if zero(d):
                continue
            try:
                w = numeric(d, q, [], [], ctx)
            except (Undecided, NeedSplit) as e:
                out.undecided.append((what, "shape: %s" % e))
                return out
            if w is not None:
                if opaque_ops(d) - spec_ops:
                    out.undecided.append((what, "shape"))
                else:
                    out.diffs.append(Diff(what, "axis %d has length %s, required is %s" % (k, show(p, 80), show(q, 80))))
                return out
        if shape_only:
            out.proved += 1
            return out
        vs = IV[:spec.ndim]
        ev = [atom_expr(q) for q in vs]
        done = []

        def body(box):
            q = [lo if (hi - lo).cval() == 1 else e for e, (lo, hi) in zip(ev, box)]
            return code.at(*q), spec.at(*q)
        try:
            regs = npmodel.regions(vs, spec.shape, body)
        except (Undecided, NeedSplit) as e:
            out.undecided.append((what, str(e)))
            return out
        for box, (a, b) in regs:
            def nest(k):
                if k == len(vs):
                    cmp_expr(a, b, vs, box, what, ctx, out, spec_ops)
                    return
                D.with_range(vs[k], box[k][0], box[k][1], True, lambda: nest(k + 1))
            try:
                nest(0)
            except (Undecided, NeedSplit) as e:
                out.undecided.append((what, str(e)))
        return out
    if isinstance(spec, Dct):
        if isinstance(code, Inst):
            code = Dct(code.attrs)
        if not isinstance(code, Dct):
            out.undecided.append((what, type(code).__name__))
            return out
        for k, s in spec.d.items():
            if k not in code.d:
                out.diffs.append(Diff(what, "%s is not set" % (k,)))
            else:
                compare(code.d[k], s, ctx, "%s.%s" % (what, k), out, spec_ops, shape_only)
        return out
    out.undecided.append((what, "specification value %s" % type(spec).__name__))
    return out


def _pick(items, idx):
    return items[D.pick(idx[0], len(items))].e
