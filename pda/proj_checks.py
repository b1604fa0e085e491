"""What each property asks of one case of the table."""
from . import cases, compare, npmodel, dom as D, expr as X
from .dom import Arr, Seq, Num, Dct
from .expr import Undecided, NeedSplit, atom_expr


def summary(R, prop):
    return {"id": R.case.id, "key": R.key, "status": R.status, "why": R.why, "proved": R.outcome.proved, "agreed": R.outcome.agreed,
            "und": ["%s: %s" % z for z in R.outcome.undecided], "diffs": [repr(d) for d in R.outcome.diffs],
            "funcs": ["%s.%s" % tuple(q[:2]) for q in R.funcs], "fallbacks": [str(z) for z in R.fallbacks[:5]], "where": R.where,
            "events": [repr(e) for e in R.events[:10]], "wall": round(R.wall, 2), "visited": [list(v) for v in (R.visited or ())]}


def run(project, c, prop):
    if prop == "C10":
        R = cases.run_case(project, c)
        return symmetric(R)
    if prop == "C11":
        shape, c.shape_only = c.shape_only, True
        try:
            R = cases.run_case(project, c)
        finally:
            c.shape_only = shape
        return summary(R, prop)
    if prop in ("C12", "C13"):
        return scaled(project, c, prop)
    R = cases.run_case(project, c)
    s = summary(R, prop)
    if s["status"] == "violation" and R.key != c.id and prop != c.props[0]:
        s["status"], s["diffs"] = "ok", []       # the recorded deviation belongs to another property
    if s["status"] != "violation":
        tr = [e for e in R.events if e.kind == "trunc"]
        if tr:
            s["status"] = "violation"
            s["diffs"] = ["fractional values are stored into an integer array at %s (%s)" % (e.where, e.func) for e in tr[:3]]
            s["where"] = tr[0].where
    return s


def squares(v, spec, what="result"):
    """matrices that the specification shows as symmetric covariances"""
    if isinstance(spec, D.Opaque) and spec.kind == "oneof":
        if isinstance(v, Arr):
            for z in spec.kw["alts"]:
                if isinstance(z, Arr) and z.ndim == v.ndim:
                    yield from squares(v, z, what)
        return
    if isinstance(spec, Seq) and isinstance(v, Seq) and len(v.items) == len(spec.items):
        for k, (a, b) in enumerate(zip(v.items, spec.items)):
            yield from squares(a, b, "%s[%d]" % (what, k))
    elif isinstance(spec, Arr) and isinstance(v, Arr) and spec.ndim == 2 and v.ndim == 2:
        if compare.zero(spec.shape[0] - spec.shape[1]) and compare.zero(v.shape[0] - v.shape[1]):
            yield what, v, spec


def asym(v, ctx, out, what):
    """obligations that v equals its transpose"""
    t = Arr((v.shape[1], v.shape[0]), lambda idx: v.at(idx[1], idx[0]), v.kind)
    ops = set()
    compare.collect_ops(v, ctx, ops)
    compare.compare(v, t, ctx, what, out, ops)


def symmetric(R):
    s = summary(R, "C10")
    if R.status in ("raised",) or R.spec_value is None:
        s["status"] = "undecided"
        s["why"] = R.why or "no result"
        return s
    D.set_ctx(R.ctx)
    o = compare.Outcome()
    n = 0
    for what, v, spec in squares(R.value, R.spec_value):
        so = compare.Outcome()
        try:
            asym(spec, R.ctx, so, what)
        except (Undecided, NeedSplit):
            continue
        if so.diffs or so.undecided:
            continue       # not a symmetric quantity by specification
        n += 1
        try:
            asym(v, R.ctx, o, what + " against its transpose")
        except (Undecided, NeedSplit) as e:
            o.undecided.append((what, str(e)))
    s.update(proved=o.proved, agreed=o.agreed, und=["%s: %s" % z for z in o.undecided], diffs=[repr(d) for d in o.diffs])
    s["status"] = "violation" if o.diffs else ("undecided" if o.undecided or not n else "ok")
    if not n:
        s["status"] = "skip"
    s["why"] = "" if n else "no covariance matrix among the results (%s)" % (R.why or R.status)
    return s


def scaled(project, c, prop):
    raise NotImplementedError
