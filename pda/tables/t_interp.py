"""Interpolation: concrete numbers of nodes and points, symbolic positions with every order decided."""
from ..cases import *
from .. import expr as X

P9 = "C09 C10 C11 C12 C18"


class Grid:
    """t_k+1 = t_k + a_k + b_k; points: node, between (t_k + a_k), below, above"""

    def __init__(self, b, n, split="free"):
        self.n = n
        t0 = b.sym("t0", sign=0)
        self.t, self.a, self.b = [t0], [], []
        for k in range(n - 1):
            if split == "left":        # point nearer to the left node
                p = b.sym("p%d" % k)
                q = p + b.sym("e%d" % k)
            elif split == "right":
                q = b.sym("p%d" % k)
                p = q + b.sym("e%d" % k)
            elif split == "mid":
                p = q = b.sym("p%d" % k)
            else:
                p, q = b.sym("p%d" % k), b.sym("q%d" % k)
            self.a.append(p)
            self.b.append(q)
            self.t.append(self.t[-1] + p + q)
        self.lo, self.hi = t0 - b.sym("r0"), self.t[-1] + b.sym("r1")
        self.split = split

    def pos(self, c):
        if c == "<":
            return self.lo
        if c == ">":
            return self.hi
        k = int(c[1:])
        return self.t[k] if c[0] == "n" else self.t[k] + self.a[k]

    def weights(self, c, kind):
        """list of (node, weight) for a point inside the range"""
        k = int(c[1:])
        if c[0] == "n":
            return [(k, ONE)]
        if kind == "linear":
            s = self.a[k] + self.b[k]
            return [(k, self.b[k] / s), (k + 1, self.a[k] / s)]
        if kind == "previous":
            return [(k, ONE)]
        if kind == "next":
            return [(k + 1, ONE)]
        return [(k + 1, ONE)] if self.split == "right" else [(k, ONE)]


def expect(b, g, codes, y, u, kind, fv, fu, withc):
    """fv/fu: (below, above) expressions, or "ends" """
    ys, us, C = [], [], []
    for c in codes:
        row = [ZERO] * g.n
        if c in "<>":
            e = 0 if c == "<" else g.n - 1
            ys.append(y[e] if fv == "ends" else fv[c == ">"])
            us.append(u[e] if fu == "ends" else fu[c == ">"])
            row[e] = ONE
        else:
            w = g.weights(c, kind)
            ys.append(sum((x * y[k] for k, x in w), ZERO))
            us.append(X.sqrt(sum((x * x * u[k] * u[k] for k, x in w), ZERO)) if len(w) > 1 else u[w[0][0]])
            for k, x in w:
                row[k] = x
        C.append(row)
    r = [b.earr([g.pos(c) for c in codes]), b.earr(ys), b.earr(us)]
    if withc:
        from .. import dom
        r.append(Arr((const(len(codes)), const(g.n)), lambda i: C[dom.pick(i[0], len(codes))][dom.pick(i[1], g.n)], "f"))
    return r


def add(n, codes, kind="linear", split="free", fv=None, fu=None, be=None, rc=False, order=None, kd="f", name="", cp=None, thorough=False):
    """fv, fu: None (default), "num", "tup", "ext"; order: permutation of the nodes with assume_sorted=False"""
    nm = "%s-%d-%s-%s%s%s%s%s%s%s%s" % (kind, n, "".join(codes), split, "-fv%s" % fv if fv else "", "-fu%s" % fu if fu else "",
                                 "" if be is None else "-be%s" % be, "-C" if rc else "", "-perm%s" % "".join(map(str, order)) if order else "",
                                 "-" + kd if kd != "f" else "", "-cp" if cp else "")

    def inputs(b):
        g = Grid(b, n, split)
        y = [b.sym("y%d" % k, kd, 0) for k in range(n)]
        u = [b.sym("u%d" % k, kd, 1) for k in range(n)]
        return g, y, u

    def fill(b, w, p, sign):
        if w == "num":
            q = b.sym(p, sign=sign)
            return (q, q)
        if w == "int":
            return (const(3), const(3))
        if w == "tup":
            return (b.sym(p + "L", sign=sign), b.sym(p + "R", sign=sign))
        if w == "ext":
            return "ends"
        return (atom_expr(X.NAN),) * 2

    def spec(b):
        g, y, u = inputs(b)
        return expect(b, g, codes, y, u, kind, fill(b, fv, "fv", 0), fill(b, fu, "fu", 1), rc), {}

    outside = any(c in "<>" for c in codes)
    raises = None
    if outside and (be is True or (be is None and fv != "ext")):
        raises = "ValueError"
    if (rc and kind != "linear") or (rc and be is False and fu != "ext"):
        raises = "NotImplementedError"

    @case(P9 if not raises else "C09", INTP, "interp1d_unc", nm, None if raises else "interp_out", specargs=spec, raises=raises, thorough=thorough)
    def _(b):
        g, y, u = inputs(b)
        o = order or list(range(n))
        a = [b.earr([g.pos(c) for c in codes]), b.earr([g.t[q] for q in o]), b.earr([y[q] for q in o], kd), b.earr([u[q] for q in o], kd)]
        kw = {}
        if kind != "linear":
            kw["kind"] = S(kind)
        for w, p, nme, sg in ((fv, "fv", "fill_value", 0), (fu, "fu", "fill_unc", 1)):
            if w == "ext":
                kw[nme] = S("extrapolate")
            elif w == "int":
                kw[nme] = b.int(3)
            elif w == "num":
                kw[nme] = Num(fill(b, w, p, sg)[0], "f")
            elif w == "tup":
                kw[nme] = tup(*[Num(z, "f") for z in fill(b, w, p, sg)])
        if be is not None:
            kw["bounds_error"] = TRUE if be else FALSE
        if rc:
            kw["returnC"] = TRUE
        if order:
            kw["assume_sorted"] = FALSE
        if cp is not None:
            kw["copy"] = TRUE if cp else FALSE
        return a, kw


for n in (2, 3, 4):
    inside = ["b%d" % k for k in range(n - 1)]
    nodes = ["n%d" % k for k in range(n)]
    mixed = [inside[-1], "n0", inside[0], "n%d" % (n - 1)]
    for rc in (False, True):
        add(n, inside, rc=rc)
        add(n, nodes, rc=rc)
        add(n, mixed, rc=rc)
        add(n, ["<", inside[0], ">", "n%d" % (n - 1), "<"], rc=rc, fv="ext", fu="ext")
        add(n, ["<", ">"], rc=rc, fv="ext", fu="ext")
        add(n, [">", inside[-1], "n0", "<"], rc=rc, fv="tup", fu="ext", be=False)
    for fv, fu, be in (("num", "num", False), ("tup", "tup", False), ("num", "tup", False), (None, None, False), ("ext", "num", None),
                       ("ext", "tup", None), ("ext", "ext", False), ("ext", "tup", False), ("tup", "ext", False), (None, "ext", False), ("ext", None, None)):
        add(n, ["<", inside[0], ">", "n0"], fv=fv, fu=fu, be=be)
        add(n, [inside[-1], ">"], fv=fv, fu=fu, be=be)
        add(n, ["<", "n%d" % (n - 1)], fv=fv, fu=fu, be=be)
        for kind in ("previous", "next", "nearest"):
            add(n, ["<", inside[0], ">", "n0"], kind, "left", fv=fv, fu=fu, be=be)
    add(n, [inside[0], "<"], fu="int", be=False, fv="int", kd="i")
    add(n, [">", inside[0], "<"], fu="int", be=False)
    for codes in (["<"], [">"], inside + [">"], ["<"] + nodes):
        add(n, codes)
        add(n, codes, be=True)
        add(n, codes, be=True, fv="num", fu="num")
    add(n, inside + nodes, be=True, fv="num", fu="num")
    add(n, inside, be=True)
    add(n, ["<", inside[0]], rc=True, fv="num", fu="num", be=False)
    add(n, inside, rc=True, kind="nearest", split="left")
    for kind in ("previous", "next", "nearest"):
        for split in ("left", "right", "mid"):
            if kind != "nearest" and split != "left":
                continue
            add(n, inside + nodes, kind, split)
            add(n, nodes[::-1] + inside[::-1], kind, split)
    perm = list(range(n))[::-1]
    perms = [perm] + ([[1, 0, 2], [2, 0, 1]] if n == 3 else []) + ([[2, 0, 3, 1], [1, 3, 2, 0]] if n == 4 else [])
    for o in perms:
        for rc in (False, True):
            add(n, mixed, order=o, rc=rc)
            add(n, ["<", inside[0], ">"], order=o, rc=rc, fv="ext", fu="ext")
        for kind in ("previous", "next", "nearest"):
            add(n, inside + nodes, kind, "left", order=o)
            add(n, ["<", inside[0], ">"], kind, "left", order=o, fv="ext", fu="ext")
        add(n, mixed, order=o, cp=True)
    add(n, mixed, kd="i")
    add(n, mixed, cp=True)
    add(n, mixed, kd="i", rc=True)
    add(n, mixed, kind="previous", split="left", kd="i")


def add_eq(n, gaps, kind, frac, kd="f"):
    """make_equidistant: nodes at multiples of dt/2"""
    # node positions in units of dt/2; the last node strictly between grid points (frac) or on one
    pos = [0]
    for g in gaps:
        pos.append(pos[-1] + g)

    def inputs(b):
        d = b.sym("dt")
        t0 = b.sym("t0", sign=0)
        t = [t0 + const(p) * d / const(2) for p in pos]
        y = [b.sym("y%d" % k, kd, 0) for k in range(n)]
        u = [b.sym("u%d" % k, kd, 1) for k in range(n)]
        return d, t0, t, y, u

    def spec(b):
        d, t0, t, y, u = inputs(b)
        m = -(-pos[-1] // 2)        # grid points strictly before the end
        ts, ys, us = [], [], []
        for q in range(m):
            x = 2 * q
            ts.append(t0 + const(q) * d)
            k = max(z for z in range(n) if pos[z] <= x)
            if pos[k] == x:
                w = [(k, ONE)]
            elif kind == "linear":
                s = const(pos[k + 1] - pos[k])
                w = [(k, const(pos[k + 1] - x) / s), (k + 1, const(x - pos[k]) / s)]
            elif kind == "previous":
                w = [(k, ONE)]
            elif kind == "next":
                w = [(k + 1, ONE)]
            else:
                w = [(k, ONE)] if x - pos[k] <= pos[k + 1] - x else [(k + 1, ONE)]
            ys.append(sum((z * y[j] for j, z in w), ZERO))
            us.append(X.sqrt(sum((z * z * u[j] * u[j] for j, z in w), ZERO)) if len(w) > 1 else u[w[0][0]])
        return [b.earr(ts), b.earr(ys), b.earr(us)], {}

    @case("C09 C11 C18", INTP, "make_equidistant", "%s-%s%s" % (kind, "".join(map(str, gaps)), "-int" if kd == "i" else ""), "interp_out", specargs=spec)
    def _(b):
        d, t0, t, y, u = inputs(b)
        kw = {"dt": Num(d, "f")}
        if kind != "linear":
            kw["kind"] = S(kind)
        return [b.earr(t), b.earr(y, kd), b.earr(u, kd)], kw


for kind in ("linear", "previous", "next", "nearest"):
    for gaps in ((3,), (1, 2), (3, 1), (1, 3, 1), (3, 3), (2, 2), (5, 1, 1), (3, 4)):
        add_eq(len(gaps) + 1, gaps, kind, 0)
    add_eq(3, (1, 3), kind, 0, "i")
