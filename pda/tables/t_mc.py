"""Block-wise Monte Carlo."""
from ..cases import *
from .. import expr as X, dom as D, npmodel as NM


def sampler(b, p, shape2=None):
    """draw_samples: successive rows of one infinite table of samples"""
    t = b._tok("smp", real=True)
    st = {"n": 0}
    cols = (const(p),) if p else ()

    def f(I, a, k):
        n = _conc(a[0])
        base = st["n"]
        st["n"] += n
        return Arr((const(n),) + cols, lambda i: X.elem(t, i[0] + base, *i[1:]), "f")
    return Model(f, "draw_samples")


def _conc(v):
    c = v.e.cval() if isinstance(v, Num) else None
    if c is None:
        raise Undecided("number of samples")
    return int(c)


def table(b, n, p):
    t = b._tok("smp", real=True)
    return Arr((const(n),) + ((const(p),) if p else ()), lambda i: X.elem(t, *i), "f")


def evalfn(shape):
    def f(I, a, k):
        if len(a) != 1 or k:
            raise PyRaise("TypeError", None, "")
        return NM.opaque(I, "user:evaluate", [D_arr(a[0])], tuple(const(s) for s in shape), "f")
    return Model(f, "evaluate")


def D_arr(v):
    return Arr((), lambda i: v.e, v.kind) if isinstance(v, Num) else v


def add(runs, block, init, shape, p=2, nb=None, ret=False, cpu=1, thorough=False):
    nm = "r%d-b%d-i%d-%s-p%d%s%s%s" % (runs, block, init, "x".join(map(str, shape)), p, "-nb%s" % nb if nb else "", "-ret" if ret else "",
                                   "" if cpu == 1 else "-cpu%s" % cpu)

    def spec(b):
        return [table(b, runs + init, p), evalfn(shape), b.int(runs), b.int(init), tup(*[b.int(s) for s in shape]),
                lst(*[b.int(z) for z in (nb or [100])]), TRUE if ret else FALSE], {}

    @case("C14 C10 C11 C18" + (" C21" if cpu != 1 else ""), MCM, "UMC_generic", nm, "umcgeneric", specargs=spec, thorough=thorough, cost=runs)
    def _(b):
        kw = {"runs": b.int(runs), "blocksize": b.int(block), "runs_init": b.int(init)}
        if cpu is not None:
            kw["n_cpu"] = b.int(cpu)
        if nb:
            kw["nbins"] = lst(*[b.int(z) for z in nb]) if len(nb) > 1 else b.int(nb[0])
        if ret:
            kw["return_samples"] = TRUE
        return [sampler(b, p), evalfn(shape)], kw


for runs, block in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (5, 2), (5, 3), (2, 8), (4, 3), (6, 4), (7, 3)):
    add(runs, block, 1 if runs > 6 else 2, (2,), nb=[2])
    add(runs, block, 1, (2,), nb=[3], ret=True)
    if runs < 6:
        add(runs, block, 3, (2, 2), nb=[2, 3], ret=True, cpu=2)
        add(runs, block, 2, (1,), nb=[2], cpu=3, ret=True)
        add(runs, block, 2, (1, 2), nb=[2], ret=True, p=3)
add(4, 2, 2, (2,))


def add_mc(name, ux="vec", N="N", na=3, nb=2, blow=None, alow=None, ret=False, shift=None, verbose=False, runs=None, thorough=False):
    nm = "%s-%s%s%s%s%s" % (name, ux, "-blow" if blow else "", "-alow" if alow else "", "-ret" if ret else "", "-shift%s" % shift if shift is not None else "")

    def base(b):
        n = b.dim("N", 16) if N == "N" else N
        r = b.dim("R", 16)
        U = {"vec": lambda: b.nonneg("ux", n), "cov": lambda: b.cov("Ux", n), "num": lambda: b.num("s", sign=1)}[ux]()
        return n, r, [b.vec("x", n), U, b.vec("b", nb), b.vec("a", na), b.cov("Uab", na + nb - 1)]

    def opts(b):
        return {"blow": b.vec("bl", 3) if blow else NONE, "alow": b.vec("al", 2) if alow else NONE,
                "ret": TRUE if ret else FALSE, "shift": b.int(shift or 0) if not isinstance(shift, float) else Num(const(int(shift)), "f")}

    def spec(b):
        n, r, a = base(b)
        o = opts(b)
        return a + [Num(r, "i"), o["blow"], o["alow"], o["ret"], o["shift"]], {}

    @case("C15 C10 C11 C18", MCM, "MC", nm, "mcspec", specargs=spec, thorough=thorough)
    def _(b):
        n, r, a = base(b)
        o = opts(b)
        kw = {"runs": Num(r, "i")}
        if blow:
            kw["blow"] = o["blow"]
        if alow:
            kw["alow"] = o["alow"]
        if ret:
            kw["return_samples"] = TRUE
        if shift is not None:
            kw["shift"] = o["shift"]
        if not verbose:
            kw["verbose"] = FALSE
        return a, kw


for ux in ("vec", "cov", "num"):
    for ret in (False, True):
        add_mc("N", ux, ret=ret)
        add_mc("N", ux, ret=ret, blow=True)
        add_mc("N", ux, ret=ret, blow=True, alow=True)
        add_mc("N", ux, ret=ret, shift=2)
        add_mc("N", ux, ret=ret, shift=-1)


def add_smc(name, n=3, na=1, nb=2, uab=True, kd="f", perc=None, blow=0, alow=0, shift=None, ret=False, phi=None, theta=None, delta=False,
            thorough=False, given=False):
    """na: order of the denominator"""
    def base(b):
        A = b.earr([ONE] + [b.sym("a%d" % k, sign=0) for k in range(1, na + 1)]) if na is not None else b.num("a0c", sign=2)
        q = (na or 0) + nb
        return [b.vec("x", const(n), kd), b.num("s", sign=1), b.vec("b", const(nb)), A], q

    def opts(b, q):
        o = {"Uab": b.cov("ab", const(q)) if uab else NONE, "runs": Num(b.dim("R", 2), "i"),
             "Perc": lst(*[Num(const(X.Fraction(z, 100)), "f") for z in perc]) if perc else NONE,
             "blow": b.vec("bl", const(blow)) if blow else NONE,
             "alow": b.earr([ONE] + [b.sym("al%d" % k, sign=0) for k in range(1, alow + 1)]) if alow else NONE,
             "shift": b.int(shift or 0), "ret": TRUE if ret else FALSE}
        for nm, v in (("phi", phi), ("theta", theta)):
            o[nm] = NONE if v is None else (b.num(nm) if v == 0 else b.vec(nm, const(v)))
        o["Delta"] = b.num("Dl", sign=1) if delta else num(0)
        return o

    def spec(b):
        a, q = base(b)
        o = opts(b, q)
        return a + [o[z] for z in ("Uab", "runs", "Perc", "blow", "alow", "shift", "ret", "phi", "theta", "Delta")], {}

    @case("C15 C11 C18", MCM, "SMC", name, "smcspec", specargs=spec, thorough=thorough)
    def _(b):
        a, q = base(b)
        o = opts(b, q)
        kw = {"runs": o["runs"]}
        for nm, on in (("Uab", uab), ("Perc", perc), ("blow", blow), ("alow", alow), ("shift", shift is not None), ("phi", phi is not None),
                       ("theta", theta is not None), ("Delta", delta)):
            if on or given:
                kw[nm] = o[nm]
        if ret:
            kw["return_samples"] = TRUE
        return a, kw


for na, nb in ((0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)):
    for ret in (False, True):
        add_smc("na%d-nb%d%s" % (na, nb, "-ret" if ret else ""), na=na, nb=nb, ret=ret, n=4 if max(na, nb) > 2 else 3)
        add_smc("na%d-nb%d-certain%s" % (na, nb, "-ret" if ret else ""), na=na, nb=nb, ret=ret, uab=False)
        add_smc("na%d-nb%d-int%s" % (na, nb, "-ret" if ret else ""), na=na, nb=nb, ret=ret, kd="i")
for ret in (False, True):
    r = "-ret" if ret else ""
    for p in (0, 1, 2, 3):
        add_smc("phi%d%s" % (p, r), phi=p, ret=ret, n=4)
        add_smc("theta%d%s" % (p, r), theta=p, ret=ret, n=4)
        add_smc("phi%d-theta2%s" % (p, r), phi=p, theta=2, ret=ret, n=4)
        add_smc("phi2-theta%d%s" % (p, r), phi=2, theta=p, ret=ret, n=4)
    for bl, al in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        add_smc("blow%d-alow%d%s" % (bl, al, r), blow=bl, alow=al, ret=ret, n=4)
        add_smc("blow%d-alow%d-phi1-theta1%s" % (bl, al, r), blow=bl, alow=al, phi=1, theta=1, ret=ret)
    for sh in (0, 1, 2, -1):
        add_smc("shift%d%s" % (sh, r), shift=sh, ret=ret)
        add_smc("shift%d-delta%s" % (sh, r), shift=sh, delta=True, ret=ret)
    add_smc("all" + r, na=1, nb=2, n=3, blow=2, alow=1, phi=2, theta=1, delta=True, shift=1, ret=ret)
    add_smc("perc" + r, perc=(5, 95), ret=ret)
    add_smc("perc-shift" + r, perc=(5, 95), shift=1, ret=ret)
    add_smc("given-none" + r, ret=ret, given=True)
    add_smc("nodenominator" + r, na=None, nb=2, ret=ret)


def add_umc(name, n=2, na=1, nb=1, runs=2, init=1, block=2, blow=None, alow=None, phi=None, theta=None, sigma=True, delta=True, bins=(2,), cred=None,
            xk="f", thorough=False):
    def base(b):
        A = b.earr([ONE] + [b.sym("a%d" % k, sign=0) for k in range(1, na + 1)])
        return [b.vec("x", const(n), xk), b.vec("b", const(nb)), A, b.cov("ab", const(na + nb))]

    def co(b, nm, v, dflt):
        """what is passed, what it means"""
        if v is None:
            return None, vec1(dflt)
        if v == 0:
            s = b.num(nm)
            return s, Arr((ONE,), lambda i: s.e, "f")
        w = b.vec(nm, const(v))
        return w, w

    def opts(b):
        o = {}
        o["blow"] = co(b, "bl", blow, 1)
        if alow is None:
            o["alow"] = (None, vec1(1))
        else:
            v = b.earr([b.sym("al%d" % k, sign=2 if k == 0 else 0) for k in range(alow)])
            o["alow"] = (v, v)
        o["phi"] = co(b, "phi", phi, 0)
        o["theta"] = co(b, "theta", theta, 0)
        s = b.num("sg", sign=1)
        o["sigma"] = (s, s) if sigma else (None, num(1))
        s = b.num("Dl", sign=1)
        o["Delta"] = (s, s) if delta else (None, num(0))
        o["credible_interval"] = (None, Num(const(X.Fraction(95, 100)), "f")) if cred is None else (Num(b.sym("ci"), "f"),) * 2
        return o

    def spec(b):
        o = opts(b)
        return base(b) + [b.int(runs), b.int(init), b.int(block)] + [o[z][1] for z in ("blow", "alow", "phi", "theta", "sigma", "Delta")] + [
            lst(*[b.int(z) for z in bins]), o["credible_interval"][1]], {}

    @case("C15 C11 C18 C21", MCM, "UMC", name, "umcspec", specargs=spec, thorough=thorough)
    def _(b):
        o = opts(b)
        kw = {"runs": b.int(runs), "runs_init": b.int(init), "blocksize": b.int(block), "nbins": lst(*[b.int(z) for z in bins]) if len(bins) > 1 else b.int(bins[0])}
        for k, v in o.items():
            if v[0] is not None:
                kw[k] = v[0]
        return base(b), kw


def vec1(z):
    return Arr((ONE,), lambda i: const(z), "f")


for na, nb in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 1)):
    add_umc("na%d-nb%d" % (na, nb), na=na, nb=nb, n=3 if max(na, nb) > 1 else 2)
for p in (0, 1, 2):
    add_umc("phi%d" % p, phi=p, n=3, na=0)
    add_umc("theta%d" % p, theta=p, n=3, na=0)
    add_umc("phi1-theta%d" % p, phi=1, theta=p, n=2)
    add_umc("phi%d-theta1" % p, phi=p, theta=1, n=2)
add_umc("nosigma", sigma=False)
add_umc("nodelta", delta=False)
add_umc("noopt", delta=False, sigma=False)
for bl, al in ((0, None), (1, None), (2, None), (3, None), (2, 1), (2, 2), (0, 2), (3, 3)):
    add_umc("blow%s-alow%s" % (bl, al), blow=bl, alow=al, n=3 if max(bl, al or 0) > 1 else 2, na=0)
for runs, block, init in ((1, 1, 1), (1, 2, 2), (2, 1, 1), (3, 2, 1), (3, 1, 2), (4, 3, 2), (3, 8, 2)):
    add_umc("runs%d-block%d-init%d" % (runs, block, init), runs=runs, block=block, init=init, na=0, n=2)
add_umc("bins1", bins=(1,))
add_umc("bins3", bins=(3,))
add_umc("bins2-4", bins=(2, 4))
add_umc("cred", cred=True)
add_umc("cred-bins2-3", cred=True, bins=(2, 3))
add_umc("n1", n=1)
add_umc("int", xk="i")
add_umc("all", n=2, na=1, nb=1, blow=2, alow=1, phi=1, theta=1, cred=True)
add_umc("all-fir", n=3, na=0, nb=2, blow=2, alow=None, phi=1, theta=2, cred=True, runs=3)
