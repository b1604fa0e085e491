"""Least-squares filter fits."""
from ..cases import *
from .. import expr as X

FF = "PyDynamic.model_estimation.fit_filter"


def resp(b, M):
    """complex response given by its real and imaginary parts"""
    h, g = b.vec("hr", M), b.vec("hi", M)
    return Arr((M,), lambda i: h.at(*i) + X.atom_expr(X.I) * g.at(*i), "c")


def freq(b, M, kd="f"):
    return b.vec("f", M, kd, sign=1)


def add_fir(func, inv, N, wt, kd="c", tau="f", fk="f"):
    def base(b):
        M = b.dim("M", 8)
        return [b.vec("H", M, kd), b.int(N), b.num("tau", tau), freq(b, M, fk), b.num("Fs", sign=1)]

    def W(b):
        M = b.dim("M", 8)
        return {"": NONE, "vec": b.nonneg("wt", M), "mat": b.mat("W", M, M)}[wt]

    @case("C24 C11 C18", FF, func, "N%d-%s-%s%s%s" % (N, wt, kd, tau, fk), "firfit", specargs=lambda b: (base(b) + [W(b), TRUE if inv else FALSE], {}))
    def _(b):
        return base(b), ({"Wt": W(b)} if wt else {})


for func, inv in (("LSFIR", False), ("invLSFIR", True)):
    for wt in ("", "vec", "mat"):
        for N in (0, 1, 2, 3):
            add_fir(func, inv, N, wt)
        add_fir(func, inv, 1, wt, "i")
        add_fir(func, inv, 1, wt, "f", "i", "i")


def add_iir(func, inv, Nb, Na, kd="c", tau="f"):
    def base(b):
        M = b.dim("M", 8)
        return [b.vec("H", M, kd), b.int(Nb), b.int(Na), freq(b, M), b.num("Fs", sign=1), b.num("tau", tau)]

    @case("C24 C11 C18", FF, func, "Nb%d-Na%d-%s%s" % (Nb, Na, kd, tau), "iirspec", specargs=lambda b: (base(b) + [TRUE if inv else FALSE], {}))
    def _(b):
        kw = {"justFit": TRUE}
        return base(b), kw


for func, inv in (("LSIIR", False), ("invLSIIR", True)):
    for Nb, Na in ((0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (0, 2)):
        add_iir(func, inv, Nb, Na)
    add_iir(func, inv, 1, 1, "i")
    add_iir(func, inv, 1, 1, "c", "i")


def add_unc(N, form="c", wt=False, tol=False, verbose=None, tau="f"):
    def base(b):
        M = b.dim("M", 8)
        H = resp(b, M) if form == "c" else b.vec("h", 2 * M)
        return [H, b.cov("U", 2 * M), b.int(N), b.num("tau", tau), freq(b, M), b.num("Fs", sign=1)]

    def W(b):
        return b.vec("wt", 2 * b.dim("M", 8), sign=1) if wt else NONE

    @case("C24 C10 C11 C18", FF, "invLSFIR_unc", "N%d-%s%s%s%s%s" % (N, form, "-wt" if wt else "", "-tol" if tol else "", "-quiet" if verbose else "", "-" + tau), "fitunc",
          specargs=lambda b: (base(b) + [W(b), b.num("tol", sign=1) if tol else NONE], {}))
    def _(b):
        kw = {}
        if wt:
            kw["wt"] = W(b)
        if tol:
            kw["trunc_svd_tol"] = b.num("tol", sign=1)
        if verbose:
            kw["verbose"] = FALSE
        return base(b), kw


for N in (1, 2):
    for form in "cr":
        for wt in (False, True):
            for tol in (False, True):
                add_unc(N, form, wt, tol)
add_unc(1, verbose=True)
add_unc(1, tau="i")


@case("C24 C10 C11", FF, "invLSFIR_uncMC", "N1", "firuncmc")
def _(b):
    M = b.dim("M", 8)
    return [resp(b, M), b.cov("U", 2 * M), b.int(1), b.num("tau"), freq(b, M), b.num("Fs", sign=1)], {}


@case("C24 C10 C11", FF, "invLSFIR_uncMC", "N2-quiet", "firuncmc", specargs=lambda b: (
        [resp(b, b.dim("M", 8)), b.cov("U", 2 * b.dim("M", 8)), b.int(2), b.num("tau"), freq(b, b.dim("M", 8)), b.num("Fs", sign=1)], {}))
def _(b):
    M = b.dim("M", 8)
    return [resp(b, M), b.cov("U", 2 * M), b.int(2), b.num("tau"), freq(b, M), b.num("Fs", sign=1)], {"verbose": FALSE}


@case("C24 C19", FF, "invLSFIR_unc", "wt-size", raises="ValueError")
def _(b):
    M = b.dim("M", 8)
    return [resp(b, M), b.cov("U", 2 * M), b.int(2), b.num("tau"), freq(b, M), b.num("Fs", sign=1)], {"wt": b.vec("wt", M, sign=1)}
