"""Spectral functions; H symbolic, so results hold for every length."""
from ..cases import *

P4, P5, P6 = "C04 C10 C11 C12 C18", "C05 C10 C11 C12 C18", "C06 C10 C11 C12 C18"

for kd in "fi":
    sx = "" if kd == "f" else "-int"

    @case(P4, DFT, "DFT2AmpPhase", "dense" + sx, "dft2ap")
    def _(b, kd=kd):
        H = b.dim("H")
        return [b.vec("F" + kd, 2 * H, kd), b.cov("UF" + kd, 2 * H, kd)], {}

    @case(P4, DFT, "DFT2AmpPhase", "vector" + sx, "dft2ap")
    def _(b, kd=kd):
        H = b.dim("H")
        return [b.vec("F" + kd, 2 * H, kd), b.nonneg("vF" + kd, 2 * H, kd)], {}

    @case(P4, DFT, "AmpPhase2DFT", "dense" + sx, "ap2dft")
    def _(b, kd=kd):
        H = b.dim("H")
        return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.cov("UAP" + kd, 2 * H, kd)], {}

    @case(P4, DFT, "AmpPhase2DFT", "vector" + sx, "ap2dft")
    def _(b, kd=kd):
        H = b.dim("H")
        return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.nonneg("vAP" + kd, 2 * H, kd)], {}

    for r1 in ("mat", "vec"):
        for r2 in ("mat", "vec"):
            @case(P5, DFT, "DFT_deconv", "%s/%s%s" % (r1, r2, sx), "deconv")
            def _(b, kd=kd, r1=r1, r2=r2):
                H = b.dim("H")
                u = {"mat": b.cov, "vec": b.nonneg}
                return [b.vec("H" + kd, 2 * H, kd), b.vec("Y" + kd, 2 * H, kd), u[r1]("UH" + kd, 2 * H, kd), u[r2]("UY" + kd, 2 * H, kd)], {}

            @case(P5, DFT, "DFT_multiply", "%s/%s%s" % (r1, r2, sx), "mult")
            def _(b, kd=kd, r1=r1, r2=r2):
                H = b.dim("H")
                u = {"mat": b.cov, "vec": b.nonneg}
                return [b.vec("Y" + kd, 2 * H, kd), b.vec("F" + kd, 2 * H, kd), u[r1]("UY" + kd, 2 * H, kd), u[r2]("UF" + kd, 2 * H, kd)], {}

    for nm, f, sp in (("DFT_transferfunction", "transfer", "transfer"), ("GUMdeconv", "deconv", "deconv")):
        @case(P5, DFT, nm, "mat" + sx, sp)
        def _(b, kd=kd):
            H = b.dim("H")
            return [b.vec("H" + kd, 2 * H, kd), b.vec("Y" + kd, 2 * H, kd), b.cov("UH" + kd, 2 * H, kd), b.cov("UY" + kd, 2 * H, kd)], {}

    for r1 in ("mat", "vec", "float"):
        @case(P5, DFT, "DFT_multiply", "%s/none%s" % (r1, sx), "mult")
        def _(b, kd=kd, r1=r1):
            H = b.dim("H")
            u = {"mat": b.cov, "vec": b.nonneg}
            uy = b.num("uy", sign=2) if r1 == "float" else u[r1]("UY" + kd, 2 * H, kd)
            return [b.vec("Y" + kd, 2 * H, kd), b.vec("F" + kd, 2 * H, kd), uy], {}

        @case(P5, DFT, "DFT_multiply", "%s/mat2%s" % (r1, sx), "mult")
        def _(b, kd=kd, r1=r1):
            H = b.dim("H")
            u = {"mat": b.cov, "vec": b.nonneg}
            uy = b.num("uy", sign=2) if r1 == "float" else u[r1]("UY" + kd, 2 * H, kd)
            return [b.vec("Y" + kd, 2 * H, kd), b.vec("F" + kd, 2 * H, kd), uy], {"UF": b.cov("UF" + kd, 2 * H, kd)}

    # DFT of even and odd lengths
    for par in (0, 1):
        for rep in ("mat", "vec", "float"):
            for opt in ("", "window", "returnC", "window+C"):
                @case(P6, DFT, "GUM_DFT", "%s-%s-%s%s" % (rep, "odd" if par else "even", opt, sx), "dft",
                      ref="vec_or_full")
                def _(b, kd=kd, par=par, rep=rep, opt=opt):
                    n = 2 * b.dim("H") + par
                    ux = b.num("ux", sign=2) if rep == "float" else (b.cov if rep == "mat" else b.nonneg)("Ux" + kd, n, kd)
                    kw = {}
                    if "window" in opt:
                        kw["window"] = b.vec("w" + kd, n, kd)
                    if "C" in opt:
                        kw["returnC"] = TRUE
                    return [b.vec("x" + kd, n, kd), ux], kw
        for rep in ("mat", "vec", "float"):
            for extra in (2, 3):
                @case(P6, DFT, "GUM_DFT", "%s-%s-pad%d%s" % (rep, "odd" if par else "even", extra, sx), "dft")
                def _(b, kd=kd, par=par, rep=rep, extra=extra):
                    n = 2 * b.dim("H") + par
                    ux = b.num("ux", sign=2) if rep == "float" else (b.cov if rep == "mat" else b.nonneg)("Ux" + kd, n, kd)
                    return [b.vec("x" + kd, n, kd), ux], {"N": b.int(n + extra)}

                @case(P6, DFT, "GUM_DFT", "%s-%s-pad%d-window%s" % (rep, "odd" if par else "even", extra, sx), "dft")
                def _(b, kd=kd, par=par, rep=rep, extra=extra):
                    n = 2 * b.dim("H") + par
                    ux = b.num("ux", sign=2) if rep == "float" else (b.cov if rep == "mat" else b.nonneg)("Ux" + kd, n, kd)
                    return [b.vec("x" + kd, n, kd), ux], {"N": b.int(n + extra), "window": b.vec("w" + kd, n, kd)}

    for rep in ("mat", "vec"):
        for opt in ("", "Nx", "returnC"):
            @case(P6, DFT, "GUM_iDFT", "%s-%s%s" % (rep, opt, sx), "idft")
            def _(b, kd=kd, rep=rep, opt=opt):
                n = 2 * b.dim("H") + 2
                kw = {}
                if opt == "Nx":
                    kw["Nx"] = b.int(n - 3)
                if opt == "returnC":
                    kw["returnC"] = TRUE
                return [b.vec("F" + kd, n, kd), (b.cov if rep == "mat" else b.nonneg)("UF" + kd, n, kd)], kw

        @case(P6, DFT, "AmpPhase2Time", rep + sx, "ap2time")
        def _(b, kd=kd, rep=rep):
            H = b.dim("H") + 1
            return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), (b.cov if rep == "mat" else b.nonneg)("UAP" + kd, 2 * H, kd)], {}

        for par in (0, 1):
            @case("C04 C06 C10 C11 C12 C18", DFT, "Time2AmpPhase", "%s-%d%s" % (rep, par, sx), "t2ap")
            def _(b, kd=kd, rep=rep, par=par):
                n = 2 * b.dim("H") + par
                return [b.vec("x" + kd, n, kd), (b.cov if rep == "mat" else b.nonneg)("Ux" + kd, n, kd)], {}

for rt in ("separate", "AP"):
    @case(P4, DFT, "DFT2AmpPhase", "return_type-" + rt, "dft2ap")
    def _(b, rt=rt):
        H = b.dim("H")
        return [b.vec("Ff", 2 * H), b.cov("UFf", 2 * H)], {"return_type": S(rt)}


@case("C06 C11", DFT, "GUM_DFTfreq", "freq", "dftfreq")
def _(b):
    return [b.int(2 * b.dim("H")), b.num("dt", sign=2)], {}


@case("C06 C11", DFT, "GUM_DFTfreq", "freq-odd", "dftfreq")
def _(b):
    return [b.int(2 * b.dim("H") + 1), b.num("dt", sign=2)], {}


for par in (0, 1):
    for m in (1, 2, 3):
        @case("C04 C06 C11 C18", DFT, "Time2AmpPhase_multi", "m%d-%d" % (m, par), "t2ap_multi")
        def _(b, par=par, m=m):
            n = 2 * b.dim("H") + par
            return [b.mat("X", m, n), b.nonneg("v", m)], {}

        @case("C04 C06 C11 C18", DFT, "Time2AmpPhase_multi", "selector-m%d-%d" % (m, par), "t2ap_multi")
        def _(b, par=par, m=m):
            n = 2 * b.dim("H", 4) + par
            return [b.mat("X", m, n), b.nonneg("v", m)], {"selector": b.carr([3, 0, 2])}

for kd in "fi":
    sx = "" if kd == "f" else "-int"

    @case("C04 C10 C18", DFT, "AmpPhase2DFT", "sparse" + sx, "ap2dft", specargs=lambda b, kd=kd: (
        [b.nonneg("A" + kd, b.dim("H"), kd), b.vec("P" + kd, b.dim("H"), kd), b.diafull("UAP" + kd, b.dim("H"), kd)], {}))
    def _(b, kd=kd):
        H = b.dim("H")
        return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.dia("UAP" + kd, H, kd)], {}

    @case("C06 C10 C18", DFT, "AmpPhase2Time", "sparse" + sx, "ap2time", specargs=lambda b, kd=kd: (
        [b.nonneg("A" + kd, b.dim("H") + 1, kd), b.vec("P" + kd, b.dim("H") + 1, kd), b.diafull("UAP" + kd, b.dim("H") + 1, kd)], {}))
    def _(b, kd=kd):
        H = b.dim("H") + 1
        return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.dia("UAP" + kd, H, kd)], {}

    for ks in (TRUE, FALSE):
        @case("C04 C10 C18", DFT, "DFT2AmpPhase", "vector-keep%s%s" % (ks is TRUE, sx), "dft2ap")
        def _(b, kd=kd, ks=ks):
            H = b.dim("H")
            return [b.vec("F" + kd, 2 * H, kd), b.nonneg("vF" + kd, 2 * H, kd)], {"keep_sparse": ks}

        @case("C04 C10 C18", DFT, "AmpPhase2DFT", "vector-keep%s%s" % (ks is TRUE, sx), "ap2dft")
        def _(b, kd=kd, ks=ks):
            H = b.dim("H")
            return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.nonneg("vAP" + kd, 2 * H, kd)], {"keep_sparse": ks}

        @case("C04 C10 C18", DFT, "AmpPhase2DFT", "sparse-keep%s%s" % (ks is TRUE, sx), "ap2dft", specargs=lambda b, kd=kd: (
            [b.nonneg("A" + kd, b.dim("H"), kd), b.vec("P" + kd, b.dim("H"), kd), b.diafull("UAP" + kd, b.dim("H"), kd)], {}))
        def _(b, kd=kd, ks=ks):
            H = b.dim("H")
            return [b.nonneg("A" + kd, H, kd), b.vec("P" + kd, H, kd), b.dia("UAP" + kd, H, kd)], {"keep_sparse": ks}

    for rep in ("mat", "vec"):
        for par in (0, 1):
            @case("C06 C10 C18", DFT, "GUM_DFT", "%s-given-C%d%s" % (rep, par, sx), "dft_given")
            def _(b, kd=kd, rep=rep, par=par):
                n, M = 2 * b.dim("H") + par, b.dim("H") + 1
                return [b.vec("x" + kd, n, kd), (b.cov if rep == "mat" else b.nonneg)("Ux" + kd, n, kd)], \
                    {"CxCos": b.mat("Cc", M, n), "CxSin": b.mat("Cs", M, n), "returnC": TRUE}

        @case("C06 C10 C18", DFT, "GUM_iDFT", "%s-given-C%s" % (rep, sx), "idft_given")
        def _(b, kd=kd, rep=rep):
            n, M = 2 * b.dim("H") + 2, b.dim("H") + 1
            return [b.vec("F" + kd, n, kd), (b.cov if rep == "mat" else b.nonneg)("UF" + kd, n, kd)], \
                {"Cc": b.mat("Cc", n - 2, M), "Cs": b.mat("Cs", n - 2, M)}

for rep in ("mat", "vec", "float"):
    @case("C06 C10 C11", DFT, "GUM_DFT", "mask-" + rep, "dft_mask")
    def _(b, rep=rep):
        ux = b.num("ux", sign=2) if rep == "float" else (b.cov if rep == "mat" else b.nonneg)("Uxf", 6)
        return [b.vec("xf", 6), ux], {"mask": b.carr([1, 0, 1, 1], "b")}

# C19: contradicting dimensions are rejected
C19 = "C19"
REJ = [
    ("DFT2AmpPhase", "odd", lambda b: ([b.vec("F", 2 * b.dim("H") + 1), b.cov("UF", 2 * b.dim("H") + 1)], {})),
]
