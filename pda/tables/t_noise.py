"""Noise models and test signals."""
from ..cases import *

NO = "PyDynamic.misc.noise"


def coef(b, nm, v):
    """(what is passed, the coefficients it means)"""
    if v is None:
        return None, Arr((ONE,), lambda i: ZERO, "f")
    if v == 0:
        s = b.num(nm)
        return s, Arr((ONE,), lambda i: s.e, "f")
    if isinstance(v, str):
        z = [b.num("%s%d" % (nm, k)) for k in range(int(v))]
        return lst(*z), b.earr([q.e for q in z])
    if isinstance(v, tuple):
        z = b.vec(nm, const(v[0]), "i")
        return z, z
    w = b.vec(nm, const(v))
    return w, w


def add_arma(n, phi, theta, std=True):
    @case("C25 C11 C18", NO, "ARMA", "n%d-phi%s-theta%s%s" % (n, phi, theta, "" if std else "-unit"), "armaspec",
          specargs=lambda b: ([b.int(n), coef(b, "phi", phi)[1], coef(b, "theta", theta)[1], b.num("sd", sign=1) if std else num(1)], {}))
    def _(b):
        kw = {}
        for nm, v in (("phi", phi), ("theta", theta)):
            if v is not None:
                kw[nm] = coef(b, nm, v)[0]
        if std:
            kw["std"] = b.num("sd", sign=1)
        return [b.int(n)], kw


for n in (1, 2, 3, 5):
    for p in (None, 0, 1, 2, 3, "2"):
        for q in (None, 0, 1, 2, "3"):
            add_arma(n, p, q)
    add_arma(n, 1, 1, std=False)
    add_arma(n, (2,), 1)
    add_arma(n, 1, (2,))

TS = "PyDynamic.misc.testsignals"


def add_sig(func, name, spec, pos, noise=None, kind="f", known=None, n=None, extra=None, kwnoise=True):
    """pos: names of the positional parameters after time (with '+' suffix for a positive one)"""
    def base(b):
        N = const(n) if n else b.dim("N", 4)
        return [b.vec("t", N, kind)] + [b.num(z.rstrip("+"), sign=1 if z.endswith("+") else 0) for z in pos]

    def nz(b):
        return NONE if noise is None else b.num("nz", sign=1)

    @case("C25 C11 C13 C18", TS, func, name, spec, specargs=lambda b: (base(b) + [nz(b)] + (extra or []), {}), known=known)
    def _(b):
        return base(b), ({} if noise is None else {"noise": nz(b)})


for kind in "fi":
    for nz in (None, 1):
        s = "%s%s" % ("-int" if kind == "i" else "", "-noise" if nz else "")
        add_sig("shocklikeGaussian", "basic" + s, "shockspec", ["t0", "m0", "s+"], nz, kind)
        add_sig("GaussianPulse", "basic" + s, "pulsespec", ["t0", "m0", "s+"], nz, kind)
        add_sig("rect", "basic" + s, "rectspec", ["t0", "t1", "h"], nz, kind, extra=[NONE])
        add_sig("sine", "basic" + s, "sinespec", ["amp", "f+"], nz, kind, known="sineperiod")


def add_square(k, nz, kind, n=None, given=True):
    def base(b):
        N = const(n) if n else b.dim("N", 4)
        return [b.vec("t", N, kind), b.num("h")]

    @case("C25 C11 C18", TS, "squarepulse", "k%s%s%s%s" % (k, "-int" if kind == "i" else "", "-noise" if nz else "", "" if given else "-default"), "squarespec",
          specargs=lambda b: (base(b) + [b.int(k), b.num("nz", sign=1) if nz else NONE], {}))
    def _(b):
        kw = {"numpulse": b.int(k)} if given else {}
        if nz:
            kw["noise"] = b.num("nz", sign=1)
        return base(b), kw


def add_multi(k, nz, kind, lists):
    def base(b):
        N = b.dim("N", 4)
        a = [b.num("a%d" % q) for q in range(k)]
        w = [b.num("w%d" % q) for q in range(k)]
        if lists:
            return [b.vec("t", N, kind), lst(*a), lst(*w)]
        return [b.vec("t", N, kind), b.vec("a", const(k)), b.vec("w", const(k))]

    @case("C25 C11 C18", TS, "multi_sine", "k%d%s%s%s" % (k, "-int" if kind == "i" else "", "-noise" if nz else "", "-list" if lists else ""), "multispec",
          specargs=lambda b: (base(b) + [b.num("nz", sign=1) if nz else NONE], {}))
    def _(b):
        return base(b), ({"noise": b.num("nz", sign=1)} if nz else {})


for nz in (0, 1):
    for kind in "fi":
        for k in (1, 2, 3):
            add_square(k, nz, kind)
            add_multi(k, nz, kind, False)
            add_multi(k, nz, kind, True)
        add_square(4, nz, kind, given=False)


@case("C25 C18", TS, "rect", "noise-array", "rectspec",
      specargs=lambda b: ([b.vec("t", b.dim("N", 4)), b.num("t0"), b.num("t1"), b.num("h"), NONE, b.vec("nv", b.dim("N", 4))], {}))
def _(b):
    return [b.vec("t", b.dim("N", 4)), b.num("t0"), b.num("t1"), b.num("h")], {"noise": b.vec("nv", b.dim("N", 4))}


@case("C25", TS, "rect", "default-height", "rectspec",
      specargs=lambda b: ([b.vec("t", b.dim("N", 4)), b.num("t0"), b.num("t1"), num(1), NONE, NONE], {}))
def _(b):
    return [b.vec("t", b.dim("N", 4)), b.num("t0"), b.num("t1")], {}


@case("C25 C19", TS, "rect", "noise-size", raises="ValueError")
def _(b):
    n = b.dim("N", 4)
    return [b.vec("t", n), b.num("t0"), b.num("t1"), b.num("h")], {"noise": b.vec("nv", n + 1)}


COLORS = {"violet": 2, "blue": 1, "white": 0, "pink": -1, "red": -2, "brown": -2}


@case("C25 C11", NO, "white_gaussian", "basic", "whitespec", specargs=lambda b: ([Num(b.dim("N"), "i"), b.num("m"), b.num("s", sign=1)], {}))
def _(b):
    return [Num(b.dim("N"), "i")], {"mean": b.num("m"), "std": b.num("s", sign=1)}


@case("C25 C11", NO, "white_gaussian", "default", "whitespec", specargs=lambda b: ([Num(b.dim("N"), "i"), num(0), num(1)], {}))
def _(b):
    return [Num(b.dim("N"), "i")], {}


def add_pl(n, given, color, mean=True, kind="f"):
    """color: name, or None for a symbolic exponent, or '' for the default"""
    def al(b):
        return b.num("al") if color is None else num(COLORS[color or "white"])

    def spec(b):
        return [b.vec("w", const(n), kind) if given else NONE, b.int(n), al(b)] + ([b.num("m"), b.num("s", sign=1)] if mean else [num(0), num(1)]), {}

    @case("C25 C11 C18", NO, "power_law_noise", "n%d%s-%s%s%s" % (n, "-w" if given else "", "alpha" if color is None else color or "default",
                                                             "" if mean else "-unit", "-int" if kind == "i" else ""), "plspec", specargs=spec)
    def _(b):
        kw = {"w": b.vec("w", const(n), kind)} if given else {"N": b.int(n)}
        if color != "":
            kw["color_value"] = b.num("al") if color is None else Str(color)
        if mean:
            kw["mean"], kw["std"] = b.num("m"), b.num("s", sign=1)
        return [], kw


def add_acf(n, color, std=True):
    @case("C25 C11", NO, "power_law_acf", "n%d-%s%s" % (n, "alpha" if color is None else color or "default", "" if std else "-unit"), "placf",
          specargs=lambda b: ([b.int(n), b.num("al") if color is None else num(COLORS[color or "white"]), b.num("s", sign=1) if std else num(1)], {}))
    def _(b):
        kw = {}
        if color != "":
            kw["color_value"] = b.num("al") if color is None else Str(color)
        if std:
            kw["std"] = b.num("s", sign=1)
        return [b.int(n)], kw


for color in list(COLORS) + ["", None]:
    for n in (4, 5):
        add_pl(n, False, color)
        add_pl(n, True, color)
        add_acf(n, color)
add_pl(4, True, "pink", mean=False)
add_pl(4, False, "pink", mean=False)
add_pl(4, True, "pink", kind="i")
add_acf(4, "pink", std=False)


@case("C25", NO, "get_alpha", "unknown", raises="*")
def _(b):
    return [Str("ultraviolet")], {}
