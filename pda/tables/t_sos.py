"""Second-order systems."""
from ..cases import *


@case("C23 C11 C18", SOS, "sos_FreqResp", "scalar", "sosfr")
def _(b):
    return [b.num("S"), b.num("d"), b.num("f0", sign=2), b.nonneg("f", b.dim("N"))], {}


@case("C23 C18", SOS, "sos_FreqResp", "scalar-int", "sosfr")
def _(b):
    return [b.num("S", "i"), b.num("d", "i"), b.num("f0", "i", sign=2), b.nonneg("f", b.dim("N"), "i")], {}


for kd in "fi":
    @case("C23 C11 C18", SOS, "sos_FreqResp", "vector" + ("-int" if kd == "i" else ""), "sosfr")
    def _(b, kd=kd):
        K = b.dim("K")
        return [b.vec("S", K, kd), b.vec("d", K, kd), b.pos("f0", K, kd), b.nonneg("f", b.dim("N"), kd)], {}

    @case("C23 C11 C18", SOS, "sos_phys2filter", "scalar" + ("-int" if kd == "i" else ""), "sosfilt")
    def _(b, kd=kd):
        return [b.num("S", kd), b.num("d", kd), b.num("f0", kd, sign=2)], {}

    @case("C23 C11 C18", SOS, "sos_phys2filter", "vector" + ("-int" if kd == "i" else ""), "sosfilt")
    def _(b, kd=kd):
        K = b.dim("K")
        return [b.vec("S", K, kd), b.vec("d", K, kd), b.pos("f0", K, kd)], {}

    for fn, ph in (("sos_realimag", FALSE), ("sos_absphase", TRUE)):
        def args(b, kd=kd):
            return [b.num("S", kd), b.num("d", kd), b.num("f0", kd, sign=2), b.num("uS", kd, sign=1), b.num("ud", kd, sign=1), b.num("uf0", kd, sign=1), b.nonneg("f", b.dim("N"), kd)]

        def spec(b, args=args, ph=ph):
            return args(b) + [Num(b.dim("R"), "i"), ph], {}

        @case("C23 C10 C11 C13 C18", SOS, fn, "runs" + ("-int" if kd == "i" else ""), "sosmc", specargs=spec)
        def _(b, args=args):
            return args(b), {"runs": Num(b.dim("R"), "i")}


def som(name, UH, weighting, mc, kd="f", scaling=None):
    @case("C23 C11 C12 C18" if UH is None else (("C23 C10 C13" if weighting != "arr" else "C23 C13") if kd == "f" else "C18"), FTR, "fit_som", name, "fitsom", cost=3 if UH else 1, slow=bool(UH),
          thorough=bool(mc or (UH and kd == "i" and weighting)))
    def _(b):
        n = b.dim("N", 3)
        kw = {}
        if UH == "vec":
            kw["UH"] = b.nonneg("uH", 2 * n, kd)
        elif UH == "mat":
            kw["UH"] = b.cov("H", 2 * n, kd)
        if weighting == "arr":
            kw["weighting"] = b.pos("wt", 2 * n, kd)
        elif weighting:
            kw["weighting"] = S(weighting)
        if mc:
            kw["MCruns"] = Num(b.dim("R", 3), "i")
        if scaling:
            kw["scaling"] = b.num("sc", sign=2)
        return [b.nonneg("f", n, kd), b.vec("H", 2 * n, kd)], kw


for kd in "fi":
    sfx = "-int" if kd == "i" else ""
    som("none" + sfx, None, None, False, kd)
    som("none-weights" + sfx, None, "arr", False, kd)
    for UH in ("vec", "mat"):
        for w in (None, "arr", "diag", "cov"):
            som("%s-%s-gum%s" % (UH, w, sfx), UH, w, False, kd)
            som("%s-%s-mc%s" % (UH, w, sfx), UH, w, True, kd)
        som("%s-cov-mc-scaled%s" % (UH, sfx), UH, "cov", True, kd, True)
