"""FIR filtering."""
from ..cases import *

P7 = "C07 C10 C11 C12 C18"


def sig(b, rep, N, kd):
    if rep == "none":
        return NONE
    if rep == "float":
        return b.num("sg", sign=2)
    if rep == "mat":
        return b.cov("Uy" + kd, N, kd)
    if rep in ("diag",):
        return b.nonneg("sy" + kd, N, kd)
    n = {"corr": N, "corr-short": 2, "corr-long": N + 2}[rep]
    return b.vec("acov" + kd, n, kd)


def uth(b, rep, L, kd):
    if rep == "none":
        return NONE
    if rep == "float":
        return b.num("st", sign=2)
    if rep == "vec":
        return b.nonneg("ut" + kd, L, kd)
    return b.cov("Ut" + kd, L, kd)


def add(L, rs, rt, full, kd, shift=None, blow=None, N=None, thorough=False):
    nm = "L%s-%s/%s%s%s%s%s%s" % (L, rs, rt, "-full" if full else "", "-shift%s" % shift if shift is not None else "",
                                 "-blow%d" % blow if blow else "", "-N%d" % N if N else "", "" if kd == "f" else "-int")

    @case(P7, FILT, "FIRuncFilter", nm, "firunc", thorough=thorough)
    def _(b):
        n = b.dim("N", 12) if N is None else N
        l = b.dim("L", 2) if L == "sym" else L
        kw = {"kind": S("diag" if rs == "diag" else "corr")}
        if rt != "none":
            kw["Utheta"] = uth(b, rt, l, kd)
        if full:
            kw["return_full_covariance"] = TRUE
        if shift is not None:
            kw["shift"] = b.int(shift)
        if blow:
            kw["blow"] = b.vec("bl" + kd, blow, kd)
        return [b.vec("y" + kd, n, kd), sig(b, rs, n, kd), b.vec("th" + kd, l, kd)], kw


for L in (1, 2, 3):
    for rs in ("none", "float", "diag", "corr", "mat"):
        for rt in ("none", "float", "vec", "mat"):
            for full in (False, True):
                if rs == "none" and (full or rt == "mat"):
                    continue
                add(L, rs, rt, full, "f", thorough=(L == 3 and rt in ("float",)))
for rs in ("corr-short", "corr-long"):
    add(3, rs, "mat", True, "f")
    add(2, rs, "none", False, "f")
for rs, rt, full in (("diag", "vec", False), ("float", "float", False), ("corr", "mat", False), ("mat", "mat", True), ("float", "vec", True)):
    for sft in (1, -1, 2):
        add(2, rs, rt, full, "f", shift=sft)
    for N in (2, 3):
        add(4, rs, rt, full, "f", N=N)
    add(2, rs, rt, full, "i")
    add(1, rs, rt, full, "i")
for rs, rt, full in (("diag", "vec", False), ("float", "float", True), ("corr", "mat", False), ("mat", "none", True)):
    add(2, rs, rt, full, "f", blow=2)
    add(2, rs, rt, full, "f", blow=1, shift=1)
    add(1, rs, rt, full, "i", blow=2)
