"""Convolution."""
from ..cases import *

P8 = "C08 C10 C11 C12 C18"


def add(n1, n2, u1, u2, mode, kd="f", thorough=False, cost=1):
    @case(P8, CONV, "convolve_unc", "%s-%s/%s-%s%s%s" % (mode, n1, n2, "U" if u1 else "0", "U" if u2 else "0", "" if kd == "f" else "-int"),
          "convunc", thorough=thorough, cost=cost)
    def _(b):
        a = b.dim("N", 16) if n1 == "N" else n1
        c = b.dim("N", 16) if n2 == "N" else n2
        return [b.vec("x1" + kd, a, kd), b.cov("U1" + kd, a, kd) if u1 else NONE, b.vec("x2" + kd, c, kd),
                b.cov("U2" + kd, c, kd) if u2 else NONE], ({"mode": S(mode)} if mode != "full" or n2 != 2 else {})


for mode in ("full", "valid", "same", "nearest", "reflect", "mirror"):
    for n2 in (1, 2, 3, 4):
        for u in ((True, True), (True, False), (False, True), (False, False)):
            if n2 in (1, 4) and u in ((False, False),):
                continue
            add("N", n2, u[0], u[1], mode, thorough=n2 == 4 and u != (True, True), cost=3 if n2 == 4 else 1)
    for kd in "i":
        add("N", 2, True, True, mode, kd)
for mode in ("full", "valid", "same"):
    for u in ((True, True), (True, False), (False, True)):
        add(2, "N", u[0], u[1], mode)
        add(3, "N", u[0], u[1], mode)
    for n1, n2 in ((2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1)):
        add(n1, n2, True, True, mode)
for mode in ("nearest", "reflect", "mirror"):
    for n1, n2 in ((3, 2), (3, 3), (2, 2), (3, 4)):
        add(n1, n2, True, True, mode)
