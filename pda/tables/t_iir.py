"""IIR filter with uncertainty: filter orders, signal lengths and noise descriptions."""
from ..cases import *


def add(na, nb, n, vec=False, ints=False, thorough=False, zero=False):
    kd = "i" if ints else "f"
    nm = "na%d-nb%d-n%d%s%s%s" % (na, nb, n, "-noisevec" if vec else "", "-int" if ints else "", "-certain" if zero else "")

    @case("C27 C11" + (" C18" if not vec else ""), FILT, "IIRuncFilter", nm, "iirunc", thorough=thorough, cost=na * nb * n)
    def _(b):
        x = b.vec("x", const(n), kd)
        noise = b.nonneg("s", const(n)) if vec else b.num("s", sign=1)
        bb = b.earr([b.sym("b%d" % k, sign=0) for k in range(nb)])
        aa = b.earr([ONE] + [b.sym("a%d" % k, sign=0) for k in range(1, na + 1)])
        U = Arr((const(na + nb), const(na + nb)), lambda i: ZERO, "f") if zero else b.cov("ab", const(na + nb))
        return [x, noise, bb, aa, U], {}


for na, nb, n in [(1, 1, 3), (1, 2, 3), (2, 1, 3), (2, 2, 3), (1, 3, 4), (0, 1, 3), (0, 2, 3), (0, 3, 4), (3, 2, 3), (2, 3, 4)]:
    add(na, nb, n)
add(1, 1, 3, vec=True)
add(2, 2, 3, vec=True)
add(1, 3, 3, vec=True)
add(1, 2, 3, ints=True)
add(2, 2, 3, ints=True)
add(0, 2, 3, ints=True)
add(2, 2, 4, zero=True)
add(1, 1, 5)
for na, nb, n in [(3, 3, 4), (2, 2, 5), (3, 1, 5), (1, 4, 5)]:
    add(na, nb, n, thorough=True)
    add(na, nb, n, vec=True, thorough=True)
