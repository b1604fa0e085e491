"""Filter utilities."""
from ..cases import *

FSM = "PyDynamic.misc.filterstuff"
TLM = "PyDynamic.misc.tools"


def add(mod, func, name, spec, mk, specargs=None, props="C28 C11", **kw):
    sa = {"specargs": specargs} if specargs else {}

    @case(props, mod, func, name, spec, **sa, **kw)
    def _(b):
        return mk(b), {}


for kd in "cfi":
    add(FSM, "db", kd, "dbspec", lambda b, kd=kd: [b.vec("v", b.dim("N"), kd)])
    add(FSM, "ua", kd, "uaspec", lambda b, kd=kd: [b.vec("v", b.dim("N"), kd)])
add(FSM, "db", "mat", "dbspec", lambda b: [b.mat("v", b.dim("N"), b.dim("M"), "c")])


def coefs(b, kd="f"):
    return [b.vec("b", b.dim("P", 1), kd), b.vec("a", b.dim("Q", 2), kd)]


for kd in "fi":
    add(FSM, "isstable", "default-" + kd, "stablespec", lambda b, kd=kd: coefs(b, kd), lambda b, kd=kd: (coefs(b, kd) + [FALSE], {}))
    for ft in ("digital", "analog"):
        add(FSM, "isstable", ft + "-" + kd, "stablespec", lambda b, kd=kd, ft=ft: coefs(b, kd) + [Str(ft)],
            lambda b, kd=kd, ft=ft: (coefs(b, kd) + [TRUE if ft == "analog" else FALSE], {}))
    add(FSM, "mapinside", kd, "mapspec", lambda b, kd=kd: [b.vec("a", b.dim("Q", 2), kd)])
    for n in (2, 3, None):
        for p, q in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2)):
            add(FSM, "grpdelay", "n%s-%d-%d-%s" % (n, p, q, kd), "gdspec",
                lambda b, kd=kd, n=n, p=p, q=q: [b.vec("b", const(p), kd), b.vec("a", const(q), kd), b.num("Fs", sign=1), b.int(n) if n else Num(b.dim("n", 4), "i")])
    for sh in (0, 1, 2, -1, -3):
        add(TLM, "shift_uncertainty", "num-%d-%s" % (sh, kd), "shiftspec", lambda b, kd=kd, sh=sh: [b.vec("x", b.dim("N", 4), kd), b.num("u", sign=1), b.int(sh)])
        add(TLM, "shift_uncertainty", "vec-%d-%s" % (sh, kd), "shiftspec", lambda b, kd=kd, sh=sh: [b.vec("x", b.dim("N", 4), kd), b.nonneg("u", b.dim("N", 4), kd), b.int(sh)])
        add(TLM, "shift_uncertainty", "cov-%d-%s" % (sh, kd), "shiftspec", lambda b, kd=kd, sh=sh: [b.vec("x", b.dim("N", 4), kd), b.cov("U", b.dim("N", 4), kd), b.int(sh)],
            props="C28 C10 C11")
    for d in (0, 1, 3):
        add(TLM, "trimOrPad", "pad%d-%s" % (d, kd), "padspec", lambda b, kd=kd, d=d: [b.vec("x", b.dim("N"), kd), Num(b.dim("N") + d, "i")])
        add(TLM, "trimOrPad", "trim%d-%s" % (d, kd), "trimspec", lambda b, kd=kd, d=d: [b.vec("x", b.dim("N", 8), kd), Num(b.dim("N", 8) - d, "i")])
    for u in ("vec", "cov"):
        def mk(b, kd=kd, u=u, given=True):
            n = b.dim("N", 2)
            return [b.vec("A", n, kd), b.vec("P", n, kd), b.nonneg("U", 2 * n) if u == "vec" else b.cov("U", 2 * n)] + ([Num(b.dim("R", 4), "i")] if given else [])
        add(TLM, "FreqResp2RealImag", "%s-%s" % (u, kd), "frispec", mk, props="C28 C10 C11 C13")
    for w, o, d, dl in ((5, 2, 0, False), (5, 2, 1, True), (7, 3, 2, True), (3, 1, 0, False), (3, 1, 1, True), (5, 3, 3, True)):
        def sg(b, full, kd=kd, w=w, o=o, d=d, dl=dl):
            return [b.vec("y", b.dim("N", 9), kd), b.int(w), b.int(o)] + ([b.int(d)] if d or full else []) + ([b.num("dl", sign=1)] if dl else ([num(1)] if full else []))
        add(FSM, "savitzky_golay", "w%d-o%d-d%d-%s" % (w, o, d, kd), "sgspec", lambda b, sg=sg: sg(b, False), lambda b, sg=sg: (sg(b, True), {}))
for L in (2, 3, 4, 5, 10, 11):
    add(FSM, "kaiser_lowpass", "L%d" % L, "kaiserspec", lambda b, L=L: [b.int(L), b.num("fc", sign=1), b.num("Fs", sign=1)],
        lambda b, L=L: ([b.int(L), b.num("fc", sign=1), b.num("Fs", sign=1), num(8)], {}))
    add(FSM, "kaiser_lowpass", "L%d-beta" % L, "kaiserspec", lambda b, L=L: [b.int(L), b.num("fc", sign=1), b.num("Fs", sign=1), b.num("be", sign=1)])


@case("C28", FSM, "isstable", "unknown-type", raises="ValueError")
def _(b):
    return coefs(b) + [Str("hybrid")], {}
