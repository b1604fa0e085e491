# Specifications, read by the analyser (never imported or executed).  ARR(shape, f): array with elements f(index);
# SUM(lo, hi, f): sum of f(k) for lo <= k < hi; DELTA: Kronecker symbol.

import numpy as np
from scipy.signal import lfilter
from PyDynamic.misc.filterstuff import isstable

def covf(U):
    if U is None:
        return lambda a, b: 0
    if isinstance(U, float):
        return lambda a, b: DELTA(a, b) * U
    if len(U.shape) == 1:
        return lambda a, b: DELTA(a, b) * U[a]
    return lambda a, b: U[a, b]


def local2(M, J, U):
    """J U J^T for a map acting on each pair (element k, element k + M) separately; J(p, s, k)"""
    C = covf(U)

    def ent(i, j):
        p = 0 if i < M else 1
        q = 0 if j < M else 1
        k = i if i < M else i - M
        l = j if j < M else j - M
        return (J(p, 0, k) * C(k, l) * J(q, 0, l) + J(p, 0, k) * C(k, l + M) * J(q, 1, l)
                + J(p, 1, k) * C(k + M, l) * J(q, 0, l) + J(p, 1, k) * C(k + M, l + M) * J(q, 1, l))
    return ARR((2 * M, 2 * M), ent)


def addm(A, B):
    return ARR(A.shape, lambda i, j: A[i, j] + B[i, j])


def halves(M, f, g):
    return ARR(2 * M, lambda i: f(i) if i < M else g(i - M))


def sandwich(n, m, J, C):
    return ARR((n, n), lambda i, j: SUM(0, m, lambda a: SUM(0, m, lambda b: J(i, a) * C(a, b) * J(j, b))))


# --- amplitude/phase

def dft2ap(F, UF, keep_sparse=False, tol=1.0, return_type="separate"):
    M = len(F) // 2
    A = lambda k: SQRT(F[k] * F[k] + F[k + M] * F[k + M])

    def J(p, s, k):
        if p == 0:
            return F[k] / A(k) if s == 0 else F[k + M] / A(k)
        return -F[k + M] / (A(k) * A(k)) if s == 0 else F[k] / (A(k) * A(k))
    Av = ARR(M, A)
    Pv = ARR(M, lambda k: ATAN2(F[k + M], F[k]))
    UAP = local2(M, J, UF)
    if return_type == "separate":
        return Av, Pv, UAP
    return halves(M, A, lambda k: ATAN2(F[k + M], F[k])), UAP


def ap2dft(A, P, UAP, keep_sparse=False):
    M = len(A)

    def J(p, s, k):
        if p == 0:
            return COS(P[k]) if s == 0 else -A[k] * SIN(P[k])
        return SIN(P[k]) if s == 0 else A[k] * COS(P[k])
    return halves(M, lambda k: A[k] * COS(P[k]), lambda k: A[k] * SIN(P[k])), local2(M, J, UAP)


def ap2dft_sparse(A, P, UAP, Uref):
    return ap2dft(A, P, Uref)


# --- products and quotients

def mult(Y, F, UY, UF=None):
    M = len(Y) // 2

    def JF(p, s, k):   # derivative wrt Y
        if p == 0:
            return F[k] if s == 0 else -F[k + M]
        return F[k + M] if s == 0 else F[k]

    def JY(p, s, k):
        if p == 0:
            return Y[k] if s == 0 else -Y[k + M]
        return Y[k + M] if s == 0 else Y[k]
    v = halves(M, lambda k: Y[k] * F[k] - Y[k + M] * F[k + M], lambda k: Y[k] * F[k + M] + Y[k + M] * F[k])
    V = local2(M, JF, UY)
    if UF is not None:
        V = addm(V, local2(M, JY, UF))
    return v, V


def deconv(H, Y, UH, UY):
    M = len(H) // 2
    n2 = lambda k: H[k] * H[k] + H[k + M] * H[k + M]
    xr = lambda k: (Y[k] * H[k] + Y[k + M] * H[k + M]) / n2(k)
    xi = lambda k: (Y[k + M] * H[k] - Y[k] * H[k + M]) / n2(k)
    gr = lambda k: H[k] / n2(k)          # 1/H
    gi = lambda k: -H[k + M] / n2(k)
    hr = lambda k: -(xr(k) * gr(k) - xi(k) * gi(k))   # -X/H
    hi = lambda k: -(xr(k) * gi(k) + xi(k) * gr(k))

    def JY(p, s, k):
        if p == 0:
            return gr(k) if s == 0 else -gi(k)
        return gi(k) if s == 0 else gr(k)

    def JH(p, s, k):
        if p == 0:
            return hr(k) if s == 0 else -hi(k)
        return hi(k) if s == 0 else hr(k)
    return halves(M, xr, xi), addm(local2(M, JY, UY), local2(M, JH, UH))


def transfer(X, Y, UX, UY):
    return deconv(X, Y, UX, UY)


# --- DFT

def dft(x, Ux, N=None, window=None, CxCos=None, CxSin=None, returnC=False, mask=None):
    n = len(x)
    if N is None:
        N = n
    M = N // 2 + 1
    w = (lambda a: window[a]) if window is not None else (lambda a: 1)
    c = lambda k, a: COS(2 * PI * k * a / N)
    s = lambda k, a: -SIN(2 * PI * k * a / N)
    F = halves(M, lambda k: SUM(0, n, lambda a: w(a) * x[a] * c(k, a)), lambda k: SUM(0, n, lambda a: w(a) * x[a] * s(k, a)))
    C = covf(Ux)
    J = lambda i, a: (c(i, a) if i < M else s(i - M, a)) * w(a)
    if isinstance(Ux, float):
        # white noise: the diagonal or the full matrix describe the same uncertainty
        UF = ONEOF(ARR(2 * M, lambda i: SUM(0, n, lambda a: J(i, a) * J(i, a) * Ux)),
                   ARR((2 * M, 2 * M), lambda i, j: SUM(0, n, lambda a: J(i, a) * J(j, a) * Ux)))
    elif len(Ux.shape) == 1:
        UF = ARR((2 * M, 2 * M), lambda i, j: SUM(0, n, lambda a: J(i, a) * Ux[a] * J(j, a)))
    else:
        UF = sandwich(2 * M, n, J, C)
    if returnC:
        return F, UF, {"CxCos": ARR((M, n), c), "CxSin": ARR((M, n), s)}
    return F, UF


def idft(F, UF, Nx=None, Cc=None, Cs=None, returnC=False):
    N = len(F) - 2
    M = N // 2 + 1
    if Nx is None:
        Nx = N

    def c(t, k):
        if k == 0:
            return 1
        if k == M - 1:
            return COS(PI * t)
        return 2 * COS(2 * PI * k * t / N)

    def s(t, k):
        if k == 0:
            return 0
        if k == M - 1:
            return -SIN(PI * t)
        return -2 * SIN(2 * PI * k * t / N)
    x = ARR(Nx, lambda t: (F[0] + F[M - 1] * COS(PI * t) + SUM(1, M - 1, lambda k: 2 * F[k] * COS(2 * PI * k * t / N) - 2 * F[k + M] * SIN(2 * PI * k * t / N))) / N)
    J = lambda t, a: (c(t, a) if a < M else s(t, a - M)) / N
    if len(UF.shape) == 1:
        Ux = ARR((Nx, Nx), lambda i, j: SUM(0, 2 * M, lambda a: J(i, a) * UF[a] * J(j, a)))
    else:
        Ux = sandwich(Nx, 2 * M, J, lambda a, b: UF[a, b])
    if returnC:
        return x, Ux, {"Cc": ARR((Nx, M), c), "Cs": ARR((Nx, M), s)}
    return x, Ux


def ap2time(A, P, UAP):
    M = len(A)
    N = 2 * M - 2

    def c(t, k):
        if k == 0:
            return COS(P[0])
        if k == M - 1:
            return COS(P[M - 1]) * COS(PI * t)
        return 2 * COS(P[k] + 2 * PI * k * t / N)

    def s(t, k):
        if k == 0:
            return -A[0] * SIN(P[0])
        if k == M - 1:
            return -A[M - 1] * SIN(P[M - 1]) * COS(PI * t)
        return -2 * A[k] * SIN(P[k] + 2 * PI * k * t / N)
    x = ARR(N, lambda t: (A[0] * COS(P[0]) + A[M - 1] * COS(P[M - 1]) * COS(PI * t)
                          + SUM(1, M - 1, lambda k: 2 * A[k] * COS(P[k] + 2 * PI * k * t / N))) / N)
    J = lambda t, a: (c(t, a) if a < M else s(t, a - M)) / N
    if len(UAP.shape) == 1:
        return x, ARR((N, N), lambda i, j: SUM(0, 2 * M, lambda a: J(i, a) * UAP[a] * J(j, a)))
    return x, sandwich(N, 2 * M, J, lambda a, b: UAP[a, b])


def ap2time_sparse(A, P, UAP, Uref):
    return ap2time(A, P, Uref)


def dft_given(x, Ux, CxCos=None, CxSin=None, returnC=False):
    """sensitivities handed in by the caller are the ones used (and returned)"""
    n = len(x)
    M = n // 2 + 1
    F = dft(x, Ux)[0]
    J = lambda i, a: CxCos[i, a] if i < M else CxSin[i - M, a]
    UF = sandwich(2 * M, n, J, covf(Ux))
    if returnC:
        return F, UF, {"CxCos": CxCos, "CxSin": CxSin}
    return F, UF


def idft_given(F, UF, Cc=None, Cs=None):
    N = len(F) - 2
    M = N // 2 + 1
    J = lambda t, a: (Cc[t, a] if a < M else Cs[t, a - M]) / N
    return idft(F, UF)[0], sandwich(N, 2 * M, J, covf(UF))


def dft_mask(x, Ux, mask=None):
    """mask of four spectral points selecting 0, 2 and 3 of a signal of length 6"""
    F, UF = dft(x, Ux)
    sel = [0, 2, 3, 4, 6, 7]
    if isinstance(Ux, float):
        V = ARR((8, 8), lambda i, j: DELTA(i, j) * Ux * SUM(0, 6, lambda a: COS(2 * PI * i * a / 6) ** 2) if i < 4
                else DELTA(i, j) * Ux * SUM(0, 6, lambda a: SIN(2 * PI * (i - 4) * a / 6) ** 2))
        return TAKE(F, sel), TAKE(V, sel, True)
    return TAKE(F, sel), TAKE(UF, sel)


def dft2ap_sparse(F, UF, keep_sparse=False):
    return dft2ap(F, UF)


def t2ap(x, Ux):
    F, UF = dft(x, Ux)
    return dft2ap(F, UF)


def t2ap_multi(x, Ux, selector=None):
    m, n = x.shape
    M = n // 2 + 1
    fr = lambda q, k: SUM(0, n, lambda a: x[q, a] * COS(2 * PI * k * a / n))
    fi = lambda q, k: -SUM(0, n, lambda a: x[q, a] * SIN(2 * PI * k * a / n))
    vr = lambda q, k: SUM(0, n, lambda a: Ux[q] * COS(2 * PI * k * a / n) ** 2)
    vi = lambda q, k: SUM(0, n, lambda a: Ux[q] * SIN(2 * PI * k * a / n) ** 2)
    A = lambda q, k: SQRT(fr(q, k) ** 2 + fi(q, k) ** 2)
    sel = (lambda k: selector[k]) if selector is not None else (lambda k: k)
    L = len(selector) if selector is not None else M
    u11 = lambda q, k: (fr(q, k) ** 2 * vr(q, k) + fi(q, k) ** 2 * vi(q, k)) / A(q, k) ** 2
    u12 = lambda q, k: fr(q, k) * fi(q, k) * (vi(q, k) - vr(q, k)) / A(q, k) ** 3
    u22 = lambda q, k: (fi(q, k) ** 2 * vr(q, k) + fr(q, k) ** 2 * vi(q, k)) / A(q, k) ** 4

    def u(q, k):
        if k < L:
            return u11(q, sel(k))
        if k < 2 * L:
            return u12(q, sel(k - L))
        return u22(q, sel(k - 2 * L))
    return (ARR((m, L), lambda q, k: A(q, sel(k))), ARR((m, L), lambda q, k: ATAN2(fi(q, sel(k)), fr(q, sel(k)))),
            ARR((m, 3 * L), u))


def dftfreq(N, dt=1):
    return ARR(N // 2 + 1, lambda k: k / (N * dt))
