# --- least-squares filter fits

def lssol(X, y):
    return np.linalg.inv(X.T @ X) @ (X.T @ y)


def firmat(f, N, Fs, wt=None):
    M = len(f)
    if wt is None:
        wt = np.ones(M)
    C = ARR((M, N + 1), lambda m, k: wt[m] * COS(2 * PI * f[m] / Fs * k))
    S = ARR((M, N + 1), lambda m, k: -wt[m] * SIN(2 * PI * f[m] / Fs * k))
    return C, S


def delayed(H, f, Fs, tau, sign):
    """H times exp(sign 2 pi i f tau / Fs)"""
    return ARR((len(f),), lambda m: H[m] * EXPJ(sign * 2 * PI * f[m] / Fs * tau))


def firfit(H, N, tau, f, Fs, Wt, inv):
    C, S = firmat(f, N, Fs)
    if inv:
        z = 1 / delayed(H, f, Fs, tau, 1)
    else:
        z = delayed(H, f, Fs, tau, -1)
    re = np.real(z)
    im = np.imag(z)
    if Wt is not None:
        if Wt.ndim == 1:
            M = len(f)
            C, S = firmat(f, N, Fs, Wt)
            re = Wt * re
            im = Wt * im
        else:
            C = Wt @ C
            S = Wt @ S
            re = Wt @ re
            im = Wt @ im
    return np.linalg.inv(C.T @ C + S.T @ S) @ (C.T @ re + S.T @ im)


def powz(w, k):
    return ARR((len(w),), lambda m: EXPJ(-w[m] * k))


def iirspec(H, Nb, Na, f, Fs, tau, inv):
    M = len(f)
    w = ARR((M,), lambda m: 2 * PI * f[m] / Fs)
    G = ARR((M,), lambda m: H[m] * EXPJ(-w[m] * tau))
    if inv:
        G = ARR((M,), lambda m: EXPJ(-w[m] * tau) / H[m])
    cols = []
    for k in range(1, Na + 1):
        cols.append(G * powz(w, k))
    for k in range(Nb + 1):
        cols.append(-powz(w, k))
    n = Na + Nb + 1
    A = np.array([[np.sum(np.real(np.conj(cols[i]) * cols[j])) for j in range(n)] for i in range(n)])
    y = np.array([-np.sum(np.real(np.conj(cols[i]) * G)) for i in range(n)])
    ab = np.linalg.inv(A) @ y
    return ab[Na:], np.hstack((1.0, ab[:Na])), int(tau)


def fitunc(H, UH, N, tau, f, Fs, wt, tol):
    M = len(f)
    if len(H) == len(UH):
        H = H[:M] + 1j * H[M:]
    Z = np.random.multivariate_normal(np.hstack((np.real(H), np.imag(H))), UH, 10000)
    c = ARR((M,), lambda m: COS(2 * PI * f[m] / Fs * tau))
    d = ARR((M,), lambda m: SIN(2 * PI * f[m] / Fs * tau))
    P = ARR((10000, M), lambda r, m: (Z[r, m] * c[m] - Z[r, M + m] * d[m]) / (Z[r, m] * Z[r, m] + Z[r, M + m] * Z[r, M + m]))
    Q = ARR((10000, M), lambda r, m: -(Z[r, M + m] * c[m] + Z[r, m] * d[m]) / (Z[r, m] * Z[r, m] + Z[r, M + m] * Z[r, M + m]))
    U = np.cov(np.hstack((P, Q)).T)
    C, S = firmat(f, N, Fs)
    X = np.vstack((C, S))
    if wt is not None:
        X = np.vstack((ARR((M, N + 1), lambda m, k: wt[m] * C[m, k]), ARR((M, N + 1), lambda m, k: wt[M + m] * S[m, k])))
    u, s, v = np.linalg.svd(X, full_matrices=False)
    keep = s > 0
    if tol is not None:
        keep = s >= tol
    inv = np.where(keep, 1 / s, 0)
    if wt is None:
        wt = np.ones(2 * M)
    B = ARR((N + 1, 2 * M), lambda i, j: SUM(0, N + 1, lambda q: v[q, i] * inv[q] * u[j, q]) * wt[j])
    z = 1 / delayed(H, f, Fs, tau, 1)
    return B @ np.hstack((np.real(z), np.imag(z))), B @ U @ B.T


def firuncmc(H, UH, N, tau, f, Fs):
    M = len(f)
    Z = np.random.multivariate_normal(np.hstack((np.real(H), np.imag(H))), UH, 10000)
    C, S = firmat(f, N, Fs)
    c = ARR((M,), lambda m: COS(2 * PI * f[m] / Fs * tau))
    s = ARR((M,), lambda m: SIN(2 * PI * f[m] / Fs * tau))
    P = ARR((M, 10000), lambda m, r: (Z[r, m] * c[m] - Z[r, M + m] * s[m]) / (Z[r, m] * Z[r, m] + Z[r, M + m] * Z[r, M + m]))
    Q = ARR((M, 10000), lambda m, r: -(Z[r, M + m] * c[m] + Z[r, m] * s[m]) / (Z[r, m] * Z[r, m] + Z[r, M + m] * Z[r, M + m]))
    B = np.linalg.inv(C.T @ C + S.T @ S) @ (C.T @ P + S.T @ Q)
    return np.mean(B, axis=1), np.cov(B)
