# --- second-order system

def sosfr(S, d, f0, freqs):
    def h(Si, di, fi, f):
        w0 = 2 * PI * fi
        w = 2 * PI * f
        return Si * w0 ** 2 / (w0 ** 2 + 2 * J * di * w0 * w - w ** 2)
    if isinstance(S, np.ndarray):
        return ARR((len(freqs), len(S)), lambda i, k: h(S[k], d[k], f0[k], freqs[i]), kind="c")
    return ARR((len(freqs),), lambda i: h(S, d, f0, freqs[i]), kind="c")


def sosfilt(S, d, f0):
    """a(s) = s^2 + 2 d w0 s + w0^2 and b = S w0^2"""
    if isinstance(S, np.ndarray):
        n = len(S)
        w0 = ARR((n,), lambda i: 2 * PI * f0[i])
        return [ARR((n,), lambda i: S[i] * w0[i] ** 2)], ARR((n, 3), lambda i, j: DELTA(j, 0) + DELTA(j, 1) * 2 * d[i] * w0[i] + DELTA(j, 2) * w0[i] ** 2)
    w0 = 2 * PI * f0
    return [S * w0 ** 2], np.array([1, 2 * d * w0, w0 ** 2])


def sosmc(S, d, f0, uS, ud, uf0, f, runs, phase):
    N = len(f)
    zS = np.random.randn(runs)
    zd = np.random.randn(runs)
    zf = np.random.randn(runs)

    def h(i, k):
        w0 = 2 * PI * (f0 + uf0 * zf[k])
        w = 2 * PI * f[i]
        return (S + uS * zS[k]) * w0 ** 2 / (w0 ** 2 + 2 * J * (d + ud * zd[k]) * w0 * w - w ** 2)
    H = ARR((N, runs), h, kind="c")
    mean = ARR((N,), lambda i: SUM(0, runs, lambda k: h(i, k)) / runs, kind="c")
    if phase:
        A = np.vstack((np.abs(H), np.unwrap(np.angle(H))))
    else:
        A = ARR((2 * N, runs), lambda i, k: RE(h(i, k)) if i < N else IM(h(i - N, k)))
    return mean, np.cov(A)


def som_par(m0, m1, m2):
    return [1 / m0, m1 / SQRT(ABS(m0 * m2)), SQRT(ABS(m0 / m2)) / (2 * PI)]


def fitsom(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
    n = len(f)
    mc = MCruns is not None
    sc = scaling if (mc or UH is None) else 1
    if UH is not None:
        runs = MCruns if mc else 10000
        if UH.ndim == 1:
            zr = np.random.randn(runs, n)
            zi = np.random.randn(runs, n)
            re = ARR((runs, n), lambda k, i: H[i] + UH[i] * zr[k, i])
            im = ARR((runs, n), lambda k, i: H[n + i] + UH[n + i] * zi[k, i])
        else:
            Z = np.random.multivariate_normal(H, UH, runs)
            re = ARR((runs, n), lambda k, i: Z[k, i])
            im = ARR((runs, n), lambda k, i: Z[k, n + i])
        R = ARR((runs, 2 * n), lambda k, i: re[k, i] / (re[k, i] ** 2 + im[k, i] ** 2) if i < n else -im[k, i - n] / (re[k, i - n] ** 2 + im[k, i - n] ** 2))
        V = np.cov(R, rowvar=False)
    if isinstance(weighting, str):
        W = V if weighting == "cov" else ARR((2 * n, 2 * n), lambda i, j: DELTA(i, j) * V[i, i])
    elif weighting is not None:
        W = ARR((2 * n, 2 * n), lambda i, j: DELTA(i, j) * weighting[i])
    else:
        W = np.eye(2 * n)
    om = ARR((n,), lambda i: 2 * PI * f[i] * sc)
    X = ARR((2 * n, 3), lambda i, j: (DELTA(j, 0) - DELTA(j, 2) * om[i] ** 2) if i < n else DELTA(j, 1) * 2 * om[i - n])
    WX = np.linalg.solve(W, X)
    A = np.dot(X.T, WX)
    fitted = lambda y: np.linalg.solve(A, np.dot(X.T, np.linalg.solve(W, y)))
    if UH is not None and mc:
        def rowpar(k):
            mu = fitted(R[k])
            return som_par(mu[0], mu[1] * sc, mu[2] * sc ** 2)
        P = ARR((runs, 3), lambda k, j: DELTA(j, 0) * rowpar(k)[0] + DELTA(j, 1) * rowpar(k)[1] + DELTA(j, 2) * rowpar(k)[2])
        return np.mean(P, axis=0), np.cov(P, rowvar=False)
    y = ARR((2 * n,), lambda i: H[i] / (H[i] ** 2 + H[n + i] ** 2) if i < n else -H[i] / (H[i - n] ** 2 + H[i] ** 2))
    mu = fitted(y)
    p = som_par(mu[0], mu[1] * sc, mu[2] * sc ** 2)
    if UH is None:
        return np.array(p)
    iA = np.linalg.inv(A)
    Umu = iA.dot(np.dot(X.T, np.linalg.solve(W, V)).dot(WX)).dot(iA)
    r = SQRT(ABS(mu[0] * mu[2]))
    q = SQRT(ABS(mu[0] / mu[2]))
    C = np.array([[-1 / mu[0] ** 2, 0, 0],
                  [-mu[1] / (2 * mu[0] * r), 1 / r, -mu[1] / (2 * mu[2] * r)],
                  [1 / (4 * PI * mu[2] * q), 0, -mu[0] / (4 * PI * mu[2] ** 2 * q)]])
    return np.array(p), C.dot(Umu).dot(C.T)
