# --- block-wise Monte Carlo

def umc_hist(nb, q, lo, hi, alo, ahi, R):
    e = ARR((nb + 1, q), lambda i, j: lo[j] + i * (hi[j] - lo[j]) / nb)
    c = ARR((nb, q), lambda i, j: np.histogram(R[:, j], bins=e[:, j])[0][i])
    w = ARR((nb + 1, q), lambda i, j: DELTA(i) * alo[j] + DELTA(i - nb) * ahi[j] + (1 - DELTA(i)) * (1 - DELTA(i - nb)) * e[i, j])
    return {"bin-edges": w, "bin-counts": c}


def umcgeneric(X, f, runs, init, shape, nbins, ret):
    Y = [f(X[r]) for r in range(init + runs)]
    q = 1
    for s in shape:
        q = q * s
    flat = [z.ravel() for z in Y]
    mean = 0
    for r in range(runs):
        mean = mean + flat[init + r]
    mean = mean / runs
    den = runs - 1 if runs > 1 else 1
    Uy = 0
    for r in range(runs):
        Uy = Uy + np.outer(flat[init + r] - mean, flat[init + r] - mean)
    Uy = Uy / den
    lo = np.min(np.array(flat[:init]), axis=0)
    hi = np.max(np.array(flat[:init]), axis=0)
    alo = np.min(np.array(flat), axis=0)
    ahi = np.max(np.array(flat), axis=0)
    R = np.array(flat[init:])
    h = {}
    for nb in nbins:
        h[nb] = umc_hist(nb, q, lo, hi, alo, ahi, R)
    if ret:
        return mean, Uy, h, tuple(shape), {"samples": X[init:], "results": np.array(Y[init:])}
    return mean, Uy, h, tuple(shape)


def mcspec(x, Ux, b, a, Uab, runs, blow, alow, ret, shift):
    n = len(x)
    Na = len(a)
    theta = np.hstack((a[1:], b))
    Th = np.random.multivariate_normal(theta, Uab, runs)
    if isinstance(Ux, np.ndarray) and Ux.ndim == 2:
        xs = np.random.multivariate_normal(x, Ux, runs)
    else:
        Z = np.random.randn(runs, n)
        xs = ARR((runs, n), lambda k, i: x[i] + (Ux[i] if isinstance(Ux, np.ndarray) else Ux) * Z[k, i])

    def out(k):
        xn = xs[k]
        if blow is not None:
            xn = lfilter(blow, 1.0 if alow is None else alow, xn)
        return lfilter(Th[k, Na - 1:], np.hstack((1.0, Th[k, :Na - 1])), xn)

    def st(k):
        return 1 if isstable(Th[k, Na - 1:], np.hstack((1.0, Th[k, :Na - 1]))) else 0
    Y = ARR((runs, n), lambda k, i: st(k) * out(k)[i])
    Y = np.roll(Y, int(shift), axis=1)
    if ret:
        return Y
    cnt = SUM(0, runs, st)
    y = ARR((n,), lambda i: SUM(0, runs, lambda k: st(k) * Y[k, i]) / cnt)
    U = ARR((n, n), lambda i, j: SUM(0, runs, lambda k: st(k) * (Y[k, i] - y[i]) * (Y[k, j] - y[j])) / (cnt - 1))
    return y, U
