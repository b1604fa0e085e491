# --- sequential Monte Carlo
from scipy.stats.mstats import mquantiles

def iirun(b, a, x):
    """direct-form filter of a list of vectors (one entry per time step), coefficients given as lists of vectors, a[0] = 1"""
    y = []
    for n in range(len(x)):
        v = 0 * x[0]
        for k in range(len(b)):
            if n - k >= 0:
                v = v + b[k] * x[n - k]
        for k in range(1, len(a)):
            if n - k >= 0:
                v = v - a[k] * y[n - k]
        y.append(v)
    return y


def smcspec(x, s, b, a, Uab, runs, Perc, blow, alow, shift, ret, phi, theta, Delta):
    N = len(x)
    nb = len(b)
    na = len(a) - 1 if isinstance(a, np.ndarray) else 0
    co = np.hstack((a[1:], b)) if na > 0 else b
    if Uab is not None:
        Th = np.random.multivariate_normal(co, Uab, runs)
    else:
        Th = ARR((runs, na + nb), lambda r, j: co[j])
    ar = [1] + [Th[:, k] for k in range(na)]
    br = [Th[:, na + k] for k in range(nb)]
    ph = [] if phi is None else ([phi[k] for k in range(len(phi))] if isinstance(phi, np.ndarray) else [phi])
    th = [] if theta is None else ([theta[k] for k in range(len(theta))] if isinstance(theta, np.ndarray) else [theta])
    w = []
    e = []
    d = []
    for n in range(N):
        w.append(np.random.randn(runs) * s)
        d.append((np.random.rand(runs) * 2 - 1) * Delta)
        v = w[n]
        for k in range(len(ph)):
            if n - 1 - k >= 0:
                v = v + ph[k] * e[n - 1 - k]
        for k in range(len(th)):
            if n - 1 - k >= 0:
                v = v + th[k] * w[n - 1 - k]
        e.append(v)
    xl = [x[n] + e[n] for n in range(N)]
    if blow is not None:
        al = [1]
        if alow is not None:
            al = [alow[k] for k in range(len(alow))]
        xl = iirun([blow[k] for k in range(len(blow))], al, xl)
    yl = iirun(br, ar, xl)
    Y = [yl[n] + d[n] for n in range(N)]
    S = np.roll(np.array(Y).T, int(shift), axis=1)
    if ret:
        return S
    y = np.roll(np.array([np.mean(Y[n]) for n in range(N)]), int(shift))
    u = np.roll(np.array([np.std(Y[n]) for n in range(N)]), int(shift))
    if Perc is not None:
        P = np.array([mquantiles(Y[n], prob=Perc) for n in range(N)])
        return y, u, np.roll(P.T, int(shift), axis=1)
    return y, u
