# --- ARMA noise, block-wise Monte Carlo of a digital filter
from scipy.interpolate import interp1d


def armaspec(n, phi, theta, std):
    w = np.random.normal(0, std, n)
    e = []
    for t in range(n):
        v = w[t]
        for k in range(len(phi)):
            if t - 1 - k >= 0:
                v = v + phi[k] * e[t - 1 - k]
        for k in range(len(theta)):
            if t - 1 - k >= 0:
                v = v + theta[k] * w[t - 1 - k]
        e.append(v)
    return np.array(e)


def umceval(th, nb, x, Delta, phi, theta, sigma, bl, al):
    n = len(x)
    na = len(th) - nb
    xl = x + armaspec(n, phi, theta, sigma)
    xl = iirun([bl[k] for k in range(len(bl))], [al[k] for k in range(len(al))], [xl[k] for k in range(n)])
    y = iirun([th[na + k] for k in range(nb)], [1] + [th[k] for k in range(na)], xl)
    return np.array(y) + (np.random.rand(n) * 2 - 1) * Delta


def umcspec(x, b, a, Uab, runs, init, block, bl, al, phi, theta, sigma, Delta, nbins, cred):
    n = len(x)
    ab = np.hstack((a[1:], b))
    Y = []
    a0 = al[0]
    al = [al[k] / a0 for k in range(len(al))]
    bl = [bl[k] / a0 for k in range(len(bl))]
    Th = np.random.multivariate_normal(ab, Uab, init + runs)
    for r in range(init + runs):
        Y.append(umceval(Th[r], len(b), x, Delta, phi, theta, sigma, bl, al))
    y, Uy, h, _ = umcstat(Y, n, init, runs, nbins)
    lo = []
    hi = []
    for nb in nbins:
        e = h[nb]["bin-edges"]
        c = h[nb]["bin-counts"]
        f = [ccdf(c[:, k], e[:, k], nb) for k in range(n)]
        lo.append([f[k]((1 - cred) / 2) for k in range(n)])
        hi.append([f[k]((1 + cred) / 2) for k in range(n)])
    return y, Uy, np.array(lo), np.array(hi), h


def ccdf(c, e, nb):
    t = c[0]
    G = [0 * t, t]
    for k in range(1, nb):
        t = t + c[k]
        G.append(t)
    return interp1d(np.array(G) / t, e)


def umcstat(Y, q, init, runs, nbins):
    mean = 0
    for r in range(runs):
        mean = mean + Y[init + r]
    mean = mean / runs
    Uy = 0
    for r in range(runs):
        Uy = Uy + np.outer(Y[init + r] - mean, Y[init + r] - mean)
    Uy = Uy / (runs - 1 if runs > 1 else 1)
    lo = np.min(np.array(Y[:init]), axis=0)
    hi = np.max(np.array(Y[:init]), axis=0)
    alo = np.min(np.array(Y), axis=0)
    ahi = np.max(np.array(Y), axis=0)
    h = {}
    for nb in nbins:
        h[nb] = umc_hist(nb, q, lo, hi, alo, ahi, np.array(Y[init:]))
    return mean, Uy, h, q
