# --- filter utilities
from scipy.signal import firwin


def dbspec(v):
    return 20 * np.log10(np.abs(v))


def uaspec(v):
    return np.unwrap(np.angle(v))


def stablespec(b, a, analog):
    v = np.roots(a)
    if analog:
        return not np.any(np.real(v) > 0)
    return not np.any(np.abs(v) > 1)


def mapspec(a):
    v = np.roots(a)
    return np.poly(np.where(np.abs(v) > 1, 1 / np.conj(v), v))


def OR0(x, i):
    z = np.hstack((np.zeros(20), x, np.zeros(20)))
    return z[i + 20]


def gdspec(b, a, Fs, n):
    na = len(a)
    c = ARR((len(b) + na - 1,), lambda m: SUM(0, len(b), lambda k: b[k] * OR0(a, na - 1 - m + k)))
    den = ARR((n + 1,), lambda q: SUM(0, len(c), lambda m: c[m] * EXPJ(-PI * q * m / n)))
    num = ARR((n + 1,), lambda q: SUM(0, len(c), lambda m: m * c[m] * EXPJ(-PI * q * m / n)))
    small = np.abs(den) < 1e-12
    gd = np.real(np.where(small, 0.0, num) / np.where(small, 1.0, den)) - (na - 1)
    return gd, ARR((n + 1,), lambda q: q * Fs / (2 * n))


def kaiserspec(L, fc, Fs, beta):
    if L % 2 == 0:
        L = L + 1
    return firwin(L, 2 * fc / Fs, window=("kaiser", beta)), (L - 1) // 2


def rolled(x, s):
    n = len(x)
    return ARR((n,), lambda i: x[(i - s) % n])


def shiftspec(x, ux, s):
    n = len(x)
    xs = np.roll(x, s)
    if isinstance(ux, float):
        return xs, ux
    if ux.ndim == 1:
        return xs, np.roll(ux, s)
    return xs, np.roll(np.roll(ux, s, axis=0), s, axis=1)


def padspec(x, n):
    m = len(x)
    return np.hstack((x, np.zeros(n - m)))


def trimspec(x, n):
    return ARR((n,), lambda i: x[i])


def frispec(A, P, U, runs):
    n = len(A)
    if U.ndim == 1:
        U = np.diag(U)
    Z = np.random.multivariate_normal(np.hstack((A, P)), U, int(runs))
    R = ARR((int(runs), n), lambda r, i: Z[r, i] * COS(Z[r, n + i]))
    M = ARR((int(runs), n), lambda r, i: Z[r, i] * SIN(Z[r, n + i]))
    return np.mean(R, axis=0), np.mean(M, axis=0), np.cov(np.hstack((R, M)).T)


def sgspec(y, w, order, deriv, delta):
    h = (w - 1) // 2
    n = len(y)
    B = np.array([[k ** i for i in range(order + 1)] for k in range(-h, h + 1)])
    f = 1
    for k in range(deriv):
        f = f * (k + 1)
    m = np.linalg.pinv(B)[deriv] * f / delta ** deriv
    Y = np.hstack((ARR((h,), lambda i: y[0] - ABS(y[h - i] - y[0])), y, ARR((h,), lambda i: y[n - 1] + ABS(y[n - 2 - i] - y[n - 1]))))
    return ARR((n,), lambda i: SUM(0, w, lambda k: m[k] * Y[i + k]))
