# --- FIR filter with uncertain coefficients

def fir_stage(x, U, theta, Ut):
    """one filter stage; U(i, j) for i, j >= 0, Ut(a, b) or None"""
    N = len(x)
    L = len(theta)
    xe = lambda i: x[i] if i >= 0 else x[0]

    def ue(i, j):
        if i >= 0 and j >= 0:
            return U(i, j)
        d = i - j if i >= j else j - i
        if d < N:
            return U(0, d)
        return 0
    y = ARR(N, lambda i: SUM(0, L, lambda a: theta[a] * xe(i - a)))

    def v(i, j):
        r = SUM(0, L, lambda a: SUM(0, L, lambda b: theta[a] * theta[b] * ue(i - a, j - b)))
        if Ut is None:
            return r
        return (r + SUM(0, L, lambda a: SUM(0, L, lambda b: xe(i - a) * xe(j - b) * Ut(a, b)))
                + SUM(0, L, lambda a: SUM(0, L, lambda b: ue(i - a, j - b) * Ut(a, b))))
    return y, v


def firunc(y, sigma_noise, theta, Utheta=None, shift=0, blow=None, kind="corr", return_full_covariance=False):
    N = len(y)
    if sigma_noise is None:
        U = lambda i, j: 0
    elif isinstance(sigma_noise, float):
        U = lambda i, j: DELTA(i, j) * sigma_noise ** 2
    elif len(sigma_noise.shape) == 2:
        U = lambda i, j: sigma_noise[i, j]
    elif kind == "diag":
        U = lambda i, j: DELTA(i, j) * sigma_noise[i] ** 2
    else:
        def U(i, j):
            d = i - j if i >= j else j - i
            if d < len(sigma_noise):
                return sigma_noise[d]
            return 0
    if Utheta is None:
        Ut = None
    elif isinstance(Utheta, float):
        Ut = lambda a, b: DELTA(a, b) * Utheta ** 2
    elif len(Utheta.shape) == 1:
        Ut = lambda a, b: DELTA(a, b) * Utheta[a] ** 2
    else:
        Ut = lambda a, b: Utheta[a, b]
    if blow is not None:
        y, U = fir_stage(y, U, blow, None)
    z, V = fir_stage(y, U, theta, Ut)

    def sh(i):
        k = i + shift
        if k >= N:
            return k - N
        if k < 0:
            return k + N
        return k
    x = ARR(N, lambda i: z[sh(i)])
    if return_full_covariance:
        return x, ARR((N, N), lambda i, j: V(sh(i), sh(j)))
    return x, ARR(N, lambda i: SQRT(ABS(V(sh(i), sh(i)))))
