# --- IIR filter with uncertain coefficients

def iirout(x, b, a):
    """difference equation with zero initial state"""
    y = []
    for n in range(len(x)):
        s = 0
        for k in range(len(b)):
            if n - k >= 0:
                s = s + b[k] * x[n - k]
        for k in range(1, len(a)):
            if n - k >= 0:
                s = s - a[k] * y[n - k]
        y.append(s)
    return y


def iirunc(x, noise, b, a, Uab):
    N = len(x)
    y = iirout(x, b, a)
    par = [a[k] for k in range(1, len(a))] + [b[k] for k in range(len(b))]
    # response to a unit pulse
    h = iirout([1] + [0] * (N - 1), b, a)
    u = []
    for n in range(N):
        s = 0
        g = [DIFF(y[n], p) for p in par]
        for i in range(len(par)):
            for j in range(len(par)):
                s = s + g[i] * g[j] * Uab[i, j]
        for m in range(n + 1):
            un = noise[m] if isinstance(noise, np.ndarray) else noise
            s = s + h[n - m] ** 2 * un ** 2
        u.append(SQRT(ABS(s)))
    return np.array(y), np.array(u)
