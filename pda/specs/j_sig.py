# --- test signals, coloured noise

def gauss(t, t0, m, s):
    return m * np.exp(-(t - t0) * (t - t0) / (2 * s * s))


def noisy(x, s):
    if s is None:
        return x
    return x + s * np.random.randn(len(x))


def shockspec(t, t0, m, s, noise):
    return noisy(ARR((len(t),), lambda i: -m * (t[i] - t0) / s * np.exp(0.5 - (t[i] - t0) * (t[i] - t0) / (2 * s * s))), noise)


def pulsespec(t, t0, m, s, noise):
    return noisy(gauss(t, t0, m, s), noise)


def rectspec(t, t0, t1, h, noise, arr):
    x = h * (t > t0) * (1 - (t > t1))
    if arr is not None:
        return x + arr
    return noisy(x, noise)


def squarespec(t, h, n, noise):
    w = (t[len(t) - 1] - t[0]) / (2 * n + 1)
    x = np.zeros(len(t))
    for k in range(n):
        x = x + h * (t > t[0] + (2 * k + 1) * w) * (1 - (t > t[0] + (2 * k + 2) * w))
    return noisy(x, noise)


def sinespec(t, amp, f, noise):
    return noisy(amp * np.sin(2 * np.pi * f * t), noise)


def sineperiod(t, amp, f, noise):
    return noisy(amp * np.sin(2 * np.pi / f * t), noise)


def multispec(t, amps, ws, noise):
    x = np.zeros(len(t))
    for k in range(len(amps)):
        x = x + amps[k] * np.sin(ws[k] * t)
    return noisy(x, noise)


def whitespec(n, mean, std):
    return np.random.normal(mean, std, n)


def plspec(w, n, alpha, mean, std):
    if w is None:
        w = np.random.normal(0, 1, n)
    n = len(w)
    m = n // 2 + 1
    k = np.linspace(0, m, m) + 1
    y = np.fft.irfft(np.fft.rfft(w) * np.power(k, alpha / 2), n)
    return mean + std * (y - np.mean(y)) / np.std(y)


def placf(n, alpha, std):
    k = np.linspace(0, n, n) + 1
    r = np.fft.irfft(np.power(k, alpha))
    return std * std * r[:n] / r[0]
