# --- convolution of uncertain signals

def conv_ext(n, mode, i):
    """position that supplies value i of the extended signal, -1: zero"""
    if mode == "nearest":
        if i < 0:
            return 0
        if i >= n:
            return n - 1
        return i
    if mode == "reflect":
        if i < 0:
            return -i - 1
        if i >= n:
            return 2 * n - 1 - i
        return i
    if mode == "mirror":
        if i < 0:
            return -i
        if i >= n:
            return 2 * n - 2 - i
        return i
    if i < 0:
        return -1
    if i >= n:
        return -1
    return i


def convunc(x1, U1, x2, U2, mode="full"):
    if mode == "full" or mode == "valid" or mode == "same":
        if len(x1) < len(x2):
            return convunc(x2, U2, x1, U1, mode)
    n = len(x1)
    m = len(x2)
    if mode == "full":
        L, s = n + m - 1, 0
    elif mode == "valid":
        L, s = n - m + 1, m - 1
    elif mode == "same":
        L, s = n, (m - 1) // 2
    else:
        L, s = n, m // 2

    def xe(i):
        k = conv_ext(n, mode, i)
        return x1[k] if k >= 0 else 0

    def ue(i, j):
        if U1 is None:
            return 0
        k = conv_ext(n, mode, i)
        l = conv_ext(n, mode, j)
        if k < 0:
            return 0
        if l < 0:
            return 0
        return U1[k, l]
    u2 = (lambda a, b: U2[a, b]) if U2 is not None else (lambda a, b: 0)
    y = ARR(L, lambda i: SUM(0, m, lambda a: x2[a] * xe(i + s - a)))
    U = ARR((L, L), lambda i, j: SUM(0, m, lambda a: SUM(0, m, lambda b:
            x2[a] * x2[b] * ue(i + s - a, j + s - b) + xe(i + s - a) * xe(j + s - b) * u2(a, b) + ue(i + s - a, j + s - b) * u2(a, b))))
    return y, U
