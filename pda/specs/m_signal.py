# --- signal objects: the sequence of calls under analysis, and what has to come out

def sigmake(time, values, kw):
    from PyDynamic.signals import Signal
    s = Signal(time, values, **kw)
    return s.time, s.values, s.Ts, s.Fs, s.uncertainty, s.unit_time, s.unit_values, s.name


def siglabel(time, values, first, second):
    from PyDynamic.signals import Signal
    s = Signal(time, values)
    s.set_labels(**first)
    r = s.unit_time, s.unit_values, s.name
    s.set_labels(**second)
    t = Signal(time, values)
    return r, (s.unit_time, s.unit_values, s.name), (t.unit_time, t.unit_values, t.name)


def sigfilter(time, values, u, steps):
    from PyDynamic.signals import Signal
    s = Signal(time, values, uncertainty=u)
    o = Signal(time, values, uncertainty=u)
    for kw in steps:
        s.apply_filter(**kw)
    return s.values, s.uncertainty, s.time, o.values, o.uncertainty, s.Ts * s.Fs


def sigunc(n, u):
    if u is None:
        return ARR(n, lambda i: 0)
    if isinstance(u, np.ndarray):
        return u
    return ARR(n, lambda i: u)


def sigspec(time, values, dt, Ts, Fs, u):
    if Ts is not None:
        ts = Ts
        fs = 1 / Ts if Fs is None else Fs
    elif Fs is not None:
        ts, fs = 1 / Fs, Fs
    else:
        ts, fs = dt, 1 / dt
    return time, values, ts, fs, sigunc(len(time), u), "s", "a.u.", "signal"


def siglabelspec(first, second):
    return first, second, ("s", "a.u.", "signal")


def sigfilterspec(time, values, u, steps):
    U = sigunc(len(time), u)
    x, V = values, U
    for b, a, Uab, runs in steps:
        if a is None and V.ndim == 1 and runs is None:
            x, V = firunc(x, V, b, Uab, kind="diag")
        else:
            a = np.array([1.0]) if a is None else a
            if Uab is None:
                Uab = ARR((len(a) + len(b) - 1, len(a) + len(b) - 1), lambda i, j: 0)
            x, V = mcspec(x, V, b, a, Uab, 10000 if runs is None else runs, None, None, False, 0)
    return x, V, time, values, U, 1
