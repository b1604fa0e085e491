"""Signal objects: construction, labels, sequences of filter applications."""
from ..cases import *
from .. import expr as X, dom as D

SPEC = "pdaspec"


def axis(b, n):
    t0, dt = b.num("t0"), b.sym("dt")
    return Arr((n,), lambda i: t0.e + i[0] * dt, "f"), Num(dt, "f")


def strs(*s):
    return tup(*[Str(z) for z in s])


UNC = {"none": lambda b, n: NONE, "num": lambda b, n: b.num("su", sign=1), "zero": lambda b, n: num(0), "int": lambda b, n: b.int(3),
       "vec": lambda b, n: b.nonneg("u", n), "cov": lambda b, n: b.cov("u", n),
       "col": lambda b, n: Arr((n, ONE), b.nonneg("u", n).snap_first() if False else (lambda i: b.nonneg("u", n).at(i[0])), "f")}


def flatu(b, n, u):
    return UNC["vec" if u == "col" else u](b, n)


def add_new(u, ts, fs, kd="f"):
    def sampling(b):
        o = {}
        if ts == "sym":
            o["Ts"] = b.num("Ts", sign=2)
        elif ts:
            o["Ts"] = b.int(ts) if isinstance(ts, int) else b.flt(ts)
        if fs == "sym":
            o["Fs"] = b.num("Fs", sign=2)
        elif fs:
            o["Fs"] = b.int(fs) if isinstance(fs, int) else b.flt(fs)
        return o

    def spec(b):
        n = b.dim("N", 3)
        t, dt = axis(b, n)
        o = sampling(b)
        return [t, b.vec("x", n, kd), dt, o.get("Ts", NONE), o.get("Fs", NONE), flatu(b, n, u)], {}

    @case("C26 C11 C18", SPEC, "sigmake", "new-%s-%s-%s-%s" % (u, ts, fs, kd), "sigspec", specargs=spec, where=("PyDynamic.signals", "Signal"))
    def _(b):
        n = b.dim("N", 3)
        t, dt = axis(b, n)
        o = sampling(b)
        if u != "none":
            o["uncertainty"] = UNC[u](b, n)
        return [t, b.vec("x", n, kd), D.Dct(o)], {}


for u in UNC:
    add_new(u, None, None)
    add_new(u, None, None, "i")
for ts, fs in (("sym", None), (None, "sym"), (2, None), (None, 4), (0.5, 2.0), (2, 0.5)):
    add_new("vec", ts, fs)
    add_new("none", ts, fs, "i")


def add_bad(name, exc, mk):
    case("C19 C26", SPEC, "sigmake", "bad-" + name, raises=exc, where=("PyDynamic.signals", "Signal"))(mk)


def _bad(shape=None, tlen=None, vals=None, **kw):
    def mk(b):
        n = b.dim("N", 3)
        t, dt = axis(b, n if tlen is None else n + tlen)
        x = b.vec("x", n) if vals is None else vals(b, n)
        o = {k: v(b) for k, v in kw.items()}
        if shape:
            o["uncertainty"] = shape(b, n)
        return [t, x, D.Dct(o)], {}
    return mk


for nm, f in (("time", _bad(tlen=1)), ("time2", _bad(tlen=-1)), ("unc", _bad(lambda b, n: b.nonneg("u", n + 1))), ("unc2", _bad(lambda b, n: b.nonneg("u", n - 1))),
              ("ucov", _bad(lambda b, n: b.cov("u", n + 1))), ("ucov2", _bad(lambda b, n: b.mat("u", n, n + 1))),
              ("ucov3", _bad(lambda b, n: b.mat("u", n + 1, n))), ("ucov4", _bad(lambda b, n: b.arr3("u", n, n, n))),
              ("multi", _bad(vals=lambda b, n: b.mat("x", n, 2))),
              ("rate", _bad(Ts=lambda b: b.flt(0.5), Fs=lambda b: b.flt(4.0))), ("rate2", _bad(Ts=lambda b: b.flt(0.001), Fs=lambda b: b.flt(1010.0)))):
    add_bad(nm, "*", f)


def add_label(name, first, second):
    keys = ("unit_time", "unit_values", "name_values")
    dflt = ("s", "a.u.", "signal")

    def spec(b):
        return [strs(*[first.get(k, d) for k, d in zip(keys, dflt)]), strs(*[second.get(k, d) for k, d in zip(keys, dflt)])], {}

    @case("C26", SPEC, "siglabel", "label-" + name, "siglabelspec", specargs=spec, where=("PyDynamic.signals", "Signal"))
    def _(b):
        n = b.dim("N", 3)
        t, dt = axis(b, n)
        return [t, b.vec("x", n), D.Dct({k: Str(v) for k, v in first.items()}), D.Dct({k: Str(v) for k, v in second.items()})], {}


add_label("all", {"unit_time": "ms", "unit_values": "V", "name_values": "w"}, {})
add_label("time", {"unit_time": "ms"}, {"unit_values": "V"})
add_label("name", {"name_values": "w"}, {"unit_time": "ms", "name_values": "z"})


def add_filter(name, u, steps, kd="f", thorough=False):
    """steps: (kind of a, kind of Uab, runs)"""
    def mk(b, plain):
        n = b.dim("N", 16)
        t, dt = axis(b, n)
        out = []
        for k, (a, uab, runs) in enumerate(steps):
            bb = b.vec("b%d" % k, const(2))
            aa = None if a is None else b.vec("a%d" % k, const(a))
            p = 2 + (a or 1) - 1
            U = {"": lambda: NONE, "cov": lambda: b.cov("f%d" % k, const(p)), "vec": lambda: b.nonneg("f%d" % k, const(p))}[uab]()
            r = NONE if not runs else Num(b.dim("R%d" % k, 16), "i")
            if plain:
                out.append(tup(bb, NONE if aa is None else aa, U, r))
            else:
                d = {"b": bb}
                if aa is not None:
                    d["a"] = aa
                if uab:
                    d["filter_uncertainty"] = U
                if runs:
                    d["MonteCarloRuns"] = r
                out.append(D.Dct(d))
        return [t, b.vec("x", n, kd), (flatu if plain else lambda b, n, z: UNC[z](b, n))(b, n, u), lst(*out)], {}

    @case("C26 C11", SPEC, "sigfilter", "filter-%s-%s%s" % (name, u, "" if kd == "f" else "-" + kd), "sigfilterspec", specargs=lambda b: mk(b, True), thorough=thorough,
          where=("PyDynamic.signals", "Signal.apply_filter"))
    def _(b):
        return mk(b, False)


for u in ("none", "num", "vec", "cov", "col"):
    add_filter("fir", u, [(None, "", 0)])
    add_filter("fir-unc", u, [(None, "cov", 0)])
    add_filter("fir-runs", u, [(None, "cov", 1)])
    add_filter("fir-runs-exact", u, [(None, "", 1)])
    add_filter("iir", u, [(3, "cov", 0)])
    add_filter("iir-exact", u, [(3, "", 0)])
    add_filter("iir-runs", u, [(2, "cov", 1)])
    if u != "cov":
        add_filter("fir-fir", u, [(None, "cov", 0), (None, "", 0)])
        add_filter("fir-iir", u, [(None, "", 0), (2, "cov", 1)])
    add_filter("fir-mc-fir", u, [(None, "cov", 1), (None, "", 0)], thorough=True)
add_filter("fir", "vec", [(None, "vec", 0)])
add_filter("fir-unc", "vec", [(None, "cov", 0)], kd="i")
add_filter("iir-runs", "num", [(2, "cov", 1)], kd="i")
