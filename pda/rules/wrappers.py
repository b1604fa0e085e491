"""C16: deprecated names and wrappers forward every argument unchanged to the current function."""
import ast

from ..check import Report
from .. import absint, compare, dom as D, expr as X, cases as C
from ..dom import Arr, Num, Opaque, PyRaise, Top, Seq, NONE, Str, Func
from ..expr import Undecided, NeedSplit
from ..project import AnchorMissing
from .common import Names
from .state import analysis, pkind

P = "PyDynamic."
FITF, FITT = P + "model_estimation.fit_filter", P + "model_estimation.fit_transfer"
# wrapper -> (current function, {wrapper parameter: parameter of the same meaning when named differently})
WRAP = [
    (P + "deconvolution.fit_filter.LSFIR", FITF + ".invLSFIR", {}),
    (P + "deconvolution.fit_filter.LSFIR_unc", FITF + ".invLSFIR_unc", {}),
    (P + "deconvolution.fit_filter.LSFIR_uncMC", FITF + ".invLSFIR_uncMC", {}),
    (P + "deconvolution.fit_filter.LSIIR", FITF + ".invLSIIR", {}),
    (P + "deconvolution.fit_filter.LSIIR_unc", FITF + ".invLSIIR_unc", {}),
    (P + "identification.fit_transfer.fit_sos", FITT + ".fit_som", {}),
    (P + "uncertainty.propagate_DFT.DFT_transferfunction", P + "uncertainty.propagate_DFT.DFT_deconv", {"X": "H", "UX": "UH"}),
    (P + "uncertainty.propagate_DFT.GUMdeconv", P + "uncertainty.propagate_DFT.DFT_deconv", {}),
    (P + "misc.tools.make_equidistant", P + "uncertainty.interpolate.make_equidistant", {}),
]
# exported name -> function it stands for
ALIAS = {
    P + "deconvolution.LSFIR": P + "deconvolution.fit_filter.LSFIR", P + "deconvolution.LSIIR": P + "deconvolution.fit_filter.LSIIR",
    P + "deconvolution.LSFIR_unc": P + "deconvolution.fit_filter.LSFIR_unc", P + "deconvolution.LSFIR_uncMC": P + "deconvolution.fit_filter.LSFIR_uncMC",
    P + "deconvolution.LSIIR_unc": P + "deconvolution.fit_filter.LSIIR_unc", P + "identification.LSFIR": FITF + ".LSFIR", P + "identification.LSIIR": FITF + ".LSIIR",
    P + "identification.fit_filter.LSFIR": FITF + ".LSFIR", P + "identification.fit_filter.LSIIR": FITF + ".LSIIR",
    P + "identification.fit_sos": P + "identification.fit_transfer.fit_sos", P + "uncertainty.interpolation.interp1d_unc": P + "uncertainty.interpolate.interp1d_unc",
    P + "LSFIR": FITF + ".LSFIR", P + "LSIIR": FITF + ".LSIIR", P + "LSFIR_unc": P + "deconvolution.fit_filter.LSFIR_unc",
    P + "LSFIR_uncMC": P + "deconvolution.fit_filter.LSFIR_uncMC", P + "LSIIR_unc": P + "deconvolution.fit_filter.LSIIR_unc",
    P + "fit_sos": P + "identification.fit_transfer.fit_sos",
}
SUBPK = {"uncertainty": ["GUM_DFT", "GUM_iDFT", "DFT_deconv", "DFT_multiply", "DFT2AmpPhase", "AmpPhase2DFT", "AmpPhase2Time", "Time2AmpPhase", "FIRuncFilter", "IIRuncFilter",
                         "MC", "SMC", "UMC", "UMC_generic", "interp1d_unc"],
         "misc": ["sos_FreqResp", "sos_phys2filter", "sos_absphase", "sos_realimag", "db", "grpdelay", "mapinside", "isstable", "kaiser_lowpass", "savitzky_golay", 
                  "shocklikeGaussian", "GaussianPulse", "squarepulse", "rect", "corr_noise", "sine", "ARMA", "print_mat", "print_vec", "make_semiposdef",
                  "FreqResp2RealImag"],
         "model_estimation": ["LSFIR", "LSIIR", "invLSFIR", "invLSFIR_unc", "invLSFIR_uncMC", "invLSIIR", "invLSIIR_unc", "fit_som"]}


def aliases(N):
    out = dict(ALIAS)
    base = {}
    for full in N.public():
        base.setdefault(full.rsplit(".", 1)[1], []).append(full)
    for full in N.classes:
        base.setdefault(full.rsplit(".", 1)[1], []).append(full)
    for sub, names in SUBPK.items():
        for n in names:
            c = [z for z in base.get(n, []) if z.startswith(P + sub + ".") and ".interpolation." not in z]
            if len(c) == 1:
                out.setdefault(P + sub + "." + n, c[0])
                if n not in ("LSFIR", "LSIIR"):
                    out.setdefault(P + n, c[0])
    return out


def sample(b, fn, p, alt):
    """an abstract argument for parameter p"""
    k = pkind(fn, p)
    if p in ("verbose", "justFit", "copy"):
        return C.TRUE if alt else C.FALSE
    if p == "kind":
        return Str("cubic" if alt else "linear")
    if p in ("UH", "UX", "UY") or p == "Ux":
        return b.cov(p, b.dim("q" + p))
    if p in ("H", "Hvals"):
        return b.vec(p, b.dim("m"), "c")
    if k in ("array",):
        return b.vec(p, b.dim("m" if not alt else "m2"))
    if p in ("N", "Nb", "Na", "MCruns", "runs"):
        return b.num(p, "i", 1)
    return b.num(p)


def same(a, v, ctx):
    if a is v:
        return True
    o = compare.Outcome()
    try:
        compare.compare(v, a, ctx, "argument", o, set())
    except (Undecided, NeedSplit):
        return None
    if o.diffs:
        return False
    return None if o.undecided else True


def default_of(fn, p):
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(p)


def const_val(n):
    try:
        v = ast.literal_eval(n)
        return ("v", type(v).__name__ if isinstance(v, (str, bool, type(None))) else "num", v)
    except (ValueError, SyntaxError, TypeError):
        return ("s", "", ast.unparse(n))


def c16(project, tier):
    an = analysis(project)
    N = an.N
    R = Report()
    R.rule = ("each wrapper is interpreted abstractly with the current function replaced by a recorder: the recorded call binds every parameter to the wrapper's own argument "
              "of the same meaning, omitted parameters to the same defaults, and the wrapper returns exactly what the recorder returned; every re-exported name resolves to its function")
    pub = N.public()
    for w, t, ren in WRAP:
        fw, ft = N.fns.get(N.canon(w)), N.fns.get(N.canon(t))
        R.obligations += 1
        if ft is None:
            R.undecided.append("%s: target %s not found" % (w, t))
            continue
        if fw is None or fw is ft:
            if fw is ft and fw is not None:
                R.decided += 1
                if ren:
                    R.viol(w, fw.loc(), "%s is the same object as %s and does not accept %s" % (w, t, sorted(ren)))
                continue
            imp = N.canon(w)
            if imp in pub and imp != t:
                R.decided += 1
                R.viol(w, "PyDynamic", "%s stands for %s instead of %s" % (w, imp, t))
            else:
                R.undecided.append("%s: not a function definition" % w)
            continue
        R.functions.add(fw.full)
        R.decided += 1
        signature(R, fw, ft, ren)
        for mode in ("positional", "keyword", "required", "alt"):
            R.obligations += 1
            r = forward(project, N, fw, ft, ren, mode)
            if isinstance(r, list):
                R.decided += 1
                for msg in r:
                    R.viol("%s|%s" % (w, msg.split(":")[0]), fw.loc(), "%s -> %s: %s" % (w, t, msg))
            else:
                R.undecided.append("%s (%s): %s" % (w, mode, r))
            R.samples.append({"wrapper": w, "target": t, "call": mode, "result": "ok" if r == [] else r})
    known = set(pub) | set(N.classes)
    for name, target in sorted(aliases(N).items()):
        R.obligations += 1
        got = N.canon(name)
        got = effective(N, got, name)
        R.samples.append({"name": name, "target": target, "resolves_to": got})
        if got == target:
            R.decided += 1
        elif got in known:
            R.decided += 1
            R.viol(name, "PyDynamic", "%s stands for %s instead of %s" % (name, got, target))
        else:
            R.undecided.append("%s resolves to %s" % (name, got))
    dedupe(R)
    R.floor = 40
    return R


def dedupe(R):
    seen, out = set(), []
    for v in R.violations:
        if v.key not in seen:
            seen.add(v.key)
            out.append(v)
    R.violations = out


def effective(N, got, name):
    return got


def signature(R, fw, ft, ren):
    w = fw.full
    wa, ta = fw.args, ft.args
    if wa.vararg is not None and wa.kwarg is not None:
        return
    inv = {v: k for k, v in ren.items()}
    wp = [x.arg for x in wa.posonlyargs + wa.args]
    tp = [inv.get(x.arg, x.arg) for x in ta.posonlyargs + ta.args]
    wall = set(wp) | {x.arg for x in wa.kwonlyargs}
    tall = set(tp) | {x.arg for x in ta.kwonlyargs}
    for p in sorted(tall - wall):
        if not wa.kwarg:
            R.viol("%s|missing %s" % (w, p), fw.loc(), "%s does not accept parameter %s of %s" % (w, p, ft.full))
    k = [p for p in wp if p in tp]
    if k != [p for p in tp if p in wp]:
        R.viol("%s|order" % w, fw.loc(), "%s takes its parameters in another order (%s) than %s (%s)" % (w, ", ".join(wp), ft.full, ", ".join(tp)))
    for p in sorted(wall & tall):
        d1, d2 = default_of(fw, p), default_of(ft, ren.get(p, p))
        if (d1 is None) != (d2 is None):
            R.viol("%s|default %s" % (w, p), fw.loc(), "parameter %s of %s has %s default while that of %s has %s" % (
                p, w, "no" if d1 is None else "a", ft.full, "none" if d2 is None else "one"))
        elif d1 is not None and const_val(d1) != const_val(d2):
            R.viol("%s|default %s" % (w, p), fw.loc(), "default %s=%s of %s differs from %s of %s" % (p, ast.unparse(d1), w, ast.unparse(d2), ft.full))


def forward(project, N, fw, ft, ren, mode):
    """[] when forwarded, list of messages for violations, text when undecided"""
    I = absint.Interp(project)
    C.spec_module(project)
    ctx = D.Ctx()
    D.set_ctx(ctx)
    b = C.Builder(ctx)
    rec = []
    token = {}

    def stub(f):
        def go(I_, a, k):
            rec.append((f, list(a), dict(k)))
            token[len(rec)] = Opaque("result", f=f, n=len(rec))
            return token[len(rec)]
        return go
    for full, f in N.fns.items():
        if f.outer is None and f.cls is None and f is not fw and full in N.public():
            I.stubs[(f.mod.name, f.name)] = stub(f)
    params = [x.arg for x in fw.args.posonlyargs + fw.args.args + fw.args.kwonlyargs]
    if fw.args.vararg is not None:
        params = [x.arg for x in ft.args.posonlyargs + ft.args.args + ft.args.kwonlyargs]
        owner = ft
    else:
        owner = fw
    vals = {p: sample(b, ft if ren.get(p, p) in ft.params() else owner, ren.get(p, p), mode == "alt") for p in params}
    use = [p for p in params if mode != "required" or default_of(owner, p) is None]
    kwonly = {x.arg for x in owner.args.kwonlyargs}
    try:
        g = I.function(fw.mod.name, fw.qual)
        if mode == "positional":
            res = I.call(g, [vals[p] for p in use if p not in kwonly], {p: vals[p] for p in use if p in kwonly})
        else:
            res = I.call(g, [], {p: vals[p] for p in use})
    except PyRaise as e:
        if I.stats["fallback"]:
            return "raises %s after %s" % (e.etype, I.fallbacks[:1])
        return ["raises: %s at %s for arguments the current function accepts" % (e.etype, getattr(e, "where", "?"))]
    except (Undecided, NeedSplit) as e:
        return str(e)
    if I.stats["fallback"]:
        return "not understood: %s" % (I.fallbacks[:1],)
    if isinstance(res, Opaque) and res.kind == "result":
        f, a, k = rec[res.kw["n"] - 1]
        if f is not ft:
            return ["target: returns the result of %s" % f.full]
        out = []
        tp = [x.arg for x in ft.args.posonlyargs + ft.args.args]
        bound = dict(zip(tp, a))
        if len(a) > len(tp):
            out.append("too many: %d positional arguments for %d parameters" % (len(a), len(tp)))
        allt = set(tp) | {x.arg for x in ft.args.kwonlyargs}
        for q, v in k.items():
            if q in bound:
                out.append("%s: passed twice" % q)
            elif q not in allt:
                out.append("%s: not a parameter of the current function" % q)
            bound[q] = v
        und = []
        for p in params:
            q = ren.get(p, p)
            if q not in allt:
                continue
            d = default_of(ft, q)
            if p in use:
                if q not in bound:
                    out.append("%s: not forwarded" % p)
                    continue
                s = same(vals[p], bound[q], ctx)
                if s is False:
                    out.append("%s: another value is forwarded than the one given" % p)
                elif s is None:
                    und.append(p)
            elif q in bound:
                want = I.eval(d, I.module_env(ft.mod.name)) if d is not None else None
                if want is not None:
                    s = same(want, bound[q], ctx)
                    if s is False:
                        out.append("%s: forwarded as another value than the default when omitted" % p)
                    elif s is None and not (isinstance(want, Opaque) or want is bound[q]):
                        und.append(p)
            elif d is None:
                out.append("%s: required parameter not passed" % q)
        if out:
            return out
        if und:
            return "forwarding of %s not decided" % ", ".join(und)
        return []
    if rec and rec[-1][0] is ft and not isinstance(res, Top):
        return ["result: the result of the current function is not what is returned"]
    return "no recorded call (%r)" % (type(res).__name__,)
