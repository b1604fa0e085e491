"""C01 (callers' data), C03 (hidden state), C02 (random numbers): rules over the effect analysis."""
import ast
import re

from ..check import Report
from ..project import AnchorMissing
from .common import kind_of, param_docs
from .effects import Analysis, LAMBDA, mutable_literal, Walk

# parameters the documentation does not describe, from reading the code
KINDS = {
    "vals": "array", "b_in": "array", "a_in": "array", "p_in": "array", "r_in": "array", "a": "array", "b": "array", "H": "array", "UH": "array", "Hvals": "array",
    "f": "array", "Wt": "array", "wt": "array", "weighting": "array", "w": "array", "noise": "maybe", "Y": "array", "UY": "array", "blow": "array", "alow": "array",
    "UH_": "array", "vec": "array", "N": "scalar", "Nb": "scalar", "Na": "scalar", "tau": "scalar", "Fs": "scalar", "fs": "scalar", "n": "scalar", "ts": "scalar", "p": "scalar",
    "length": "scalar", "value": "scalar", "lag": "scalar", "runs": "scalar", "MCruns": "scalar", "std": "scalar", "mean": "scalar", "shift": "scalar", "verbose": "scalar",
    "size": "scalar", "sigma": "scalar", "Ts": "scalar", "fignr": "scalar", "tol": "scalar", "nfft": "scalar", "sm": "scalar",
}
_an = {}


def analysis(project):
    if id(project) not in _an:
        _an.clear()
        _an[id(project)] = Analysis(project)
    return _an[id(project)]


def pkind(fn, p):
    k = kind_of(fn, p)
    if k == "unknown":
        k = KINDS.get(p, "unknown")
    return k


def two_d(fn, p):
    d = param_docs(fn).get(p, "")
    return bool(re.search(r"\(\s*\w+\s*,\s*\d*\w+\s*\)|matrix|covariance|2D|2-D|two-dim", d)) or "dict" in d or "list of" in d


def c01(project, tier):
    an = analysis(project)
    pub = an.N.public()
    R = Report()
    R.rule = ("forward may-alias analysis of every function with interprocedural summaries: at no statement that writes to an object (item or slice "
              "assignment, in-place operator, mutating method, out=/overwrite arguments, library functions that write) may the written object be, or be a "
              "view or element of, an argument of a public function")
    seen = set()
    for full, f in sorted(pub.items()):
        S = an.summary(f)
        R.functions.add(full)
        for p in f.params():
            if p == "self":
                continue
            R.obligations += 1
            R.decided += 1
        for e in S.effects.values():
            if e.tok[0] == "P":
                verdict(R, an, f, f, e, e.tok[1], e.tok[-1], seen)
            elif e.tok[0] == "A":
                for t in closure_attr(an, e.tok):
                    if t[0] == "C":
                        g = an.N.fns.get(t[1])
                        if g is not None:
                            verdict(R, an, f, g, e, t[2], t[-1], seen, "the object keeps the array passed as %s to %s; " % (t[2], t[1]))
    R.samples = [{"function": full, "parameters": f.params(), "effects": sorted({"%s %s" % (e.tok[0], e.what) for e in an.summary(f).effects.values()})[:6]}
                 for full, f in sorted(pub.items())][:200]
    R.extra["syntax_nodes_interpreted"] = an.nodes
    R.floor = 100
    return R


def closure_attr(an, tok, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if tok in seen or depth > 4:
        return
    seen.add(tok)
    for t in an.attrs.get((tok[1], tok[2]), ()):
        if t[0] == "A":
            yield from closure_attr(an, t, depth + 1, seen)
        elif t[0] == "F":
            continue
        else:
            yield t


def verdict(R, an, f, owner, e, p, depth, seen, pre=""):
    kind = pkind(owner, p)
    inplace = getattr(e, "inplace", False)
    if inplace:
        if depth and not two_d(owner, p):
            return
        if kind == "scalar":
            return
        if kind == "unknown":
            R.undecided.append("%s: %s (parameter %s of undocumented kind)" % (e.fn.loc(e.node), e.what, p))
            return
    key = (f.full, p, e.fn.full, e.what)
    if key in seen:
        return
    seen.add(key)
    R.viol("%s|%s|%s" % (f.full, p, e.what), e.fn.loc(e.node), "%s%s changes the caller's argument %r of %s%s" % (
        pre, e.what, p, f.full, (" (called via %s)" % " <- ".join(e.via)) if e.via else ""))


# ------------------------------------------------------------------ C03

PROCESS = {
    "numpy.seterr", "numpy.seterrcall", "numpy.seterrobj", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function", "numpy.set_numeric_ops",
    "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice",
    "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "os.environ.__setitem__", "locale.setlocale", "sys.setrecursionlimit",
    "sys.setswitchinterval", "sys.path.append", "sys.path.insert", "sys.path.extend", "sys.settrace", "sys.setprofile", "gc.disable", "gc.enable", "gc.set_threshold",
    "signal.signal", "signal.alarm", "signal.setitimer", "multiprocessing.set_start_method", "logging.basicConfig", "logging.disable", "logging.captureWarnings",
    "threading.stack_size", "socket.setdefaulttimeout", "faulthandler.enable", "time.tzset", "matplotlib.use", "matplotlib.rc", "matplotlib.rcParams.update",
    "matplotlib.pyplot.rc", "matplotlib.pyplot.rcParams.update", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "matplotlib.pyplot.switch_backend",
    "matplotlib.style.use", "matplotlib.pyplot.style.use", "scipy.special.seterr", "pandas.set_option", "decimal.setcontext", "atexit.register",
    "scipy.fft.set_global_backend", "scipy.fft.register_backend", "resource.setrlimit", "importlib.reload", "numpy.testing.suppress_warnings", "readline.parse_and_bind",
    "warnings.filters.insert", "warnings.filters.append", "warnings.filters.clear", "sys.stdout.reconfigure", "builtins.setattr", "seaborn.set", "seaborn.set_theme",
    "matplotlib.pyplot.rcdefaults", "matplotlib.rcdefaults", "os.environb.update", "random.setstate", "tempfile.tempdir", "mimetypes.init",
}
HISTORY = {
    "time.time", "time.monotonic", "time.perf_counter", "time.process_time", "time.time_ns", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today",
    "os.getpid", "os.getcwd", "os.getenv", "os.environ.get", "uuid.uuid1", "uuid.uuid4", "tempfile.gettempdir", "numpy.geterr", "numpy.get_printoptions",
    "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "datetime.datetime.today",
}
CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property", "joblib.Memory", "cachetools.cached", "functools.singledispatch"}
CACHE_BAD = {"functools.lru_cache", "functools.cache", "joblib.Memory", "cachetools.cached"}


def own_defs(fn):
    """nodes of a function without nested function bodies"""
    stack = list(fn.body())
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            stack.append(c)


def scopes(an):
    """(module, scope name, statements, function or None) for every function and module body"""
    for m in an.N.p.mods.values():
        yield m, m.name + ".<module>", m.tree.body, None
    for f in an.N.fns.values():
        yield f.mod, f.full, f.body(), f


def walk_scope(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend([d for d in n.args.kw_defaults if d is not None])
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend([z for z in n.body if not isinstance(z, (ast.FunctionDef, ast.AsyncFunctionDef))])
            for z in n.body:
                if isinstance(z, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    stack.extend(z.decorator_list)
                    stack.extend(z.args.defaults)
            continue
        stack.extend(ast.iter_child_nodes(n))


def in_with(n, names, an, mod):
    while hasattr(n, "_parent"):
        n = n._parent
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                c = i.context_expr
                d = an.N.dotted(mod, c.func if isinstance(c, ast.Call) else c)
                if d in names:
                    return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            break
    return False


def within_constructor_use(an, mod, call):
    """the clock is only shown to the user (print, progress): argument of a print call"""
    n = call
    while hasattr(n, "_parent"):
        n = n._parent
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return True
        if isinstance(n, ast.stmt):
            return False
    return False


def c03(project, tier):
    an = analysis(project)
    R = Report()
    R.rule = ("no function or module body rebinds or writes to a module-level object, class attribute, function attribute or default argument; no caching "
              "decorator; no call or assignment that changes process-wide settings outside a restoring context; no read of clock, process or environment; no "
              "module-level mutable object is handed out")
    seen = set()

    def viol(key, where, msg):
        if (key, where) not in seen:
            seen.add((key, where))
            R.viol(key, where, msg)
    for full, f in sorted(an.N.fns.items()):
        R.functions.add(full)
        R.obligations += 1
        R.decided += 1
        S = an.summary(f) if f.outer is None else None
        if S is None:
            continue
        for e in S.effects.values():
            t = e.tok
            if t[0] == "G":
                viol("%s.%s|%s" % (t[1], t[2], e.what), e.fn.loc(e.node), "%s: writes to the module-level object %s.%s, which later calls see" % (e.what, t[1], t[2]))
            elif t[0] == "D":
                viol("%s|%s|default" % (t[1], t[2]), e.fn.loc(e.node), "%s: writes to the default value of parameter %s of %s, shared by all later calls" % (
                    e.what, t[2], t[1]))
            elif t[0] == "K":
                viol("%s.%s|%s" % (t[1], t[2], e.what), e.fn.loc(e.node), "%s: writes to the attribute %s of class %s, shared by all objects" % (e.what, t[2], t[1]))
            elif t[0] == "X" and not getattr(e, "inplace", False):
                if in_with(e.node, {"warnings.catch_warnings"}, an, e.fn.mod) and str(t[1]).startswith("warnings"):
                    continue
                viol("%s|%s" % (t[1], e.what), e.fn.loc(e.node), "%s: changes the process-wide object %s" % (e.what, t[1]))
            elif t[0] == "A":
                for c in closure_attr(an, t):
                    if c[0] in ("D", "G", "K"):
                        viol("%s.%s|%s" % (t[1], t[2], e.what), e.fn.loc(e.node), "%s: attribute %s may be the shared object %s" % (
                            e.what, t[2], ".".join(str(z) for z in c[1:-1])))
        if f.full in an.N.public() or f.cls:
            for t in S.returns:
                if t[0] in ("D",) or (t[0] == "G" and mutable_global(an, t)) or (t[0] == "K" and t[-1] == 0):
                    viol("%s|returns|%s" % (f.full, ".".join(map(str, t[:-1]))), f.loc(), "hands out the shared mutable object %s: changing the result changes later calls" % (
                        ".".join(str(z) for z in t[1:-1])))
    for m in project.mods.values():
        S = an.summ.get(m.name + ".<module>")
        R.obligations += 1
        R.decided += 1
        for e in (S.effects.values() if S else ()):
            t = e.tok
            if t[0] == "X":
                viol("%s|%s" % (t[1], e.what), e.fn.loc(e.node), "%s at import: changes the process-wide object %s" % (e.what, t[1]))
            elif t[0] == "G" and t[1] != m.name:
                viol("%s.%s|%s" % (t[1], t[2], e.what), e.fn.loc(e.node), "%s at import: changes another module's object %s.%s" % (e.what, t[1], t[2]))
    for m, name, body, f in scopes(an):
        for n in walk_scope(body):
            d = None
            if isinstance(n, ast.Call):
                d = an.N.dotted(m, n.func)
                if d in PROCESS and not in_with(n, {"warnings.catch_warnings", "numpy.errstate", "numpy.printoptions"}, an, m):
                    viol("%s|%s" % (name, d), "%s:%d" % (m.rel, n.lineno), "%s() in %s changes a process-wide setting" % (d, name))
                elif d in HISTORY and not within_constructor_use(an, m, n) and f is not None:
                    viol("%s|%s" % (name, d), "%s:%d" % (m.rel, n.lineno), "%s() in %s: the result depends on more than the arguments" % (d, name))
            elif isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, ast.Load):
                d = an.N.dotted(m, n)
                if d == "os.environ" and f is not None:
                    viol("%s|os.environ" % name, "%s:%d" % (m.rel, n.lineno), "os.environ in %s: the result depends on more than the arguments" % name)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for dec in n.decorator_list:
                    dd = an.N.dotted(m, dec.func if isinstance(dec, ast.Call) else dec)
                    if dd in CACHE_BAD:
                        viol("%s.%s|%s" % (name, n.name, dd), "%s:%d" % (m.rel, n.lineno), "%s remembers results of earlier calls of %s" % (dd, n.name))
            if isinstance(n, ast.Call) and d in CACHE_BAD and not isinstance(getattr(n, "_parent", None), ast.FunctionDef):
                viol("%s|%s" % (name, d), "%s:%d" % (m.rel, n.lineno), "%s() remembers results of earlier calls" % d)
            # function attributes used as memory
            if f is not None and isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                dd = an.N.dotted(m, n.value)
                if dd in an.N.fns:
                    viol("%s|%s.%s" % (name, dd, n.attr), "%s:%d" % (m.rel, n.lineno), "attribute %s of function %s is used as memory" % (n.attr, dd))
    R.samples = [{"scope": s[1]} for s in scopes(an)][:200]
    R.extra["syntax_nodes_interpreted"] = an.nodes
    R.extra["module_level_names"] = sum(len(v) for v in an.N.globals.values())
    R.floor = 60
    return R


def mutable_global(an, t):
    if t[-1]:
        return False
    vs = an.N.globals.get(t[1], {}).get(t[2], [])
    return any(v is not None and mutable_literal(v) for v in vs)


# ------------------------------------------------------------------ C02

# public functions that may draw random numbers: Monte Carlo methods and noise
MAY_DRAW = {
    "PyDynamic.uncertainty.propagate_MonteCarlo.MC", "PyDynamic.uncertainty.propagate_MonteCarlo.SMC", "PyDynamic.uncertainty.propagate_MonteCarlo.UMC",
    "PyDynamic.uncertainty.propagate_MonteCarlo.UMC_generic", "PyDynamic.uncertainty.propagate_MonteCarlo.Normal_ZeroCorr.rvs",
    "PyDynamic.uncertainty.propagate_MonteCarlo.Normal_ZeroCorr.__init__",
    "PyDynamic.model_estimation.fit_transfer.fit_som", "PyDynamic.identification.fit_transfer.fit_sos", "PyDynamic.model_estimation.fit_filter.invLSFIR_unc",
    "PyDynamic.model_estimation.fit_filter.invLSFIR_uncMC", "PyDynamic.model_estimation.fit_filter.invLSIIR_unc", "PyDynamic.deconvolution.fit_filter.LSFIR_unc",
    "PyDynamic.deconvolution.fit_filter.LSFIR_uncMC", "PyDynamic.deconvolution.fit_filter.LSIIR_unc", "PyDynamic.misc.SecondOrderSystem.sos_absphase",
    "PyDynamic.misc.SecondOrderSystem.sos_realimag", "PyDynamic.misc.tools.FreqResp2RealImag", "PyDynamic.misc.noise.white_gaussian",
    "PyDynamic.misc.noise.power_law_noise", "PyDynamic.misc.noise.ARMA", "PyDynamic.misc.testsignals.shocklikeGaussian", "PyDynamic.misc.testsignals.GaussianPulse",
    "PyDynamic.misc.testsignals.rect", "PyDynamic.misc.testsignals.squarepulse", "PyDynamic.misc.testsignals.sine", "PyDynamic.misc.testsignals.multi_sine",
    "PyDynamic.misc.testsignals.corr_noise.__init__", "PyDynamic.misc.testsignals.corr_noise.calc_noise", "PyDynamic.misc.testsignals.corr_noise.calc_noise2",
    "PyDynamic.misc.testsignals.corr_noise.calc_autocorr", "PyDynamic.misc.testsignals.corr_noise.calc_psd", "PyDynamic.misc.testsignals.corr_noise.calc_cov",
    "PyDynamic.signals.Signal.apply_filter",
}
STATE = {"seed", "set_state", "set_bit_generator"}
FOREIGN = {"secrets", "uuid"}
FOREIGN_FN = {"os.urandom", "os.getrandom", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.SFC64",
              "numpy.random.Philox", "numpy.random.SeedSequence", "numpy.random.PCG64DXSM", "random.SystemRandom", "random.Random", "scipy.stats.qmc.Sobol",
              "scipy.stats.qmc.Halton", "scipy.stats.qmc.LatinHypercube", "uuid.uuid4", "uuid.uuid1", "secrets.token_bytes", "numpy.random.mtrand.RandomState"}
GEN_METHODS = {"rand", "randn", "normal", "uniform", "standard_normal", "multivariate_normal", "random", "random_sample", "choice", "shuffle", "permutation", "integers",
               "randint", "rvs", "exponential", "laplace", "gamma", "poisson", "binomial", "standard_t", "triangular", "gauss", "sample", "seed", "ranf", "lognormal",
               "beta", "chisquare", "rayleigh", "vonmises", "bytes", "random_integers"}


def seed_value_ok(an, f, n):
    """RandomState(seed) where the seed is the constructor's own parameter"""
    if f is None or not f.cls:
        return False
    a = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
    if a is None:
        return False
    names = {z.id for z in ast.walk(a) if isinstance(z, ast.Name)}
    attrs = {z.attr for z in ast.walk(a) if isinstance(z, ast.Attribute)}
    return bool(names & set(f.params()) - {"self"}) or "seed" in attrs


def restores(an, mod, n):
    return False


def c02(project, tier):
    an = analysis(project)
    N = an.N
    R = Report()
    R.rule = ("every call site that produces random numbers resolves to a draw from numpy.random's global generator, or to a method of a generator the object made from its "
              "own seed argument; no call site seeds, replaces or restores a generator; draws are reachable in the call graph only from Monte Carlo and noise functions")
    draws = {}      # function -> [(where, what)]
    calls = {}      # call graph
    for m, name, body, f in scopes(an):
        for n in walk_scope(body):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [N.p.resolve_from(m, n) or ""]
                for z in mods:
                    if z.split(".")[0] in ("random", "secrets") and z.split(".")[0] not in N.p.mods:
                        pass      # the import alone draws nothing; its uses are judged below
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and not (isinstance(getattr(n, "_parent", None), ast.Attribute)):
                d = N.dotted(m, n)
                if d is None:
                    continue
                where = "%s:%d" % (m.rel, n.lineno)
                if d in N.fns or d in N.classes:
                    calls.setdefault(name, set()).add(d)
                p = d.split(".")
                par = getattr(n, "_parent", None)
                call = par if isinstance(par, ast.Call) and par.func is n else None
                R.obligations += 1
                R.decided += 1
                if d.startswith("numpy.random."):
                    tail = p[2]
                    if tail in ("RandomState",):
                        if call is None and isinstance(par, (ast.arguments, ast.arg, ast.AnnAssign)) or isinstance(par, ast.Call) and getattr(par.func, "id", "") == "isinstance":
                            continue
                        if call is not None and seed_value_ok(an, f, call):
                            continue
                        R.viol("%s|%s" % (name, d), where, "%s in %s: random numbers come from another generator than numpy's global one" % (d, name))
                    elif tail in STATE:
                        R.viol("%s|%s" % (name, d), where, "%s in %s changes the state of numpy's global generator" % (d, name))
                    elif tail == "get_state":
                        continue
                    elif d in FOREIGN_FN or tail[:1].isupper():
                        R.viol("%s|%s" % (name, d), where, "%s in %s: random numbers come from another generator than numpy's global one" % (d, name))
                    elif tail == "mtrand" and len(p) > 3 and p[3] == "_rand":
                        draws.setdefault(name, []).append((where, d))
                    else:
                        draws.setdefault(name, []).append((where, d))
                elif p[0] in ("random", "secrets") and len(p) > 1:
                    R.viol("%s|%s" % (name, d), where, "%s in %s: random numbers do not come from numpy's global generator" % (d, name))
                elif d in FOREIGN_FN:
                    R.viol("%s|%s" % (name, d), where, "%s in %s: entropy from outside numpy's global generator" % (d, name))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg in ("random_state", "seed", "rng") and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        d = N.dotted(m, n.func) or (ast.unparse(n.func))
                        if d in N.fns or d in N.classes or d.startswith(N.p_pkg()) or (isinstance(n.func, ast.Name) and n.func.id in m.defs):
                            continue
                        if isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name) and k.value.value.id == "self":
                            continue
                        if f is not None and isinstance(k.value, ast.Name) and k.value.id == "seed" and "seed" in f.params():
                            continue
                        dd = N.dotted(m, k.value) or ""
                        if dd in ("numpy.random", "numpy.random.mtrand._rand"):
                            continue
                        R.viol("%s|%s|%s" % (name, d, k.arg), "%s:%d" % (m.rel, n.lineno), "%s(%s=%s) in %s draws from another generator than numpy's global one" % (
                            d, k.arg, ast.unparse(k.value), name))
                if isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
                    d = N.dotted(m, n.func)
                    if d is None or d.startswith("scipy.stats"):
                        draws.setdefault(name, []).append(("%s:%d" % (m.rel, n.lineno), "rvs"))
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f is not None and f.cls:
                    g = N.method(f.cls, n.func.attr)
                    if g is not None:
                        calls.setdefault(name, set()).add(g.full)
                if isinstance(n.func, ast.Attribute) and n.func.attr in GEN_METHODS and isinstance(n.func.value, ast.Attribute) and N.dotted(m, n.func) is None:
                    # a generator kept by the object
                    draws.setdefault(name, []).append(("%s:%d" % (m.rel, n.lineno), ast.unparse(n.func)))
                    if n.func.attr == "seed" and f is not None and f.name != "__init__":
                        R.viol("%s|reseed" % name, "%s:%d" % (m.rel, n.lineno), "%s reseeds a generator" % ast.unparse(n))
    # nested functions belong to their owner
    for full, f in N.fns.items():
        if f.outer is not None:
            calls.setdefault(f.outer.full, set()).add(full)
    for m in N.p.mods:
        if m + ".<module>" in draws:
            R.viol(m + ".<module>|draw", draws[m + ".<module>"][0][0], "random numbers are drawn at import")
    for c in N.classes:
        for z in list(calls):
            if c in calls[z]:
                g = N.method(c, "__init__")
                if g is not None:
                    calls[z].add(g.full)
    for full, f in sorted(N.public().items()):
        R.obligations += 1
        R.decided += 1
        R.functions.add(full)
        if full in MAY_DRAW:
            continue
        if full.endswith(".ua") or full not in N.fns:
            continue
        path = reach(full, calls, draws)
        if path:
            where, what = draws[path[-1]][0]
            R.viol("%s|draws" % full, where, "closed-form function %s draws random numbers: %s (%s)" % (full, what, " -> ".join(path)))
    R.samples = [{"function": k, "draws": ["%s %s" % z for z in v]} for k, v in sorted(draws.items())]
    R.extra["draw_sites"] = sum(len(v) for v in draws.values())
    R.extra["call_edges"] = sum(len(v) for v in calls.values())
    R.floor = 60
    if not draws:
        raise AnchorMissing("no random draw found anywhere in the package")
    return R


def reach(start, calls, targets):
    prev = {start: None}
    todo = [start]
    while todo:
        x = todo.pop(0)
        if x in targets:
            path = [x]
            while prev[x] is not None:
                x = prev[x]
                path.append(x)
            return path[::-1]
        for y in sorted(calls.get(x, ())):
            if y not in prev:
                prev[y] = x
                todo.append(y)
    return None
