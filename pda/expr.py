"""Normal forms for value numbers.

An ``Expr`` is a polynomial (with rational coefficients) over interned atoms.
Atoms are input-array elements in index notation, symbolic dimensions and index variables,
sums over index ranges, and (interpreted or opaque) functions of such expressions.  Two
program values with the same ``Expr`` compute the same function of the inputs.
"""
from fractions import Fraction
import math

ZEROM = ()


class Undecided(Exception):
    """The abstract domain cannot represent / decide this."""


class NeedSplit(Exception):
    """A region condition on an index variable is not constant on its range."""

    def __init__(self, var, point, width=0):
        self.var = var          # Atom
        self.point = point      # Expr: split into [lo,p) and [p,hi) (width 0), or lo..p, p, p+1..hi
        self.width = width


class Atom:
    __slots__ = ("id", "kind", "args", "real", "sign", "integer", "unit", "deps", "tok", "_s", "flags")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_byid = []


def reset():
    pass


def _intern(kind, args, **meta):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_byid)
        a.kind = kind
        a.args = args
        a.real = meta.get("real", True)
        a.sign = meta.get("sign", 0)
        a.integer = meta.get("integer", False)
        a.unit = meta.get("unit", "none")
        a.tok = meta.get("tok")
        a.deps = meta.get("deps", frozenset())
        a.flags = meta.get("flags", frozenset())
        a._s = None
        _byid.append(a)
        _atoms[key] = a
    return a


class Expr:
    __slots__ = ("t", "_h", "_deps")

    def __init__(self, terms):
        self.t = terms  # dict mono -> Fraction/int ; mono = tuple of (atomid, exp)
        self._h = None
        self._deps = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Expr) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise TypeError("truth value of Expr")

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), -1))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, -1))

    def __pow__(self, n):
        return power(self, n)

    # queries ----------------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and ZEROM in self.t)

    def cval(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and ZEROM in self.t:
            return Fraction(self.t[ZEROM])
        return None

    def is_zero_form(self):
        return not self.t

    @property
    def deps(self):
        """free index-variable atoms"""
        if self._deps is None:
            s = set()
            for m in self.t:
                for aid, _ in m:
                    s |= _byid[aid].deps
            self._deps = frozenset(s)
        return self._deps

    def __repr__(self):
        return show(self)


MAXTERMS = 20000


def const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return Expr({ZEROM: c})


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return fconst(x)
    raise TypeError("cannot lift %r" % (x,))


def fconst(x):
    if math.isnan(x):
        return atom_expr(NAN)
    if math.isinf(x):
        return atom_expr(INF) if x > 0 else -atom_expr(INF)
    return const(Fraction(repr(x)))


def atom_expr(a, e=1):
    return Expr({((a.id, e),): Fraction(1)})


ZERO = Expr({})
ONE = Expr({ZEROM: Fraction(1)})


def sym(name, integer=False, sign=0, real=True, unit="none", idx=False, flags=()):
    a = _intern("sym", (name,), integer=integer, sign=sign, real=real, unit=unit, flags=frozenset(flags))
    if idx and not a.deps:
        a.deps = frozenset([a])
    return a


NAN = sym("nan", flags=("nan",))
INF = sym("inf", flags=("inf",), sign=2)
PI = sym("pi", sign=2)
I = sym("1j", real=False)
EI = atom_expr(I)
EPI = atom_expr(PI)

SPECIAL_FN = {"sqrt", "abs", "inv", "expi", "pos", "eq0", "ge", "ind", "isnan", "sign", "iverson"}
IDEMP = {"pos", "eq0", "ge", "ind"}


def _special(aid, e):
    a = _byid[aid]
    if a is I:
        return e < 0 or e > 1
    if a.kind == "fn":
        n = a.args[0]
        if n == "sqrt":
            return e != 1
        if n == "abs":
            return e >= 2 or e < 0 and e <= -2
        if n == "inv":
            return e < 0 or bool(a.flags)
        if n in IDEMP:
            return e != 1
        if n == "expi":
            return "pi" in a.flags
        if n == "sign":
            return e >= 2
    if "flt" in a.flags:
        return e < 0 or e != 1
    return False


def mono_mul(m1, m2):
    """product of two monomials -> (mono, None) or Expr if reducible"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    touched = False
    for a, e in m2:
        if a in d:
            v = d[a] + e
            if v == 0:
                del d[a]
            else:
                d[a] = v
        else:
            d[a] = e
    m = tuple(sorted(d.items()))
    for a, e in m:
        if _special(a, e):
            touched = True
            break
    return m, touched


def reduce_mono(m):
    """rewrite reducible powers; returns Expr"""
    rest = []
    out = ONE
    for aid, e in m:
        a = _byid[aid]
        if _special(aid, e):
            out = mul(out, special_pow(a, e))
        else:
            rest.append((aid, e))
    base = Expr({tuple(rest): Fraction(1)})
    if out is ONE:
        return base
    # out is already reduced; multiply carefully (may combine again)
    return mul(base, out)


def special_pow(a, e):
    if a is I:
        k = int(e) % 4
        return (ONE, EI, const(-1), -EI)[k]
    n = a.args[0] if a.kind == "fn" else None
    if n == "sqrt":
        e = Fraction(e)
        if e.denominator != 1:
            raise Undecided("fractional power of sqrt")
        e = int(e)
        q, r = divmod(e, 2)
        p = power(a.args[1], q)
        return mul(p, atom_expr(a)) if r else p
    if n == "abs":
        e = int(e)
        q, r = (abs(e) // 2, abs(e) % 2)
        s = 1 if e > 0 else -1
        p = power(a.args[1], 2 * q * s)
        return mul(p, atom_expr(a, s)) if r else p
    if n == "inv":
        if e < 0:
            return power(a.args[1], int(-e))
        if a.flags:  # dims-only inverse: reduce nothing by itself
            return Expr({((a.id, e),): Fraction(1)})
    if n in IDEMP:
        return atom_expr(a)
    if n == "sign":
        e = int(e)
        return atom_expr(a) if e % 2 else power(atom_expr(a), 0)
    if n == "expi":
        return mk_expi_pow(a, e)
    return Expr({((a.id, e),): Fraction(1)})


def _has_dimsinv(m):
    for aid, e in m:
        a = _byid[aid]
        if a.kind == "fn" and a.args[0] == "inv" and a.flags:
            return True
    return False


def mul(x, y):
    if not x.t or not y.t:
        return ZERO
    if len(x.t) == 1 and ZEROM in x.t:
        c = x.t[ZEROM]
        if c == 1:
            return y
        return Expr({m: c * v for m, v in y.t.items()})
    if len(y.t) == 1 and ZEROM in y.t:
        c = y.t[ZEROM]
        if c == 1:
            return x
        return Expr({m: c * v for m, v in x.t.items()})
    if len(x.t) * len(y.t) > 400000:
        raise Undecided("expression too large")
    r = {}
    extra = None
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m, red = mono_mul(m1, m2)
            c = c1 * c2
            if red:
                if not _only_harmless(m):
                    e = reduce_mono2(m)
                    e = Expr({k: v * c for k, v in e.t.items()})
                    extra = e if extra is None else extra + e
                    continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    res = Expr(r)
    if extra is not None:
        res = res + extra
    if len(res.t) > MAXTERMS:
        raise Undecided("expression too large")
    return res


def _only_harmless(m):
    return False


def reduce_mono2(m):
    """One reduction step loop: apply special powers, then dims-inverse elimination."""
    for aid, e in m:
        a = _byid[aid]
        if _special(aid, e):
            if a.kind == "fn" and a.args[0] == "inv" and e > 0:
                continue
            s = special_pow(a, e)
            if s.t == {((aid, e),): Fraction(1)}:
                continue
            rest = tuple((b, f) for b, f in m if b != aid)
            return mul(Expr({rest: Fraction(1)}), s)
    # dims-only inverse: eliminate leading monomial
    for aid, e in m:
        a = _byid[aid]
        if a.kind == "fn" and a.args[0] == "inv" and a.flags and e > 0:
            p = a.args[1]
            lm = leading(p)
            d = dict(m)
            if lm and all(d.get(b, 0) >= f for b, f in lm):
                # m = lm * inv^e * rest -> inv^(e-1)*rest*(1 - (p-lm) inv)
                for b, f in lm:
                    d[b] -= f
                    if d[b] == 0:
                        del d[b]
                d[aid] -= 1
                if d[aid] == 0:
                    del d[aid]
                rest = Expr({tuple(sorted(d.items())): Fraction(1)})
                tail = Expr({k: v for k, v in p.t.items() if k != lm})
                return mul(rest, ONE - mul(tail, atom_expr(a)))
    return Expr({m: Fraction(1)})


def leading(p):
    """leading monomial: highest total degree then ids"""
    return max(p.t, key=lambda m: (sum(e for _, e in m), m))


def content(e):
    """e = c * m * p with p primitive & leading coeff 1 (c rational, m mono)"""
    ms = list(e.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d and ((d[a] > 0) == (common[a] > 0)):
                common[a] = min(common[a], d[a]) if d[a] > 0 else max(common[a], d[a])
            else:
                # negative exponents: factor out anyway
                del common[a]
    # also clear negative exponents
    neg = {}
    for m in ms:
        for a, x in m:
            if x < 0:
                neg[a] = min(neg.get(a, 0), x)
    for a, x in neg.items():
        common[a] = x
    cm = tuple(sorted(common.items()))
    if cm:
        inv = tuple((a, -x) for a, x in cm)
        t = {}
        for m, c in e.t.items():
            d = dict(m)
            for a, x in inv:
                v = d.get(a, 0) + x
                if v == 0:
                    d.pop(a, None)
                else:
                    d[a] = v
            t[tuple(sorted(d.items()))] = c
        p = Expr(t)
    else:
        p = e
    lc = p.t[leading(p)]
    if lc != 1:
        p = Expr({m: c / lc for m, c in p.t.items()})
    return lc, cm, p


def power(e, n):
    if isinstance(n, Expr):
        c = n.cval()
        if c is None:
            if e.cval() == 1:
                return ONE
            return fn("pow", e, n)
        n = c
    n = Fraction(n)
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if n == 1:
            return e
        if not e.t:
            if n > 0:
                return ZERO
            return atom_expr(INF)
        if len(e.t) == 1:
            (m, c), = e.t.items()
            mm = tuple((a, x * n) for a, x in m)
            cc = Fraction(c) ** n
            if any(_special(a, x) for a, x in mm):
                r = ONE
                for a, x in mm:
                    r = mul(r, special_pow(_byid[a], x) if _special(a, x) else Expr({((a, x),): Fraction(1)}))
                return mul(const(cc), r)
            return Expr({mm: cc})
        if n > 0:
            if n > 16:
                return fn("pow", e, const(n))
            r = e
            for _ in range(n - 1):
                r = mul(r, e)
            return r
        # negative power of a sum
        c, m, p = content(e)
        if len(p.t) == 1:
            return power(mul(const(c), Expr({m: Fraction(1)})), n)
        # rationalise complex denominators: 1/z = conj(z)/(z conj z)
        if _has_I(p):
            z = conj(p)
            q = mul(p, z)
            return mul(power(mul(const(c), Expr({m: Fraction(1)})), n), mul(power(z, -n), power(q, n)))
        dims = all(_byid[a].kind == "sym" and _byid[a].integer for mm in p.t for a, _ in mm)
        a = _intern("fn", ("inv", p), real=is_real(p), sign=(2 if sign_of(p) >= 1 else 0), deps=p.deps,
                    flags=frozenset(["dims"]) if dims else frozenset())
        inv = atom_expr(a, -n)
        return mul(power(mul(const(c), Expr({m: Fraction(1)})) if (c != 1 or m) else ONE, n), inv)
    if n.denominator == 2:
        return power(sqrt(e), n.numerator)
    return fn("pow", e, const(n))


def _has_I(p):
    for m in p.t:
        for a, _ in m:
            if a == I.id:
                return True
    return False


def is_real(e):
    return all(_byid[a].real for m in e.t for a, _ in m)


def is_integer(e):
    return all(Fraction(c).denominator == 1 and all(_byid[a].integer and x > 0 for a, x in m) for m, c in e.t.items())


def sign_of(e):
    """2 positive, 1 nonnegative, 0 unknown"""
    if not e.t:
        return 1
    res = 1
    for m, c in e.t.items():
        if c < 0:
            return 0
        s = 2
        for a, x in m:
            at = _byid[a]
            if at.sign == 2:
                continue
            if x % 2 == 0 and at.real:
                s = min(s, 1)
            elif at.sign == 1:
                s = min(s, 1)
            else:
                return 0
        if s == 2:
            res = 2
    return res


def sqrt(e):
    c = e.cval()
    if c is not None:
        if c < 0:
            return mul(EI, sqrt(const(-c)))
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
        # sqrt(n/d) = sqrt(n*d)/d ; pull squares
        k = n * d
        out = 1
        f = 2
        while f * f <= k and f < 2000:
            while k % (f * f) == 0:
                k //= f * f
                out *= f
            f += 1
        a = _intern("fn", ("sqrt", const(k)), sign=2)
        return mul(const(Fraction(out, d)), atom_expr(a))
    lc, m, p = content(e)
    neg = lc < 0
    if neg:
        lc = -lc
        p = -p
    out = sqrt(const(lc))
    inner = []
    for aid, x in m:
        a = _byid[aid]
        if not a.real:
            inner.append((aid, x))
            continue
        x = Fraction(x)
        if a.kind == "fn" and a.args[0] == "expi":
            inner.append((aid, x))
            continue
        h = x / 2
        if a.sign >= 1:
            if h.denominator == 1:
                out = mul(out, power(atom_expr(a), int(h)))
            else:
                fl = math.floor(h)
                if fl:
                    out = mul(out, power(atom_expr(a), fl))
                s = _intern("fn", ("sqrt", atom_expr(a)), sign=a.sign, deps=a.deps)
                out = mul(out, atom_expr(s))
        elif x.denominator == 1 and x % 2 == 0:
            out = mul(out, power(absval(atom_expr(a)), int(h)))
        elif x.denominator == 1 and abs(x) >= 2:
            fl = int((abs(x) // 2) * (1 if x > 0 else -1))
            out = mul(out, power(absval(atom_expr(a)), fl))
            inner.append((aid, x - 2 * fl))
        else:
            inner.append((aid, x))
    rest = mul(Expr({tuple(inner): Fraction(1)}), p)
    if rest.cval() is not None:
        r = sqrt(rest) if rest.cval() >= 0 else mul(EI, sqrt(-rest))
        return mul(out, r)
    a = _intern("fn", ("sqrt", rest), real=is_real(rest), sign=1, deps=rest.deps)
    return mul(out, atom_expr(a))


def absval(e):
    c = e.cval()
    if c is not None:
        return const(abs(c))
    if not is_real(e):
        return sqrt(mul(e, conj(e)))
    if sign_of(e) >= 1:
        return e
    if sign_of(-e) >= 1:
        return -e
    lc, m, p = content(e)
    out = const(abs(lc))
    inner = []
    for aid, x in m:
        a = _byid[aid]
        if a.sign >= 1 or x % 2 == 0:
            out = mul(out, Expr({((aid, x),): Fraction(1)}))
        elif x.denominator == 1 if isinstance(x, Fraction) else True:
            b = _intern("fn", ("abs", atom_expr(a)), sign=1, deps=a.deps)
            out = mul(out, power(atom_expr(b), int(x)))
        else:
            inner.append((aid, x))
    rest = mul(Expr({tuple(inner): Fraction(1)}), p)
    if rest == ONE:
        return out
    if sign_of(rest) >= 1:
        return mul(out, rest)
    b = _intern("fn", ("abs", rest), sign=1, deps=rest.deps)
    return mul(out, atom_expr(b))


def conj(e):
    if is_real(e):
        return e
    r = ZERO
    for m, c in e.t.items():
        f = const(c)
        for aid, x in m:
            a = _byid[aid]
            if a.real:
                f = mul(f, Expr({((aid, x),): Fraction(1)}))
            elif a is I:
                f = mul(f, power(-EI, x))
            elif a.kind == "fn" and a.args[0] == "expi":
                f = mul(f, expi(mul(a.args[1], const(-Fraction(x)))))
            else:
                f = mul(f, power_any(conj_atom(a), x))
        r = r + f
    return r


def power_any(e, x):
    x = Fraction(x)
    if x.denominator == 1:
        return power(e, int(x))
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1:
            out = ONE
            for a, y in m:
                z = y * x
                at = _byid[a]
                out = mul(out, special_pow(at, z) if _special(a, z) else Expr({((a, z),): Fraction(1)}))
            return out
    raise Undecided("fractional power")


def conj_atom(a):
    if a.kind == "fn":
        n = a.args[0]
        if n == "expi":
            return Expr({((a.id, -1),): Fraction(1)}) if "pi" not in a.flags else mk_expi_pow(a, -1)
        if n == "conj":
            return a.args[1]
        if n == "inv":
            return power(conj(a.args[1]), -1)
        if n == "sqrt":
            return sqrt(conj(a.args[1]))
        if n == "exp":
            return exp(conj(a.args[1]))
        b = _intern("fn", ("conj", atom_expr(a)), real=False, deps=a.deps)
        return atom_expr(b)
    if a.kind == "sum":
        lims, body = a.args
        return mk_sum_atom(lims, conj(body), bound(a))
    b = _intern("fn", ("conj", atom_expr(a)), real=False, deps=a.deps)
    return atom_expr(b)


def real(e):
    if is_real(e):
        return e
    return mul(e + conj(e), const(Fraction(1, 2)))


def imag(e):
    if is_real(e):
        return ZERO
    return mul(mul(e - conj(e), const(Fraction(1, 2))), -EI)


# exponentials -------------------------------------------------------------

def _expi_atom(mono_expr):
    (m, c), = mono_expr.t.items()
    ids = dict(m)
    flags = set()
    if ids.get(PI.id) == 1 and all(a == PI.id or (_byid[a].integer and x > 0) for a, x in m):
        flags.add("pi")
    return _intern("fn", ("expi", mono_expr), real=False, deps=mono_expr.deps, flags=frozenset(flags))


def mk_expi_pow(a, c):
    """exp(i * arg * c) for pi-flagged arg (pi * integer)"""
    c = Fraction(c) % 2
    if c == 0:
        return ONE
    arg = a.args[1]
    if arg == EPI:
        if c == 1:
            return const(-1)
        if c == Fraction(1, 2):
            return EI
        if c == Fraction(3, 2):
            return -EI
    return Expr({((a.id, c),): Fraction(1)})


def expi(theta):
    """exp(i*theta), theta real polynomial"""
    out = ONE
    for m, c in theta.t.items():
        # even powers of integer atoms etc. ignored
        me = Expr({m: Fraction(1)})
        if not m:
            a = _intern("fn", ("expi", ONE), real=False)
            out = mul(out, Expr({((a.id, c),): Fraction(1)}))
            continue
        a = _expi_atom(me)
        if a.kind == "fn" and "pi" in a.flags:
            out = mul(out, mk_expi_pow(a, c))
        else:
            out = mul(out, Expr({((a.id, Fraction(c)),): Fraction(1)}))
    return out


def exp(z):
    """complex/real exponential"""
    if z.cval() == 0:
        return ONE
    if not is_real(z):
        re_, im_ = real(z), imag(z)
        if all(_byid[a].real for m in im_.t for a, _ in m):
            return mul(exp(re_) if re_.t else ONE, expi(im_))
        return fn("exp", z)
    out = ONE
    for m, c in z.t.items():
        me = Expr({m: Fraction(1)})
        a = _intern("fn", ("exp", me), sign=2, deps=me.deps)
        out = mul(out, Expr({((a.id, Fraction(c)),): Fraction(1)}))
    return out


def cos(t):
    if not is_real(t):
        return fn("cos", t)
    e = expi(t)
    return mul(e + conj(e), const(Fraction(1, 2)))


def sin(t):
    if not is_real(t):
        return fn("sin", t)
    e = expi(t)
    return mul(mul(e - conj(e), const(Fraction(1, 2))), -EI)


def atan2(y, x):
    if y.cval() == 0 and sign_of(x) == 2:
        return ZERO
    # arg is invariant under positive scaling: normalise jointly by common positive content
    if y.t and x.t:
        both = Expr({**{}})
        # common positive rational factor
        c = abs(next(iter(x.t.values())))
        y2, x2 = mul(y, const(1 / Fraction(c))), mul(x, const(1 / Fraction(c)))
        # common positive atoms
        ys = dict_common_pos([y2, x2])
        if ys:
            inv = Expr({tuple((a, -e) for a, e in ys): Fraction(1)})
            y2, x2 = mul(y2, inv), mul(x2, inv)
        y, x = y2, x2
    if real_pair_polar(y, x) is not None:
        pass
    return fn("atan2", y, x)


def real_pair_polar(y, x):
    return None


def dict_common_pos(es):
    common = None
    for e in es:
        for m in e.t:
            d = {a: x for a, x in m if _byid[a].sign == 2}
            if common is None:
                common = d
            else:
                common = {a: (min(common[a], d[a])) for a in common if a in d}
    return tuple(sorted((common or {}).items()))


REALFN = {"log", "atan2", "floor", "ceil", "round", "sign", "pos", "eq0", "ge", "ind", "min", "max", "mod",
          "pow", "tan", "isnan", "log10", "arccos", "arcsin", "arctan", "sinh", "cosh", "tanh", "abs"}
NONNEG = {"pos", "eq0", "ge", "ind", "isnan"}
INTFN = {"floor", "ceil", "sign", "pos", "eq0", "ge", "ind", "round", "isnan"}


def fn(name, *args, **meta):
    deps = frozenset().union(*[a.deps for a in args if isinstance(a, Expr)]) if args else frozenset()
    m = dict(real=(name in NONNEG or all(is_real(a) for a in args if isinstance(a, Expr))) and name not in ("conj",),
             sign=1 if name in NONNEG else 0, integer=name in INTFN, deps=deps)
    if name == "pow" and isinstance(args[0], Expr) and sign_of(args[0]) == 2:
        m["sign"] = 2
    m.update(meta)
    a = _intern("fn", (name,) + args, **m)
    return atom_expr(a)


def single_atom(e):
    if len(e.t) != 1:
        return None
    (m, c), = e.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    return byid(m[0][0])


# array tokens & elements ----------------------------------------------------

class Token:
    """identity of a symbolic array (input or result of an opaque operation)"""
    _n = 0

    def __init__(self, name, sym=None, real=True, sign=0, integer=False, unit=None, opaque=None, key=None, rand=False,
                 unitfn=None):
        self.name = name
        self.sym = sym or ()      # pairs of symmetric axes
        self.real = real
        self.sign = sign
        self.integer = integer
        self.unit = unit          # dict or None(unknown)
        self.opaque = opaque      # op name if result of an uninterpreted operation
        self.key = key
        self.rand = rand
        self.unitfn = unitfn
        Token._n += 1
        self.n = Token._n

    def __repr__(self):
        return self.name


_tokens = {}


def opaque_token(op, key, **meta):
    k = (op, key)
    t = _tokens.get(k)
    if t is None:
        t = Token("%s#%d" % (op, len(_tokens)), opaque=op, key=key, **meta)
        _tokens[k] = t
    return t


def elem(tok, *idx):
    idx = tuple(lift(i) for i in idx)
    for (a, b) in tok.sym:
        if _ekey(idx[b]) < _ekey(idx[a]):
            l = list(idx)
            l[a], l[b] = l[b], l[a]
            idx = tuple(l)
    deps = frozenset().union(*[i.deps for i in idx]) if idx else frozenset()
    unit = tok.unit
    if tok.unitfn is not None:
        unit = tok.unitfn(idx)
    sg = tok.sign
    if tok.sym and sg == 0 and "cov" in tok.name and all(idx[a] == idx[b] for a, b in tok.sym):
        sg = 1
    a = _intern("elem", (tok,) + idx, real=tok.real, sign=sg, integer=tok.integer, unit=unit, deps=deps, tok=tok)
    return atom_expr(a)


def _ekey(e):
    return tuple(sorted((m, c) for m, c in e.t.items()))


# sums ------------------------------------------------------------------------
NBV = 6
_BVL = {}
_lvl = {}


def bvs(level):
    """bound variables of sums at a nesting level (a sum inside the body of another one is one level below)"""
    r = _BVL.get(level)
    if r is None:
        r = _BVL[level] = [sym("_b%d" % (level * NBV + i), integer=True, idx=True) for i in range(NBV)]
    return r


def atom_level(a):
    """nesting depth of sums in an atom"""
    r = _lvl.get(a.id)
    if r is None:
        r = 0
        stack = list(a.args)
        while stack:
            z = stack.pop()
            if isinstance(z, Expr):
                r = max(r, level(z))
            elif isinstance(z, tuple):
                stack.extend(z)
        if a.kind in ("sum", "trisum"):
            r += 1
        _lvl[a.id] = r
    return r


def level(e):
    r = 0
    for m in e.t:
        for aid, _ in m:
            r = max(r, atom_level(_byid[aid]))
    return r


def bound(a):
    """bound variables of a sum atom"""
    return bvs(atom_level(a) - 1)


def sum_over(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body  (v an index atom, body an Expr possibly containing v)"""
    n = hi - lo
    c = n.cval()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 4:
            r = ZERO
            for k in range(int(c)):
                r = r + subst(body, {v: lo + k})
            return r
    if v not in body.deps:
        # v may still occur as an integer symbol factor only if in deps -> not present
        return mul(body, n)
    out = ZERO
    for m, cf in body.t.items():
        fac, inn = [], []
        for aid, x in m:
            (inn if v in _byid[aid].deps else fac).append((aid, x))
        factor = Expr({tuple(fac): Fraction(cf)})
        if not inn:
            out = out + mul(factor, n)
            continue
        inner = Expr({tuple(inn): Fraction(1)})
        # polynomial in v only -> Faulhaber (degree<=2)
        if len(inn) == 1 and _byid[inn[0][0]] is v and inn[0][1] in (1, 2):
            def F(x, d):
                if d == 1:
                    return mul(mul(x, x - 1), const(Fraction(1, 2)))
                return mul(mul(mul(x, x - 1), 2 * x - 1), const(Fraction(1, 6)))
            d = inn[0][1]
            out = out + mul(factor, F(hi, d) - F(lo, d))
            continue
        out = out + mul(factor, mono_sum(v, lo, hi, inner))
    return out


def _const_part(e, keep):
    """e minus terms in `keep` var"""
    return e


def mono_sum(v, lo, hi, inner):
    """inner: single monomial Expr coefficient 1, every atom depends on v"""
    (m, _), = inner.t.items()
    # separate existing sum atoms: flatten
    lims = []
    bodies = []
    used = 0
    flat = []
    for aid, x in m:
        a = _byid[aid]
        if a.kind == "sum" and x == 1:
            flat.append(a)
        elif a.kind == "sum" and x > 1 and isinstance(x, int):
            flat.extend([a] * x)
        else:
            bodies.append((aid, x))
    body = Expr({tuple(bodies): Fraction(1)})
    allv = [(v, lo, hi)]
    for a in flat:
        l2, b2 = a.args
        ren = {}
        B = bound(a)
        for k, L in enumerate(l2):
            nv = fresh_idx("s")
            ren[B[k]] = atom_expr(nv)
            allv.append((nv, ZERO, L))
        body = mul(body, subst(b2, ren))
    # limits depending on v cannot be flattened into a box
    for nv, l, h in allv[1:]:
        if v in h.deps or v in l.deps:
            return _triangular(v, lo, hi, inner)
    return box_sum(allv, body)


def _triangular(v, lo, hi, inner):
    a_ = fn_sum_tri(v, lo, hi, inner)
    return a_


def fn_sum_tri(v, lo, hi, inner):
    b = bvs(max(level(inner), level(lo), level(hi)))[5]
    body = subst(inner, {v: atom_expr(b)})
    deps = (body.deps - {b}) | lo.deps | hi.deps
    a = _intern("trisum", (lo, hi, body), real=is_real(body), deps=deps)
    return atom_expr(a)


_fresh = [0]


def fresh_idx(p="v"):
    _fresh[0] += 1
    return sym("%s_%d" % (p, _fresh[0]), integer=True, idx=True)


def _lin_coeff(e, v):
    """coefficient of v if e is affine in v with constant coefficient else None"""
    c = Fraction(0)
    for m, k in e.t.items():
        for aid, x in m:
            a = _byid[aid]
            if a is v:
                if len(m) == 1 and x == 1:
                    c = Fraction(k)
                else:
                    return None
            elif v in a.deps:
                return None
    return c


def box_sum(allv, body):
    """allv: list of (var, lo, hi); body Expr (may be several terms after substitution)"""
    if len(body.t) != 1 or next(iter(body.t.values())) != 1:
        out = ZERO
        for m, c in body.t.items():
            out = out + mul(const(c), box_sum1(allv, Expr({m: Fraction(1)})))
        return out
    return box_sum1(allv, body)


def box_sum1(allv, body):
    (m, _), = body.t.items()
    # connected components between vars
    vs = [a[0] for a in allv]
    rng = {a[0]: (a[1], a[2]) for a in allv}
    comp = []
    free = []
    for aid, x in m:
        a = _byid[aid]
        d = set(a.deps) & set(vs)
        if not d:
            free.append((aid, x))
            continue
        merged = [c for c in comp if c[0] & d]
        nc = (set(d), [(aid, x)])
        for c in merged:
            nc[0].update(c[0])
            nc[1].extend(c[1])
            comp.remove(c)
        comp.append(nc)
    out = Expr({tuple(sorted(free)): Fraction(1)}) if free else ONE
    covered = set()
    for dv, atoms in comp:
        covered |= dv
        out = mul(out, canon_component([(v, rng[v][0], rng[v][1]) for v in vs if v in dv],
                                       Expr({tuple(sorted(atoms)): Fraction(1)})))
    for v in vs:
        if v not in covered:
            out = mul(out, rng[v][1] - rng[v][0])
    return out


def _index_uses(body, v):
    """index expressions (affine in v) in elem atoms of body, deterministic order"""
    res = []

    def walk(e):
        for m in sorted(e.t):
            for aid, x in m:
                a = _byid[aid]
                if v not in a.deps:
                    continue
                if a.kind == "elem":
                    for pos, ix in enumerate(a.args[1:]):
                        if v in ix.deps:
                            c = _lin_coeff(ix, v)
                            res.append(((a.args[0].n, pos), ix, c))
                            if c is None:
                                walk(ix)
                elif a.kind == "fn":
                    for z in a.args[1:]:
                        if isinstance(z, Expr):
                            walk(z)
                elif a.kind == "sum":
                    walk(a.args[1])
    walk(body)
    return res


def canon_component(vs, body):
    """normalise shift/reflection of every var, then order vars; emit prefix sums"""
    sub = {}
    newv = []
    for v, lo, hi in vs:
        uses = [(k, ix, c) for k, ix, c in _index_uses(body, v) if c is not None and c in (1, -1)]
        if uses:
            others = frozenset(w for w, _, _ in vs)
            # prefer uses whose remaining part has no other bound var
            cand = []
            for k, ix, c in uses:
                rest = ix - mul(const(c), atom_expr(v))
                cand.append((len(rest.deps & others), k, -c, rest, c))
            cand.sort(key=lambda z: (z[0], z[1], z[2], len(z[3].t), _ekey(z[3])))
            n_other, k, _, rest, c = cand[0]
            if n_other == 0:
                w = fresh_idx("c")
                # w = c*v + rest  -> v = c*(w - rest)
                sub[v] = mul(const(c), atom_expr(w) - rest)
                if c == 1:
                    newv.append((w, lo + rest, hi + rest))
                else:
                    newv.append((w, rest - hi + 1, rest - lo + 1))
                continue
        newv.append((v, lo, hi))
    if sub:
        body = subst(body, sub)
        if len(body.t) != 1 or next(iter(body.t.values())) != 1:
            # e.g. exp(i(w-r)) expands to products: still one term normally; otherwise distribute
            out = ZERO
            for m, c in body.t.items():
                out = out + mul(const(c), _emit_box(newv, Expr({m: Fraction(1)})))
            return out
    return _emit_box(newv, body)


def _emit_box(vs, body):
    # some factors may have become free of the bound variables
    (m, c0), = body.t.items()
    names = set(v for v, _, _ in vs)
    free = [(a, x) for a, x in m if not (_byid[a].deps & names)]
    inn = [(a, x) for a, x in m if (_byid[a].deps & names)]
    out = Expr({tuple(free): Fraction(c0)})
    if not inn:
        for v, lo, hi in vs:
            out = mul(out, hi - lo)
        return out
    body = Expr({tuple(inn): Fraction(1)})
    missing = [t for t in vs if t[0] not in body.deps]
    if missing:
        for v, lo, hi in missing:
            out = mul(out, hi - lo)
        vs = [t for t in vs if t[0] in body.deps]
    # inclusion-exclusion over prefix sums
    tot = ZERO

    def rec(k, lims, coef):
        nonlocal tot
        if k == len(vs):
            tot = tot + mul(coef, prefix_sum([v for v, _, _ in vs], list(lims), body))
            return
        v, lo, hi = vs[k]
        rec(k + 1, lims + [hi], coef)
        if lo.t:
            rec(k + 1, lims + [lo], -coef)
    rec(0, [], ONE)
    return mul(out, tot)


def prefix_sum(vs, lims, body):
    """sum over box [0,lims) of body; unroll constant offsets"""
    for k, L in enumerate(lims):
        c = L.cval()
        if c is not None:
            # constant limit: explicit (also negative: -sum_{L}^{-1})
            out = ZERO
            c = int(c)
            rng, sg = (range(c), 1) if c >= 0 else (range(c, 0), -1)
            if c > 8:
                continue            # kept as a sum with a constant limit
            if len(rng) > 8:
                raise Undecided("large constant sum")
            for j in rng:
                b = subst(body, {vs[k]: const(j)})
                out = out + mul(const(sg), _rebox(vs[:k] + vs[k + 1:], lims[:k] + lims[k + 1:], b))
            return out
        off = L.t.get(ZEROM, 0)
        if off:
            if Fraction(off).denominator != 1 or abs(off) > 8:
                raise Undecided("sum limit")
            base = L - off
            out = prefix_sum(vs, lims[:k] + [base] + lims[k + 1:], body)
            off = int(off)
            rng, sg = (range(off), 1) if off > 0 else (range(off, 0), -1)
            for j in rng:
                b = subst(body, {vs[k]: base + j})
                out = out + mul(const(sg), _rebox(vs[:k] + vs[k + 1:], lims[:k] + lims[k + 1:], b))
            return out
    return mk_sum_atom_vars(vs, lims, body)


def _rebox(vs, lims, body):
    if not vs:
        return body
    out = ZERO
    for m, c in body.t.items():
        out = out + mul(const(c), box_sum1([(v, ZERO, L) for v, L in zip(vs, lims)], Expr({m: Fraction(1)})))
    return out


def mk_sum_atom_vars(vs, lims, body):
    import itertools
    best = None
    n = len(vs)
    if n > NBV - 1:
        raise Undecided("too many sums")
    BV = bvs(max([level(body)] + [level(l) for l in lims]))
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for p in perms:
        ren = {vs[k]: atom_expr(BV[i]) for i, k in enumerate(p)}
        b = subst(body, ren)
        key = (tuple(_ekey(lims[k]) for k in p), _ekey(b))
        if best is None or key < best[0]:
            best = (key, tuple(lims[k] for k in p), b)
    _, ls, b = best
    if len(b.t) != 1 or next(iter(b.t.values())) != 1:
        c = next(iter(b.t.values()))
        if len(b.t) == 1:
            return mul(const(c), mk_raw_sum(ls, Expr({next(iter(b.t)): Fraction(1)})))
        raise Undecided("sum body")
    return mk_raw_sum(ls, b)


def mk_raw_sum(ls, b):
    deps = frozenset().union(*[l.deps for l in ls]) | (b.deps - frozenset(bvs(max([level(b)] + [level(l) for l in ls]))))
    sg = 1 if sign_of(b) >= 1 else 0
    a = _intern("sum", (tuple(ls), b), real=is_real(b), sign=sg, deps=deps)
    return atom_expr(a)


def mk_sum_atom(lims, body, BV):
    """rebuild from placeholders"""
    vs = []
    ren = {}
    for k in range(len(lims)):
        v = fresh_idx("r")
        vs.append(v)
        ren[BV[k]] = atom_expr(v)
    b = subst(body, ren)
    return box_sum([(v, ZERO, L) for v, L in zip(vs, lims)], b)


# substitution -------------------------------------------------------------------

def subst(e, mp):
    """replace atoms (index variables or any atom) by expressions"""
    if not mp:
        return e
    keys = frozenset(mp)
    if not e.deps & keys and all(k.deps for k in keys):
        return e
    memo = {}
    return _subst(e, mp, keys, memo)


def _subst(e, mp, keys, memo):
    if all(k in k.deps for k in keys) and not (e.deps & keys):
        return e
    out = {}
    acc = ZERO
    for m, c in e.t.items():
        if not any(_dirty(_byid[a], keys) for a, _ in m):
            v = out.get(m, 0) + c
            out[m] = v
            continue
        keep = []
        prod = None
        for aid, x in m:
            a = _byid[aid]
            if _dirty(a, keys):
                if a.kind == "fn" and a.args[0] in ("expi", "exp") and a not in mp:
                    # expi(t)^x stands for exp(i*t*x): the exponent belongs to the argument
                    t = mul(_subst(a.args[1], mp, keys, memo), const(Fraction(x)))
                    p = expi(t) if a.args[0] == "expi" else exp(t)
                    prod = p if prod is None else mul(prod, p)
                    continue
                r = memo.get(aid)
                if r is None:
                    r = _subst_atom(a, mp, keys, memo)
                    memo[aid] = r
                if a in mp and Fraction(x).denominator == 1:
                    p = power(r, x)
                else:
                    p = power_any(r, x) if Fraction(x).denominator != 1 else power(r, int(x))
                prod = p if prod is None else mul(prod, p)
            else:
                keep.append((aid, x))
        acc = acc + mul(Expr({tuple(keep): Fraction(c)}), prod)
    out = {m: c for m, c in out.items() if c != 0}
    return Expr(out) + acc if out else acc


def _dirty(a, keys):
    if a in keys:
        return True
    if a.deps & keys:
        return True
    if any(k not in k.deps for k in keys):
        # substitution of a non-index atom: need deep check
        return _contains(a, keys)
    return False


_cont_memo = {}


def _contains(a, keys):
    k = (a.id, keys)
    r = _cont_memo.get(k)
    if r is None:
        r = False
        stack = [z for z in a.args]
        while stack:
            z = stack.pop()
            if isinstance(z, Expr):
                for m in z.t:
                    for aid, _ in m:
                        b = _byid[aid]
                        if b in keys or _contains(b, keys):
                            r = True
                            break
            elif isinstance(z, tuple):
                stack.extend(z)
        _cont_memo[k] = r
    return r


REBUILD = {}


def _subst_atom(a, mp, keys, memo):
    if a in mp:
        return mp[a]
    if a.kind == "elem":
        return elem(a.args[0], *[_subst(i, mp, keys, memo) for i in a.args[1:]])
    if a.kind == "fn":
        n = a.args[0]
        args = [(_subst(z, mp, keys, memo) if isinstance(z, Expr) else z) for z in a.args[1:]]
        return rebuild_fn(n, args, a)
    if a.kind == "sum":
        lims, body = a.args
        B = bound(a)
        vs, ren = [], {}
        for k in range(len(lims)):
            v = fresh_idx("r")
            vs.append(v)
            ren[B[k]] = atom_expr(v)
        b = subst(subst(body, ren), mp)
        return box_sum([(v, ZERO, _subst(L, mp, keys, memo)) for v, L in zip(vs, lims)], b)
    if a.kind == "trisum":
        lo, hi, body = a.args
        v = fresh_idx("t")
        b2 = subst(subst(body, {bound(a)[5]: atom_expr(v)}), mp)
        return sum_over(v, _subst(lo, mp, keys, memo), _subst(hi, mp, keys, memo), b2)
    raise Undecided("subst in %s" % a.kind)


def rebuild_fn(n, args, a=None):
    if n == "sqrt":
        return sqrt(args[0])
    if n == "abs":
        return absval(args[0])
    if n == "inv":
        return power(args[0], -1)
    if n == "expi":
        return expi(args[0])
    if n == "exp":
        return exp(args[0])
    if n == "conj":
        return conj(args[0])
    if n == "pow":
        return power(args[0], args[1])
    if n == "atan2":
        return atan2(*args)
    f = REBUILD.get(n)
    if f is not None:
        return f(*args)
    meta = {}
    if a is not None:
        meta = dict(real=a.real, sign=a.sign, integer=a.integer, unit=a.unit)
    return fn(n, *args, **meta)


# differentiation w.r.t. an elem atom -----------------------------------------------

def diff(e, v):
    r = ZERO
    for m, c in e.t.items():
        for k, (aid, x) in enumerate(m):
            a = _byid[aid]
            if a is v:
                da = ONE
            elif _contains(a, frozenset([v])):
                da = diff_atom(a, v)
            else:
                continue
            if not da.t:
                continue
            rest = m[:k] + m[k + 1:]
            p = power_any(atom_expr(a), Fraction(x) - 1) if Fraction(x).denominator != 1 else power(atom_expr(a), int(x) - 1)
            if a.kind == "fn" and a.args[0] in ("expi", "exp"):
                p = Expr({((aid, x),): Fraction(1)})  # derivative handled with exponent below
                r = r + mul(mul(mul(Expr({rest: Fraction(c)}), const(x)), p), da)
            else:
                r = r + mul(mul(mul(Expr({rest: Fraction(c)}), const(x)), p), da)
    return r


def diff_atom(a, v):
    n = a.args[0]
    if a.kind == "fn":
        if n == "sqrt":
            return mul(mul(diff(a.args[1], v), const(Fraction(1, 2))), power(atom_expr(a), -1))
        if n == "inv":
            return -mul(diff(a.args[1], v), power(atom_expr(a), 2))
        if n == "expi":
            return mul(EI, diff(a.args[1], v))     # relative derivative
        if n == "exp":
            return diff(a.args[1], v)
        if n == "atan2":
            y, x = a.args[1:]
            return mul(mul(x, diff(y, v)) - mul(y, diff(x, v)), power(mul(x, x) + mul(y, y), -1))
        if n == "abs":
            return mul(mul(a.args[1], diff(a.args[1], v)), power(atom_expr(a), -1))
        if n == "log":
            return mul(diff(a.args[1], v), power(a.args[1], -1))
    raise Undecided("derivative of %r" % (a,))


# zero test ------------------------------------------------------------------------

def _inv_max(e):
    mx = {}
    for m in e.t:
        for aid, x in m:
            a = _byid[aid]
            if a.kind == "fn" and a.args[0] == "inv":
                mx[aid] = max(mx.get(aid, 0), x)
    return mx


def clear_denominators(e, limit=12):
    for _ in range(limit):
        mx = _inv_max(e)
        if not mx:
            return e
        aid, k = max(mx.items(), key=lambda z: z[0])
        a = _byid[aid]
        p = a.args[1]
        out = ZERO
        pw = [ONE]
        for _i in range(int(k)):
            pw.append(mul(pw[-1], p))
        groups = {}
        for m, c in e.t.items():
            d = dict(m)
            x = d.pop(aid, 0)
            groups.setdefault(x, {})[tuple(sorted(d.items()))] = c
        for x, t in groups.items():
            out = out + mul(Expr(t), pw[int(k - x)])
        e = out
    return e


def is_zero(e):
    if not e.t:
        return True
    return not clear_denominators(e).t


# numeric evaluation of a value graph at a generic point (guard against incomplete normal forms)

class NumEnv:
    def __init__(self, seed, dims):
        self.seed = seed
        self.dims = dims      # Atom -> int
        self.memo = {}

    def rnd(self, key):
        r = self.memo.get(key)
        if r is None:
            import hashlib
            h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
            r = self.memo[key] = int.from_bytes(h[:6], "big") / 2.0 ** 48
        return r


def neval(e, env, b):
    s = 0
    for m, c in e.t.items():
        v = float(c)
        if len(m) > 1 and _switched_off(m, env, b):
            continue
        for aid, x in m:
            a = _byid[aid]
            av = neval_atom(a, env, b)
            if a.kind == "fn" and a.args[0] == "expi":
                import cmath
                v = v * cmath.exp(1j * av * float(x))
                continue
            if a.kind == "fn" and a.args[0] == "exp":
                import cmath
                v = v * (cmath.exp(av * float(x)) if isinstance(av, complex) else math.exp(max(-700, min(700, av * float(x)))))
                continue
            if x == 1:
                v = v * av
            else:
                v = v * av ** (int(x) if Fraction(x).denominator == 1 else float(x))
        s = s + v
    return s


_SWITCH = {"pos", "ge", "eq0", "ind", "isnan"}


def _switched_off(m, env, b):
    """a term guarded by a condition that is false counts 0, whatever the rest of it would be"""
    for aid, x in m:
        a = _byid[aid]
        if a.kind == "fn" and a.args[0] in _SWITCH and x > 0 and neval_atom(a, env, b) == 0:
            return True
    return False


_param_names = {}


def _params(tok):
    """parameters (_p0, _p1, ..) of an uninterpreted result, and their number"""
    r = _param_names.get(tok.n)
    if r is None:
        names = set()
        for e in _key_exprs(tok.key):
            for v in e.deps:
                n = str(v.args[0])
                if n.startswith("_p") and n[2:].isdigit():
                    names.add(v)
        r = _param_names[tok.n] = (names, 1 + max((int(str(v.args[0])[2:]) for v in names), default=-1))
    return r


def opaque_content(tok, idx, env):
    """value identity of an uninterpreted result at a generic point: operation, numerical arguments"""
    names, np_ = _params(tok)
    par = idx[:np_]
    k = ("content", tok.n, par)
    if k not in env.memo:
        b = {v: par[int(str(v.args[0])[2:])] for v in names}
        import hashlib
        env.memo[k] = hashlib.sha256(repr(_content(tok.key, env, b)).encode()).hexdigest()
    return ("op", tok.opaque, env.memo[k]), idx[np_:]


def _key_exprs(k):
    if isinstance(k, Expr):
        yield k
    elif isinstance(k, (tuple, list)):
        for z in k:
            yield from _key_exprs(z)


def _interpreted(tok, a, env, b):
    """Value of a named matrix or of an inverse at a generic point, from its argument."""
    full = tuple(_int(neval(i, env, b)) for i in a.args[1:])
    names, np_ = _params(tok)
    par, idx = full[:np_], full[np_:]
    k = ("matrix", tok.n, par)
    if k not in env.memo:
        env.memo[k] = _matrix(tok.key[0], env, {v: par[int(str(v.args[0])[2:])] for v in names})
        if tok.opaque == "inv" and env.memo[k] is not None:
            env.memo[k] = _invert(env.memo[k])
    M = env.memo[k]
    return None if M is None else M.get(idx)


def _matrix(k, env, b):
    if not (isinstance(k, tuple) and len(k) == 3 and k[0] == "arr"):
        return None
    out = {}
    vs = [sym("_g%d" % j, integer=True, idx=True) for j in range(len(k[1]))]
    for box, e in k[2]:
        def rec(j, bb):
            if j == len(box):
                out[tuple(bb[v] for v in vs[:len(box)])] = neval(e, env, bb)
                return
            l, h = _int(neval(box[j][0], env, bb)), _int(neval(box[j][1], env, bb))
            for q in range(l, h):
                bb[vs[j]] = q
                rec(j + 1, bb)
        rec(0, dict(b))
    return out


def _invert(M):
    n = 1 + max(i for i, _ in M)
    if len(M) != n * n or n > 24:
        return None
    A = [[M[i, j] for j in range(n)] + [1.0 * (i == j) for j in range(n)] for i in range(n)]
    big = max(abs(v) for v in M.values())
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < 1e-7 * big:
            return None
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [v / d for v in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [v - f * w for v, w in zip(A[r], A[c])]
    return {(i, j): A[i][n + j] for i in range(n) for j in range(n)}


def _val(v):
    if abs(v) < 1e-9:
        return "0"
    if isinstance(v, complex):
        return "%.6g%+.6gj" % (v.real + 0.0, v.imag + 0.0) if abs(v.imag) > 1e-9 else "%.6g" % (v.real + 0.0)
    return "%.6g" % (v + 0.0)


def _content(k, env, b):
    if isinstance(k, Expr):
        return _val(neval(k, env, b))
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "arr":
        shape = tuple(_int(neval(lift(s), env, b)) for s in k[1])
        n = 1
        for s in shape:
            n *= s
        if n > 3000:
            raise Undecided("large argument at generic point")
        out = {}
        vs = [sym("_g%d" % j, integer=True, idx=True) for j in range(len(shape))]
        for box, e in k[2]:
            def rec(j, bb):
                if j == len(box):
                    out[tuple(bb[v] for v in vs[:len(box)])] = _val(neval(e, env, bb))
                    return
                l, h = _int(neval(box[j][0], env, bb)), _int(neval(box[j][1], env, bb))
                for q in range(l, h):
                    bb[vs[j]] = q
                    rec(j + 1, bb)
            rec(0, dict(b))
        return ("arr", shape, tuple(v for _, v in sorted(out.items())))
    if isinstance(k, (tuple, list)):
        return tuple(_content(z, env, b) for z in k)
    return k if isinstance(k, (str, int)) else repr(k)


def _elem_value(a, tok, idx, env, b):
    base = ("elem", tok.name, tok.n)
    if tok.opaque and tok.key is not None:
        base, idx = opaque_content(tok, idx, env)
        if tok.opaque in ("let", "inv"):
            v = _interpreted(tok, a, env, b)
            if v is not None:
                return v
    u = env.rnd(base + idx)
    if "cov" in tok.name and not tok.integer and (tok.sym or tok.name.startswith("acov")):
        # positive definite covariances (diagonally dominant)
        if all(idx[p] == idx[q] for p, q in tok.sym) and (tok.sym or idx[0] == 0):
            return 1 + u
        return (0.02 + 0.1 * u) * (1 if env.rnd(("sg", tok.name, tok.n) + idx) < 0.5 else -1)
    if tok.integer:
        return int(1 + 5 * u)
    if tok.sign >= 1 or (tok.sym and "cov" in tok.name and all(idx[p] == idx[q] for p, q in tok.sym)):
        return 0.4 + u
    v = (0.3 + u) * (1 if env.rnd(("sg",) + base + idx) < 0.5 else -1)
    if not tok.real:
        return complex(v, env.rnd(("im",) + base + idx) + 0.2)
    return v


def neval_atom(a, env, b):
    if a in b:
        return b[a]
    if a is PI:
        return math.pi
    if a is I:
        return 1j
    if a.kind == "sym":
        if a in env.dims:
            return env.dims[a]
        u = env.rnd(("sym", a.args[0]))
        if a.integer:
            return int(1 + 3 * u)
        return 0.5 + u if a.sign >= 1 else (u - 0.5) * 3
    if a.kind == "elem":
        idx = tuple(_int(neval(i, env, b)) for i in a.args[1:])
        tok = a.args[0]
        for (p, q) in tok.sym:
            if idx[q] < idx[p]:
                l = list(idx)
                l[p], l[q] = l[q], l[p]
                idx = tuple(l)
        k = ("value", tok.n, idx)
        v = env.memo.get(k)
        if v is None:
            v = env.memo[k] = _elem_value(a, tok, idx, env, b)
        return v
    if a.kind == "sum" or (a.kind == "fn" and a.args[0] in ("inv", "sqrt")):
        k = ("atom", a.id) + tuple(b[v] for v in sorted_deps(a) if v in b)
        v = env.memo.get(k)
        if v is None:
            v = env.memo[k] = _neval_compound(a, env, b)
        return v
    return _neval_compound(a, env, b)


_deps_order = {}


def sorted_deps(a):
    r = _deps_order.get(a.id)
    if r is None:
        r = _deps_order[a.id] = sorted(a.deps, key=lambda v: v.id)
    return r


def _neval_compound(a, env, b):
    if a.kind == "fn":
        n = a.args[0]
        ev = [neval(z, env, b) if isinstance(z, Expr) else z for z in a.args[1:]]
        if n == "sqrt":
            import cmath
            z = ev[0]
            if isinstance(z, complex) or z < 0:
                return cmath.sqrt(z)
            return math.sqrt(z)
        if n == "abs":
            return abs(ev[0])
        if n == "inv":
            return 1 / ev[0]
        if n in ("expi", "exp"):
            return ev[0]
        if n == "conj":
            return complex(ev[0]).conjugate()
        if n == "atan2":
            return math.atan2(_re(ev[0]), _re(ev[1]))
        if n == "log":
            import cmath
            return cmath.log(ev[0]) if isinstance(ev[0], complex) or ev[0] <= 0 else math.log(ev[0])
        if n == "pos":
            return 1 if _re(ev[0]) > 0 else 0
        if n == "ge":
            return 1 if _re(ev[0]) >= -1e-9 else 0
        if n == "eq0":
            return 1 if abs(ev[0]) < 1e-12 else 0
        if n == "floor":
            return math.floor(_re(ev[0]) + 1e-9)
        if n == "idiv":
            return math.floor((_re(ev[0]) + 1e-9) / _re(ev[1]))
        if n == "irem":
            return _re(ev[0]) - _re(ev[1]) * math.floor((_re(ev[0]) + 1e-9) / _re(ev[1]))
        if n == "ceil":
            return math.ceil(_re(ev[0]) - 1e-9)
        if n == "sign":
            return (_re(ev[0]) > 0) - (_re(ev[0]) < 0)
        if n == "min":
            return min(ev, key=_re)
        if n == "max":
            return max(ev, key=_re)
        if n == "pow":
            return complex(ev[0]) ** ev[1] if (isinstance(ev[0], complex) or ev[0] < 0) else ev[0] ** ev[1]
        if n == "isnan":
            return 0
        return env.rnd(("fn", n) + tuple(str(z) if isinstance(z, (str, tuple)) else "%.9g" % _re(z) for z in ev)) + 0.1
    if a.kind == "sum":
        lims, body = a.args
        B = bound(a)
        ls = [_int(neval(l, env, b)) for l in lims]
        # a large constant limit is represented by a small one at generic points (the same one wherever it occurs)
        ls = [3 + v % 5 if l.cval() is not None and v > 8 else v for v, l in zip(ls, lims)]
        tot = 0
        bb = dict(b)

        def rec(k):
            nonlocal tot
            if k == len(ls):
                tot = tot + neval(body, env, bb)
                return
            L = ls[k]
            if L >= 0:
                for j in range(L):
                    bb[B[k]] = j
                    rec(k + 1)
            else:
                raise Undecided("negative prefix")
        if any(l < 0 for l in ls):
            if len(ls) == 1:
                for j in range(ls[0], 0):
                    bb[B[0]] = j
                    tot = tot - neval(body, env, bb)
                return tot
            raise Undecided("negative prefix")
        rec(0)
        return tot
    if a.kind == "trisum":
        lo, hi, body = a.args
        B = bound(a)
        l, h = _int(neval(lo, env, b)), _int(neval(hi, env, b))
        tot = 0
        bb = dict(b)
        for j in range(l, h):
            bb[B[5]] = j
            tot = tot + neval(body, env, bb)
        return tot
    raise Undecided("neval %s" % a.kind)


def _re(z):
    return z.real if isinstance(z, complex) else z


def _int(z):
    z = _re(z)
    r = round(z)
    if abs(r - z) > 1e-6:
        raise Undecided("non-integer index")
    return int(r)


# traversal ---------------------------------------------------------------------------

def walk_atoms(e, seen=None):
    if seen is None:
        seen = set()
    for m in e.t:
        for aid, _ in m:
            yield from walk_atom(_byid[aid], seen)


def walk_atom(a, seen):
    if a.id in seen:
        return
    seen.add(a.id)
    yield a
    stack = list(a.args)
    while stack:
        z = stack.pop()
        if isinstance(z, Expr):
            yield from walk_atoms(z, seen)
        elif isinstance(z, tuple):
            stack.extend(z)
        elif isinstance(z, Token) and z.key is not None:
            stack2 = [z.key]
            while stack2:
                y = stack2.pop()
                if isinstance(y, Expr):
                    yield from walk_atoms(y, seen)
                elif isinstance(y, (tuple, list)):
                    stack2.extend(y)


def byid(i):
    return _byid[i]


# printing ----------------------------------------------------------------------------

def show_atom(a):
    if a._s is None:
        if a.kind == "sym":
            a._s = str(a.args[0])
        elif a.kind == "elem":
            a._s = a.args[0].name + ("[" + ",".join(show(i) for i in a.args[1:]) + "]" if len(a.args) > 1 else "")
        elif a.kind == "fn":
            a._s = a.args[0] + "(" + ", ".join(show(z) if isinstance(z, Expr) else str(z) for z in a.args[1:]) + ")"
        elif a.kind == "sum":
            a._s = "Sum{" + ",".join("%s<%s" % (bound(a)[k], show(l)) for k, l in enumerate(a.args[0])) + "}(" + show(a.args[1]) + ")"
        else:
            a._s = a.kind + str(a.args)
    return a._s


def show(e, limit=6):
    if not e.t:
        return "0"
    parts = []
    for m, c in sorted(e.t.items(), key=lambda z: (len(z[0]), z[0]))[:limit]:
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for aid, x in m:
            a = _byid[aid]
            f.append(show_atom(a) if x == 1 else "%s^%s" % (show_atom(a), x))
        parts.append("*".join(f))
    s = " + ".join(parts)
    if len(e.t) > limit:
        s += " + ...(%d terms)" % len(e.t)
    return s
