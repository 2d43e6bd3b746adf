"""Scalar domain: extended reals, mathematical integers, booleans and PRNG keys over z3.

Concrete scalars are plain python values (bool, int, fractions.Fraction and the
constants NAN/PINF/NINF); symbolic ones are z3 BoolRef / Int ArithRef / ``R``.
Floats are modelled as *extended reals*: an exact real value plus NaN/+inf/-inf
flags.  Rounding and signed zeros are outside the model; overflow to infinity
is modelled when ``ctx().overflow`` is set.
"""
from fractions import Fraction
import math
import numpy as np
import z3

FLT_MAX = Fraction(float(np.finfo(np.float32).max))


class Unsupported(BaseException):
    """The code uses something the encoder does not model (-> inconclusive)."""


_CTX = [None]


def ctx():
    return _CTX[0]


# ----------------------------------------------------------------- booleans
def is_b(x):
    return isinstance(x, (bool, np.bool_))


def b_not(a):
    if is_b(a):
        return not a
    return z3.Not(a)


def b_and(*xs):
    out = []
    for a in xs:
        if is_b(a):
            if not a:
                return False
        else:
            out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for a in xs:
        if is_b(a):
            if a:
                return True
        else:
            out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_xor(a, b):
    if is_b(a):
        return b_not(b) if a else b
    if is_b(b):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def b_ite(c, a, b):
    if is_b(c):
        return a if c else b
    if is_b(a) and is_b(b):
        if a == b:
            return a
        return c if a else b_not(c)
    if is_b(a):
        return b_or(c, b) if a else b_and(b_not(c), b)
    if is_b(b):
        return b_or(b_not(c), a) if b else b_and(c, a)
    return z3.If(c, a, b)


def to_z3b(a):
    return z3.BoolVal(bool(a)) if is_b(a) else a


# ----------------------------------------------------------------- ints
def to_z3i(a):
    if isinstance(a, (int, np.integer)) and not is_b(a):
        return z3.IntVal(int(a))
    return a


def is_ci(a):
    return isinstance(a, (int, np.integer))


# ----------------------------------------------------------------- reals
class R:
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    def __repr__(self):
        return f"R({self.v}, nan={self.nan}, +inf={self.pinf}, -inf={self.ninf})"


NAN = R(Fraction(0), nan=True)
PINF = R(Fraction(0), pinf=True)
NINF = R(Fraction(0), ninf=True)
ZERO = Fraction(0)
ONE = Fraction(1)


_LN10 = Fraction(repr(math.log(10.0)))
# conversion factors of logarithms, at the precisions they appear with in the code
_CONSTS = {}
for _t in (np.float32, np.float64):
    _CONSTS[float(_t(math.log(10.0)))] = _LN10
    _CONSTS[float(_t(1 / math.log(10.0)))] = 1 / _LN10
_CONSTS[0.4342944819032518] = 1 / _LN10


def frac_of_float(x):
    """Exact decimal reading of a concrete float (shortest repr)."""
    if isinstance(x, Fraction):
        return x
    if float(x) in _CONSTS:
        return _CONSTS[float(x)]
    if isinstance(x, (np.floating,)):
        if np.isnan(x):
            return NAN
        if np.isinf(x):
            return PINF if x > 0 else NINF
        # shortest repr at its own precision
        return Fraction(np.format_float_scientific(x, unique=True, trim="-"))
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    return Fraction(repr(x))


def as_real(x):
    """Normalise scalar to Fraction or R."""
    if isinstance(x, (Fraction, R)):
        return x
    if is_b(x):
        return ONE if x else ZERO
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        return frac_of_float(x)
    if isinstance(x, z3.BoolRef):
        return R(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, z3.ArithRef):
        return R(z3.ToReal(x) if x.is_int() else x)
    raise Unsupported(f"not a real: {type(x)}")


def rv(x):
    """z3 / Fraction value part -> z3 real."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def is_cr(x):
    return isinstance(x, Fraction)


def flags_false(a):
    return a.nan is False and a.pinf is False and a.ninf is False


def fin(a):
    if is_cr(a):
        return True
    return b_not(b_or(a.nan, a.pinf, a.ninf))


def isnan(a):
    return False if is_cr(a) else a.nan


def isinf(a):
    return False if is_cr(a) else b_or(a.pinf, a.ninf)


def _mk(v, nan=False, pinf=False, ninf=False):
    if nan is False and pinf is False and ninf is False and isinstance(v, Fraction):
        return v
    if nan is True:
        return NAN
    if pinf is True:
        return PINF
    if ninf is True:
        return NINF
    return R(v, nan, pinf, ninf)


def _v(a):
    return a if is_cr(a) else a.v


def vadd(x, y):
    if isinstance(x, Fraction):
        if isinstance(y, Fraction):
            return x + y
        if x == 0:
            return y
    elif isinstance(y, Fraction) and y == 0:
        return x
    return rv(x) + rv(y)


def vmul(x, y):
    if isinstance(x, Fraction):
        if isinstance(y, Fraction):
            return x * y
        if x == 0:
            return ZERO
        if x == 1:
            return y
    elif isinstance(y, Fraction):
        if y == 0:
            return ZERO
        if y == 1:
            return x
    return rv(x) * rv(y)


def vneg(x):
    return -x


def vlt(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x < y
    return rv(x) < rv(y)


def vle(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x <= y
    return rv(x) <= rv(y)


def veq(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x == y
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return True
    return rv(x) == rv(y)


def fork(c):
    k = _CTX[0]
    if k is not None and k.fork_ite and not is_b(c):
        return k.decide(c)
    return c


def vite(c, x, y):
    if is_b(c):
        return x if c else y
    if isinstance(x, Fraction) and isinstance(y, Fraction) and x == y:
        return x
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return x
    c = fork(c)
    if is_b(c):
        return x if c else y
    return z3.If(c, rv(x), rv(y))


def _ovf(r):
    """Overflow to +-inf (float32 range) if the context models it."""
    c = ctx()
    if c is None or not c.overflow:
        return r
    if is_cr(r):
        if r > FLT_MAX:
            return PINF
        if r < -FLT_MAX:
            return NINF
        return r
    hi = c.prune(b_and(fin(r), vlt(FLT_MAX, r.v)))
    lo = c.prune(b_and(fin(r), vlt(r.v, -FLT_MAX)))
    if hi is False and lo is False:
        return r
    return _mk(r.v, r.nan, b_or(r.pinf, hi), b_or(r.ninf, lo))


def r_add(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return _ovf(a + b)
    a_, b_ = _R(a), _R(b)
    if flags_false(a_) and flags_false(b_):
        return _ovf(_mk(vadd(a_.v, b_.v)))
    nan = b_or(a_.nan, b_.nan, b_and(a_.pinf, b_.ninf), b_and(a_.ninf, b_.pinf))
    nn = b_not(nan)
    return _ovf(
        _mk(vadd(a_.v, b_.v), nan, b_and(nn, b_or(a_.pinf, b_.pinf)), b_and(nn, b_or(a_.ninf, b_.ninf)))
    )


def _R(a):
    return R(a) if isinstance(a, Fraction) else a


def r_neg(a):
    a = as_real(a)
    if is_cr(a):
        return -a
    return _mk(vneg(a.v), a.nan, a.ninf, a.pinf)


def r_sub(a, b):
    a, b = as_real(a), as_real(b)
    # x - x
    if not is_cr(a) and not is_cr(b) and flags_false(a) and flags_false(b):
        if not isinstance(a.v, Fraction) and not isinstance(b.v, Fraction) and a.v.eq(b.v):
            return ZERO
    return r_add(a, r_neg(b))


def r_pos(a):  # a > 0 (false for nan)
    if is_cr(a):
        return a > 0
    return b_or(a.pinf, b_and(fin(a), vlt(ZERO, a.v)))


def r_negv(a):  # a < 0
    if is_cr(a):
        return a < 0
    return b_or(a.ninf, b_and(fin(a), vlt(a.v, ZERO)))


def r_zero(a):
    if is_cr(a):
        return a == 0
    return b_and(fin(a), veq(a.v, ZERO))


def r_mul(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return _ovf(a * b)
    a_, b_ = _R(a), _R(b)
    if flags_false(a_) and flags_false(b_):
        return _ovf(_mk(vmul(a_.v, b_.v)))
    ainf = b_or(a_.pinf, a_.ninf)
    binf = b_or(b_.pinf, b_.ninf)
    nan = b_or(a_.nan, b_.nan, b_and(ainf, r_zero(b)), b_and(binf, r_zero(a)))
    anyinf = b_and(b_or(ainf, binf), b_not(nan))
    pos = b_or(b_and(r_pos(a), r_pos(b)), b_and(r_negv(a), r_negv(b)))
    return _ovf(_mk(vmul(a_.v, b_.v), nan, b_and(anyinf, pos), b_and(anyinf, b_not(pos))))


def r_div(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(b) and b != 0:
        if is_cr(a):
            return _ovf(a / b)
        return r_mul(a, 1 / b)
    if is_cr(a) and is_cr(b):
        return NAN if a == 0 else (PINF if a > 0 else NINF)
    a_, b_ = _R(a), _R(b)
    c = ctx()
    bz = c.prune(r_zero(b)) if c is not None else r_zero(b)
    ainf = b_or(a_.pinf, a_.ninf)
    binf = b_or(b_.pinf, b_.ninf)
    az = b_and(bz, r_zero(a)) if bz is not False else False
    nan = b_or(a_.nan, b_.nan, b_and(ainf, binf), az)
    if bz is False and ainf is False:
        pinf = ninf = False
    else:
        nn = b_not(nan)
        apos = r_pos(a)
        bpos = b_or(r_pos(b), bz)
        isinf_ = b_and(nn, b_or(ainf, bz), b_not(binf))
        pos = b_or(b_and(apos, bpos), b_and(r_negv(a), b_not(bpos)))
        pinf = b_and(isinf_, pos)
        ninf = b_and(isinf_, b_not(pos))
    if isinstance(b_.v, Fraction) and b_.v == 0:
        v = ZERO
    else:
        av = a_.v
        # pull constant numerators out: c / x
        if isinstance(b_.v, Fraction):
            v = vmul(av, 1 / b_.v)
        elif isinstance(av, Fraction) and av == 0:
            v = ZERO
        elif not isinstance(av, Fraction) and av.eq(b_.v):
            v = ONE
        else:
            v = rv(av) / rv(b_.v)
    if binf is not False:
        v = vite(binf, ZERO, v)
    return _ovf(_mk(v, nan, pinf, ninf))


def r_lt(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return a < b
    a_, b_ = _R(a), _R(b)
    if flags_false(a_) and flags_false(b_):
        return vlt(a_.v, b_.v)
    return b_or(
        b_and(fin(a), fin(b), vlt(a_.v, b_.v)),
        b_and(a_.ninf, b_not(b_or(b_.ninf, b_.nan))),
        b_and(b_.pinf, b_not(b_or(a_.pinf, a_.nan))),
    )


def r_eq(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return a == b
    a_, b_ = _R(a), _R(b)
    if flags_false(a_) and flags_false(b_):
        return veq(a_.v, b_.v)
    return b_or(
        b_and(fin(a), fin(b), veq(a_.v, b_.v)),
        b_and(a_.ninf, b_.ninf),
        b_and(a_.pinf, b_.pinf),
    )


def r_le(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return a <= b
    a_, b_ = _R(a), _R(b)
    if flags_false(a_) and flags_false(b_):
        return vle(a_.v, b_.v)
    return b_or(r_lt(a, b), r_eq(a, b))


def r_same(a, b):
    """Identical extended-real value (NaN equals NaN)."""
    a, b = as_real(a), as_real(b)
    return b_or(r_eq(a, b), b_and(isnan(a), isnan(b)))


def r_ite(c, a, b):
    if is_b(c):
        return a if c else b
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b) and a == b:
        return a
    c = fork(c)
    if is_b(c):
        return a if c else b
    a_, b_ = _R(a), _R(b)
    return _mk(
        vite(c, a_.v, b_.v),
        b_ite(c, a_.nan, b_.nan),
        b_ite(c, a_.pinf, b_.pinf),
        b_ite(c, a_.ninf, b_.ninf),
    )


def r_max(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return max(a, b)
    r = r_ite(r_lt(a, b), b, a)
    if isnan(a) is False and isnan(b) is False:
        return r
    n = b_or(isnan(a), isnan(b))
    return r_ite(n, NAN, r)


def r_min(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(a) and is_cr(b):
        return min(a, b)
    r = r_ite(r_lt(b, a), b, a)
    if isnan(a) is False and isnan(b) is False:
        return r
    n = b_or(isnan(a), isnan(b))
    return r_ite(n, NAN, r)


def r_abs(a):
    a = as_real(a)
    if is_cr(a):
        return abs(a)
    v = a.v
    return _mk(vite(vlt(v, ZERO), vneg(v), v), a.nan, b_or(a.pinf, a.ninf), False)


def r_sign(a):
    a = as_real(a)
    if is_cr(a):
        return Fraction((a > 0) - (a < 0))
    r = r_ite(r_pos(a), ONE, r_ite(r_negv(a), -ONE, ZERO))
    return r_ite(isnan(a), NAN, r)


# ------------------------------------------------- transcendental functions
_UF = {}


def uf(name, arity=1):
    key = (name, arity)
    if key not in _UF:
        _UF[key] = z3.Function("f_" + name, *([z3.RealSort()] * (arity + 1)))
    return _UF[key]


def _const_fun(fn, x):
    try:
        return frac_of_float(fn(float(x)))
    except OverflowError:
        return PINF
    except ValueError:
        return NAN


def uf_app(name, x, axioms):
    """Apply an uninterpreted function to a finite real value, adding axioms once per path."""
    c = ctx()
    x = c.canon(rv(x))
    t = uf(name)(x)
    c.uf_axioms(name, t, x, axioms)
    return t


def _mono(strict=True):
    def pair(t1, x1, t2, x2):
        return [z3.Implies(x1 < x2, t1 < t2), z3.Implies(x2 < x1, t2 < t1), z3.Implies(x1 == x2, t1 == t2)]
    return pair


def r_exp(a):
    a = as_real(a)
    if is_cr(a):
        if a == 0:
            return ONE
        return _ovf(_const_fun(math.exp, a))
    if a is PINF:
        return PINF
    if a is NINF:
        return ZERO
    if a is NAN:
        return NAN

    def ax(t, x):
        return [
            t > 0,
            (x == 0) == (t == 1),
            (x > 0) == (t > 1),
            t >= 1 + x,
            z3.Implies(x < 1, t * (1 - x) <= 1),
        ]

    x = ctx().canon(rv(a.v))
    if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == "f_log":
        # the exponential of a logarithm
        if ctx().prune(x.arg(0) <= 0) is False:
            ctx().uf_axioms("exp", x.arg(0), x, (ax, _mono()))
        return _mk(vite(a.ninf, ZERO, x.arg(0)), a.nan, a.pinf, False)
    t = uf_app("exp", a.v, (ax, _mono()))
    r = _mk(vite(a.ninf, ZERO, t), a.nan, a.pinf, False)
    return _ovf(r)


def r_log(a):
    a = as_real(a)
    if is_cr(a):
        if a > 0:
            return ZERO if a == 1 else _const_fun(math.log, a)
        return NINF if a == 0 else NAN
    if a is PINF:
        return PINF
    if a is NINF or a is NAN:
        return NAN
    c = ctx()
    z = c.prune(r_zero(a))
    n = c.prune(r_negv(a))

    def ax(t, x):
        return [
            z3.Implies(x > 0, t <= x - 1),
            z3.Implies(x > 0, t * x >= x - 1),
            z3.Implies(x > 0, (x == 1) == (t == 0)),
            z3.Implies(x > 0, (x > 1) == (t > 0)),
        ]

    def pair(t1, x1, t2, x2):
        g = z3.And(x1 > 0, x2 > 0)
        return [
            z3.Implies(z3.And(g, x1 < x2), t1 < t2),
            z3.Implies(z3.And(g, x2 < x1), t2 < t1),
        ]

    x = c.canon(rv(a.v))
    if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == "f_exp":
        # the logarithm of an exponential
        return _mk(x.arg(0), a.nan, a.pinf, False)
    t = uf_app("log", a.v, (ax, pair))
    return _mk(t, b_or(a.nan, n), a.pinf, z)


def r_log1p(a):
    return r_log(r_add(ONE, a))


def r_expm1(a):
    return r_sub(r_exp(a), ONE)


def _bounded(name, fn, lo, hi, odd=True, mono=True):
    def f(a):
        a = as_real(a)
        if is_cr(a):
            return ZERO if (odd and a == 0) else _const_fun(fn, a)
        if a is NAN:
            return NAN
        if a is PINF:
            return Fraction(hi)
        if a is NINF:
            return Fraction(lo)

        def ax(t, x):
            out = [t > lo, t < hi]
            if odd:
                out += [(x > 0) == (t > 0), (x == 0) == (t == 0)]
            return out

        t = uf_app(name, a.v, (ax, _mono() if mono else None))
        v = vite(a.pinf, Fraction(hi), vite(a.ninf, Fraction(lo), t))
        return _mk(v, a.nan)

    return f


r_erf = _bounded("erf", math.erf, -1, 1)
r_tanh = _bounded("tanh", math.tanh, -1, 1)


_atan0 = _bounded("atan", math.atan, Fraction(-1570797, 10**6), Fraction(1570797, 10**6))


def r_atan(a):
    return _atan0(a)


def r_erfinv(a):
    a = as_real(a)
    if is_cr(a):
        if abs(a) > 1:
            return NAN
        if abs(a) == 1:
            return PINF if a > 0 else NINF
        from scipy.special import erfinv

        return frac_of_float(float(erfinv(float(a))))
    if a is NAN or a is PINF or a is NINF:
        return NAN

    def ax(t, x):
        return [(x > 0) == (t > 0), (x == 0) == (t == 0), uf("erf")(t) == x]

    out = b_or(a.nan, a.pinf, a.ninf, r_lt(ONE, R(a.v)), r_lt(R(a.v), -ONE))
    t = uf_app("erfinv", a.v, (ax, _mono()))
    return _mk(t, out, r_eq(a, ONE), r_eq(a, -ONE))


def r_erfc(a):
    return r_sub(ONE, r_erf(a))


def r_logistic(a):
    return r_div(ONE, r_add(ONE, r_exp(r_neg(a))))


def _trig(name, fn):
    def f(a):
        a = as_real(a)
        if is_cr(a):
            return _const_fun(fn, a)
        s = uf_app("sin", a.v, (lambda t, x: [t >= -1, t <= 1, t * t + uf("cos")(x) * uf("cos")(x) == 1], None))
        t = uf_app("cos", a.v, (lambda t, x: [t >= -1, t <= 1], None))
        return _mk(s if name == "sin" else t, b_or(a.nan, a.pinf, a.ninf))

    return f


r_sin = _trig("sin", math.sin)
r_cos = _trig("cos", math.cos)


def _generic(name, fn):
    def f(a):
        a = as_real(a)
        if is_cr(a):
            return _const_fun(fn, a)
        t = uf_app(name, a.v, (lambda t, x: [], None))
        if not flags_false(a):
            # value at infinities unknown: fresh
            return R(t, a.nan)
        return _mk(t)

    return f


r_lgamma = _generic("lgamma", math.lgamma)
r_digamma = _generic("digamma", lambda x: float("nan"))


def r_tan(a):
    return r_div(r_sin(a), r_cos(a))


_NN_FUNS = {"f_sqrt", "f_exp"}


def syn_nonneg(e, depth=40):
    """Syntactically non-negative (sums and products of squares, roots, exponentials, non-negative constants)."""
    if isinstance(e, (int, Fraction)):
        return e >= 0
    if depth == 0:
        return False
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if z3.is_add(e):
        return all(syn_nonneg(x, depth - 1) for x in e.children())
    if z3.is_mul(e):
        odd = {}
        for x in e.children():
            odd[x.get_id()] = (odd.get(x.get_id(), (0,))[0] + 1, x)
        return all(n % 2 == 0 or syn_nonneg(x, depth - 1) for n, x in odd.values())
    if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)):
        q = e.arg(1).as_fraction()
        return q.denominator == 1 and q.numerator % 2 == 0 or syn_nonneg(e.arg(0), depth - 1)
    if z3.is_div(e):
        return syn_nonneg(e.arg(0), depth - 1) and syn_nonneg(e.arg(1), depth - 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return syn_nonneg(e.arg(1), depth - 1) and syn_nonneg(e.arg(2), depth - 1)
    return z3.is_app(e) and e.num_args() == 1 and e.decl().name() == "f_exp"


def r_sqrt(a):
    a = as_real(a)
    if is_cr(a):
        if a < 0:
            return NAN
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
        return frac_of_float(math.sqrt(a))
    if a is NAN or a is NINF:
        return NAN
    if a is PINF:
        return PINF
    c = ctx()
    nn = syn_nonneg(a.v)
    neg = False if nn and a.ninf is False else c.prune(r_negv(a))

    def ax(t, x):
        if nn:
            return [x >= 0, t >= 0, t * t == x, (x == 0) == (t == 0)]
        return [
            z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)),
            z3.Implies(x == 0, t == 0),
            z3.Implies(x > 0, t > 0),
        ]

    def pair(t1, x1, t2, x2):
        g = z3.And(x1 >= 0, x2 >= 0)
        return [z3.Implies(z3.And(g, x1 < x2), t1 < t2), z3.Implies(z3.And(g, x2 < x1), t2 < t1)]

    t = uf_app("sqrt", a.v, (ax, pair))
    return _mk(t, b_or(a.nan, neg), a.pinf, False)


def r_intpow(a, n):
    a = as_real(a)
    if n == 0:
        return ONE
    if n < 0:
        return r_div(ONE, r_intpow(a, -n))
    r = a
    for _ in range(n - 1):
        r = r_mul(r, a)
    return r


def r_pow(a, b):
    a, b = as_real(a), as_real(b)
    if is_cr(b):
        if b.denominator == 1 and abs(b) <= 4:
            return r_intpow(a, int(b))
        if b == Fraction(1, 2):
            return r_sqrt(a)
        if b == Fraction(-1, 2):
            return r_div(ONE, r_sqrt(a))
        if is_cr(a) and a > 0:
            try:
                return frac_of_float(float(a) ** float(b))
            except OverflowError:
                return PINF
    if is_cr(a) and is_cr(b):
        if a == 0:
            return ZERO if b > 0 else PINF
        return NAN
    if is_cr(a) and a > 0 and a != 1:
        return r_exp(r_mul(b, _const_fun(math.log, a)))
    a_, b_ = _R(a), _R(b)
    c = ctx()
    f = uf("pow", 2)
    t = f(rv(a_.v), rv(b_.v))

    def ax(t, args):
        x, y = args
        return [
            z3.Implies(x > 0, t > 0),
            z3.Implies(y == 0, t == 1),
            z3.Implies(x == 1, t == 1),
            z3.Implies(z3.And(x > 0, y == 1), t == x),
            z3.Implies(z3.And(x == 0, y > 0), t == 0),
            z3.Implies(z3.And(x > 1, y > 0), t > 1),
            z3.Implies(z3.And(x > 0, x < 1, y > 0), t < 1),
            z3.Implies(z3.And(x > 1, y < 0), t < 1),
            z3.Implies(z3.And(x > 0, x < 1, y < 0), t > 1),
        ]

    c.uf_axioms("pow", t, (rv(a_.v), rv(b_.v)), (ax, None))
    neg = c.prune(r_negv(a))
    zneg = c.prune(b_and(r_zero(a), r_negv(b)))
    if not (flags_false(a_) and flags_false(b_)):
        # infinities as base/exponent: handled coarsely
        nan = b_or(a_.nan, b_.nan, neg, b_.pinf, b_.ninf)
        pinf = b_or(zneg, b_and(a_.pinf, r_pos(b)))
        v = vite(b_and(a_.pinf, r_negv(b)), ZERO, t)
        v = vite(b_and(a_.pinf, r_zero(b)), ONE, v)
        return _mk(v, nan, b_and(b_not(nan), pinf), False)
    return _ovf(_mk(t, neg, zneg, False))


def r_floor_int(a):
    """floor as an int scalar (finite arguments)."""
    a = as_real(a)
    if is_cr(a):
        return math.floor(a)
    return z3.ToInt(rv(a.v))


def _through_int(fi):
    def f(a):
        a = as_real(a)
        if is_cr(a):
            return Fraction(fi(a))
        return _mk(rv(as_real(fi(R(a.v))).v) if not is_cr(as_real(fi(R(a.v)))) else as_real(fi(R(a.v))), a.nan, a.pinf, a.ninf)

    return f


def i_ceil(a):
    a = as_real(a)
    if is_cr(a):
        return math.ceil(a)
    return -z3.ToInt(-rv(a.v))


def i_round_even(a):
    a = as_real(a)
    if is_cr(a):
        return round(a)
    c = ctx()
    x = rv(a.v)
    key = ("round", x.get_id())
    if key in c.memo:
        return c.memo[key][0]
    k = c.fresh_int("round")
    h = z3.RealVal("1/2")
    d = x - z3.ToReal(k)
    c.add(z3.And(d <= h, d >= -h))
    c.add(z3.Implies(z3.Or(d == h, d == -h), k % 2 == 0))
    c.memo[key] = (k, x)
    return k


def i_round_away(a):
    a = as_real(a)
    if is_cr(a):
        return int(math.floor(abs(a) + Fraction(1, 2))) * (1 if a >= 0 else -1)
    x = rv(a.v)
    h = z3.RealVal("1/2")
    return z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))


def i_trunc(a):
    a = as_real(a)
    if is_cr(a):
        return math.trunc(a)
    x = rv(a.v)
    # exact integers from ints: ToReal(k) -> k
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


r_floor = _through_int(r_floor_int)
r_ceil = _through_int(i_ceil)
r_round_even = _through_int(i_round_even)
r_round_away = _through_int(i_round_away)


# ----------------------------------------------------------------- integers
def i_bin(op):
    def f(a, b):
        if is_b(a):
            a = int(a)
        if is_b(b):
            b = int(b)
        return op(a, b)

    return f


i_add = i_bin(lambda a, b: a + b)
i_sub = i_bin(lambda a, b: a - b)


def i_mul(a, b):
    if is_ci(a) and a == 0 or is_ci(b) and b == 0:
        return 0
    return a * b


def i_div(a, b):
    """C-style truncating division; division by zero is -1 in XLA (all ones)."""
    if is_ci(a) and is_ci(b):
        if b == 0:
            return -1
        q = abs(a) // abs(b)
        return int(q if (a >= 0) == (b >= 0) else -q)
    a, b = to_z3i(a), to_z3i(b)
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a >= 0) == (b >= 0), q, -q)


def i_rem(a, b):
    if is_ci(a) and is_ci(b):
        if b == 0:
            return int(a)
        return int(a - b * i_div(a, b))
    return to_z3i(a) - to_z3i(b) * i_div(a, b)


def i_lt(a, b):
    return a < b


def i_le(a, b):
    return a <= b


def i_eq(a, b):
    if is_ci(a) and is_ci(b):
        return int(a) == int(b)
    return to_z3i(a) == to_z3i(b)


def i_ite(c, a, b):
    if is_b(c):
        return a if c else b
    if is_ci(a) and is_ci(b) and a == b:
        return a
    if not is_ci(a) and not is_ci(b) and a.eq(b):
        return a
    c = fork(c)
    if is_b(c):
        return a if c else b
    return z3.If(c, to_z3i(a), to_z3i(b))


def i_max(a, b):
    if is_ci(a) and is_ci(b):
        return max(a, b)
    return i_ite(to_z3i(a) < to_z3i(b), b, a)


def i_min(a, b):
    if is_ci(a) and is_ci(b):
        return min(a, b)
    return i_ite(to_z3i(b) < to_z3i(a), b, a)


def i_abs(a):
    if is_ci(a):
        return abs(a)
    return z3.If(a < 0, -a, a)


def i_sign(a):
    if is_ci(a):
        return int((a > 0) - (a < 0))
    return z3.If(a > 0, z3.IntVal(1), z3.If(a < 0, z3.IntVal(-1), z3.IntVal(0)))


def i_floor(x):
    return r_floor_int(x)
