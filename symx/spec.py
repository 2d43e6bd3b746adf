"""Scalars used by the checks to state expected values (same source for symbolic and concrete runs)."""
from fractions import Fraction
import functools

import numpy as np
import z3

from . import dom as D
from .dom import R


def _pure(f):
    """Specification arithmetic never overflows."""

    @functools.wraps(f)
    def g(*a, **k):
        c = D.ctx()
        if c is None:
            return f(*a, **k)
        old = c.overflow, c.fork_ite
        c.overflow = c.fork_ite = False
        try:
            return f(*a, **k)
        finally:
            c.overflow, c.fork_ite = old

    return g


class SB:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b.b if isinstance(b, SB) else b

    def __and__(self, o):
        return SB(D.b_and(self.b, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SB(D.b_or(self.b, bexpr(o)))

    __ror__ = __or__

    def __invert__(self):
        return SB(D.b_not(self.b))

    def __eq__(self, o):
        return SB(D.b_not(D.b_xor(self.b, bexpr(o))))

    def __ne__(self, o):
        return SB(D.b_xor(self.b, bexpr(o)))

    __hash__ = None

    def __bool__(self):
        if D.is_b(self.b):
            return bool(self.b)
        return bool(D.ctx().decide(self.b))


def bexpr(x):
    if isinstance(x, SB):
        return x.b
    if isinstance(x, Sc):
        return D.b_not(D.r_eq(x.e, D.ZERO))
    if hasattr(x, "data") and hasattr(x, "kind") and not isinstance(x, np.ndarray):
        e = x.data.ravel()[0] if isinstance(x.data, np.ndarray) else x.data
        if x.kind == "b":
            return e
        return D.b_not(D.r_eq(D.as_real(e), D.ZERO))
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


def rexpr(x):
    if isinstance(x, Sc):
        return x.e
    if isinstance(x, SB):
        return D.as_real(x.b)
    if hasattr(x, "data") and hasattr(x, "kind") and not isinstance(x, (np.ndarray, np.generic)):
        if x.data.size != 1:
            raise ValueError("not a scalar")
        return D.as_real(x.data.ravel()[0])
    if isinstance(x, (R, Fraction)):
        return x
    if isinstance(x, z3.ExprRef):
        return D.as_real(x)
    if isinstance(x, (np.ndarray,)) or hasattr(x, "__jax_array__") or type(x).__module__.startswith("jax"):
        return D.as_real(np.asarray(x).reshape(-1)[0])
    return D.as_real(x)


def _bin(fn, swap=False):
    @_pure
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = rexpr(o)
        return Sc(fn(o, self.e) if swap else fn(self.e, o))

    return f


def _cmp(fn):
    @_pure
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return SB(fn(self.e, rexpr(o)))

    return f


class Sc:
    """Extended-real scalar."""

    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = rexpr(e)

    __add__ = _bin(D.r_add)
    __radd__ = _bin(D.r_add, True)
    __sub__ = _bin(D.r_sub)
    __rsub__ = _bin(D.r_sub, True)
    __mul__ = _bin(D.r_mul)
    __rmul__ = _bin(D.r_mul, True)
    __truediv__ = _bin(D.r_div)
    __rtruediv__ = _bin(D.r_div, True)
    __pow__ = _bin(D.r_pow)
    __rpow__ = _bin(D.r_pow, True)
    __lt__ = _cmp(D.r_lt)
    __le__ = _cmp(D.r_le)
    __gt__ = _cmp(lambda a, b: D.r_lt(b, a))
    __ge__ = _cmp(lambda a, b: D.r_le(b, a))
    __eq__ = _cmp(D.r_eq)
    __ne__ = _cmp(lambda a, b: D.b_not(D.r_eq(a, b)))
    __hash__ = None

    def __neg__(self):
        return Sc(D.r_neg(self.e))

    def __abs__(self):
        return absv(self)

    def __bool__(self):
        raise TypeError("truth value of a specification scalar")

    def __repr__(self):
        return f"Sc({self.e})"

    @property
    def finite(self):
        return SB(D.fin(self.e))

    @property
    def isnan(self):
        return SB(D.isnan(self.e))

    @property
    def isinf(self):
        return SB(D.isinf(self.e))

    @property
    def isninf(self):
        return SB(False if D.is_cr(self.e) else self.e.ninf)

    @property
    def ispinf(self):
        return SB(False if D.is_cr(self.e) else self.e.pinf)

    @property
    def is_int(self):
        """Is the (finite) value an integer?"""
        return SB(D.b_and(D.fin(self.e), D.r_eq(self.e, D.as_real(D.r_floor_int(self.e)))))


def _fn(f):
    f = _pure(f)
    return lambda x: Sc(f(rexpr(x)))


exp = _fn(D.r_exp)
log = _fn(D.r_log)
sqrt = _fn(D.r_sqrt)
erf = _fn(D.r_erf)
sin = _fn(D.r_sin)
cos = _fn(D.r_cos)
floor = _fn(lambda e: D.as_real(D.r_floor_int(e)))
ceil = _fn(lambda e: D.as_real(D.i_ceil(e)))
rnd = _fn(lambda e: D.as_real(D.i_round_even(e)))
absv = _fn(D.r_abs)


@_pure
def ite(c, a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return SB(D.b_ite(bexpr(c), bexpr(a), bexpr(b)))
    return Sc(D.r_ite(bexpr(c), rexpr(a), rexpr(b)))


def all_(*xs):
    return SB(D.b_and(*[bexpr(x) for x in _flat(xs)]))


def any_(*xs):
    return SB(D.b_or(*[bexpr(x) for x in _flat(xs)]))


def not_(x):
    return SB(D.b_not(bexpr(x)))


def implies(a, b):
    return SB(D.b_or(D.b_not(bexpr(a)), bexpr(b)))


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
            yield from _flat(list(x))
        elif hasattr(x, "__next__"):
            yield from _flat(list(x))
        else:
            yield x


@_pure
def sum_(xs):
    r = D.ZERO
    for x in _flat([xs]):
        r = D.r_add(r, rexpr(x))
    return Sc(r)


@_pure
def prod_(xs):
    r = D.ONE
    for x in _flat([xs]):
        r = D.r_mul(r, rexpr(x))
    return Sc(r)


@_pure
def min_(*xs):
    xs = list(_flat(xs))
    r = rexpr(xs[0])
    for x in xs[1:]:
        r = D.r_min(r, rexpr(x))
    return Sc(r)


@_pure
def max_(*xs):
    xs = list(_flat(xs))
    r = rexpr(xs[0])
    for x in xs[1:]:
        r = D.r_max(r, rexpr(x))
    return Sc(r)


def clip(x, lo, hi):
    return min_(max_(x, lo), hi)


@_pure
def same(a, b):
    return SB(D.r_same(rexpr(a), rexpr(b)))


def near(a, b, rtol, atol):
    """Same extended real, or both finite and within tolerance."""
    a, b = rexpr(a), rexpr(b)
    d = D.r_abs(D.r_sub(a, b))
    tol = D.r_add(Fraction(str(atol)), D.r_mul(Fraction(str(rtol)), D.r_abs(b)))
    return SB(D.b_or(D.r_same(a, b), D.b_and(D.fin(a), D.fin(b), D.r_le(d, tol))))


near = _pure(near)


def scs(x):
    """Numeric array-like -> numpy object array of Sc (or a single Sc for scalars)."""
    if isinstance(x, Sc):
        return x
    if hasattr(x, "kind") and hasattr(x, "data") and not isinstance(x, (np.ndarray, np.generic)):  # SymArray / SA
        d = x.data
    elif isinstance(x, np.ndarray) and x.dtype == object:
        d = x
    elif isinstance(x, (list, tuple)):
        if not x:
            return np.empty((0,), dtype=object)
        parts = [scs(e) for e in x]
        if isinstance(parts[0], np.ndarray):
            out = np.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                if p.shape != parts[0].shape:
                    raise ValueError("ragged")
                out[i] = p
            return out
        out = np.empty((len(parts),), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    else:
        d = np.asarray(x)
    if d.ndim == 0:
        return Sc(rexpr(d[()]))
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape):
        out[i] = Sc(rexpr(d[i]))
    return out


def shape_of(x):
    if isinstance(x, Sc):
        return ()
    return tuple(np.shape(x)) if not hasattr(x, "shape") else tuple(x.shape)


@_pure
def linear(x, xs, vs):
    """Linear interpolant between increasing nodes, for x inside them.

    In the solver run the value gets a name (the same for the same arguments) that is known to lie between the values."""
    x, X, Y = Sc(x), [Sc(a) for a in xs], [Sc(a) for a in vs]
    r = Y[-1]
    for i in range(len(X) - 2, -1, -1):
        r = ite(x < X[i + 1], Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i]), r)
    r = ite(x < X[0], Y[0], ite(x > X[-1], Y[-1], r))
    c = D.ctx()
    flags = (lambda e: isinstance(e, R) and not all(f is False for f in (e.nan, e.pinf, e.ninf)))
    if c is None or any(flags(a.e) for a in (x, *X, *Y)):
        return r
    t = [D.rv(a.e.v if isinstance(a.e, R) else a.e) for a in (r, x, *X, *Y)]
    if not z3.is_expr(t[0]) or z3.is_rational_value(z3.simplify(t[0])):
        return r
    key = ("linear", *[z3.simplify(a).get_id() for a in t[1:]])
    if key not in c.memo:
        v = c.fresh_real("linear")
        ys = t[2 + len(X) :]
        c.add(v == t[0])
        c.add(z3.And(z3.Or(*[v >= y for y in ys]), z3.Or(*[v <= y for y in ys])))
        iv = [c.box.iv(y) for y in ys]
        if all(i[0] > -1e30 for i in iv):
            c.add(v >= D.rv(Fraction(min(i[0] for i in iv))))
        if all(i[1] < 1e30 for i in iv):
            c.add(v <= D.rv(Fraction(max(i[1] for i in iv))))
        c.memo[key] = (v, t)
    return Sc(R(c.memo[key][0]))
