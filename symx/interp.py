"""Symbolic interpreter over jaxprs of the real code (elements from symx.dom)."""
import functools
import itertools
from fractions import Fraction
import numpy as np
import z3
import jax
import jax.numpy as jnp
from jax import lax
from jax.extend import core as jcore

from . import dom as D
from .dom import Unsupported, R, ctx


# --------------------------------------------------------------- PRNG keys
KeySort = z3.Datatype("PRNGKey")
KeySort.declare("root", ("rid", z3.IntSort()))
KeySort.declare("child", ("parent", KeySort), ("idx", z3.IntSort()))
KeySort.declare("fold", ("fparent", KeySort), ("fidx", z3.IntSort()))
KeySort = KeySort.create()


class KW:
    """i-th raw word of a key."""

    __slots__ = ("key", "i")

    def __init__(self, key, i):
        self.key, self.i = key, i

    def word(self):
        # the bits of a key are opaque
        return z3.Int(f"key_word{self.i}_{self.key.get_id()}")


def kind_of(dtype):
    if dtype is None:
        return "f"
    if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key):
        return "k"
    return np.dtype(dtype).kind if np.dtype(dtype).kind in "biuf" else np.dtype(dtype).name[0]


def is_sym_elem(e):
    return isinstance(e, (R, z3.ExprRef, KW)) and not (e is D.NAN or e is D.PINF or e is D.NINF)


class SA:
    """Array of scalar terms inside the interpreter."""

    __slots__ = ("data", "dtype")

    def __init__(self, data, dtype):
        self.data = data
        self.dtype = dtype

    @property
    def shape(self):
        return self.data.shape

    @property
    def kind(self):
        return kind_of(self.dtype)


def obj(shape):
    return np.empty(shape, dtype=object)


def full_obj(shape, v):
    a = obj(shape)
    a.fill(v) if a.ndim else a.__setitem__((), v)
    return a


def lift_np(x, dtype=None):
    """Concrete array -> SA."""
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        raise Unsupported("typed concrete keys")
    x = np.asarray(x)
    dt = dtype or x.dtype
    out = obj(x.shape)
    k = kind_of(dt)
    it = np.ndindex(*x.shape)
    for i in it:
        v = x[i]
        if k == "b":
            out[i] = bool(v)
        elif k in "iu":
            out[i] = int(v)
        else:
            out[i] = D.frac_of_float(v)
    return SA(out, dt)


def to_sa(x, dtype=None):
    if isinstance(x, SA):
        return x
    return lift_np(x, dtype)


def emap(fn, *arrs):
    arrs = [a.data if isinstance(a, SA) else a for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = obj(shape)
    for i in np.ndindex(*shape):
        out[i] = fn(*[a[i] for a in arrs])
    return out


# ------------------------------------------------------------ element ops
def e_add(k):
    return D.r_add if k == "f" else (D.i_add if k in "iu" else D.b_or)


def e_ite(k):
    if k == "f":
        return D.r_ite
    if k in "iu":
        def f(c, a, b):
            if isinstance(a, KW) or isinstance(b, KW):
                return k_ite(c, a, b)
            return D.i_ite(c, a, b)
        return f
    if k == "k":
        return lambda c, a, b: (a if c else b) if D.is_b(c) else z3.If(c, a, b)
    return D.b_ite


def k_ite(c, a, b):
    if D.is_b(c):
        return a if c else b
    if isinstance(a, KW) and isinstance(b, KW) and a.i == b.i:
        return KW(z3.If(c, a.key, b.key), a.i)
    raise Unsupported("select between a key and a number")


def e_lt(k):
    return D.r_lt if k == "f" else (D.i_lt if k in "iu" else (lambda a, b: D.b_and(D.b_not(a), b)))


def e_le(k):
    return D.r_le if k == "f" else (D.i_le if k in "iu" else (lambda a, b: D.b_or(D.b_not(a), b)))


def _key_eq(a, b):
    if isinstance(a, KW) and isinstance(b, KW):
        return a.key == b.key if a.i == b.i else ctx().fresh_bool("kw_eq")
    return D.i_eq(a, b)


def e_eq(k):
    if k == "f":
        return D.r_eq
    if k in "iu":
        return _key_eq
    return lambda a, b: D.b_not(D.b_xor(a, b))


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def _out_dtype(eqn, i=0):
    return eqn.outvars[i].aval.dtype


def _binary(name, rf, if_, bf=None):
    def f(eqn, a, b):
        k = a.kind
        fn = rf if k == "f" else (if_ if k in "iu" else bf)
        if fn is None:
            raise Unsupported(f"{name} on {a.dtype}")
        return SA(emap(fn, a, b), _out_dtype(eqn))

    RULES[name] = f


def _no(*a):
    raise Unsupported("operation not modelled")


_binary("add", D.r_add, D.i_add, D.b_or)
_binary("add_any", D.r_add, D.i_add, D.b_or)
_binary("sub", D.r_sub, D.i_sub)
_binary("mul", D.r_mul, D.i_mul, D.b_and)
_binary("div", D.r_div, D.i_div)
_binary("max", D.r_max, D.i_max, D.b_or)
_binary("min", D.r_min, D.i_min, D.b_and)
_binary("eq", D.r_eq, _key_eq, lambda a, b: D.b_not(D.b_xor(a, b)))
_binary("ne", lambda a, b: D.b_not(D.r_eq(a, b)), lambda a, b: D.b_not(_key_eq(a, b)), D.b_xor)
_binary("lt", D.r_lt, D.i_lt, e_lt("b"))
_binary("le", D.r_le, D.i_le, e_le("b"))
_binary("gt", lambda a, b: D.r_lt(b, a), lambda a, b: D.i_lt(b, a), lambda a, b: e_lt("b")(b, a))
_binary("ge", lambda a, b: D.r_le(b, a), lambda a, b: D.i_le(b, a), lambda a, b: e_le("b")(b, a))
_binary("lt_to", D.r_lt, D.i_lt)
_binary("le_to", D.r_le, D.i_le)
_binary("and", None, lambda a, b: a & b if D.is_ci(a) and D.is_ci(b) else _no(), D.b_and)
_binary("or", None, lambda a, b: a | b if D.is_ci(a) and D.is_ci(b) else _no(), D.b_or)
_binary("xor", None, lambda a, b: a ^ b if D.is_ci(a) and D.is_ci(b) else _no(), D.b_xor)


def _r_rem(a, b):
    if D.is_cr(a) and D.is_cr(b) and b != 0:
        import math

        return a - b * math.trunc(a / b)
    q = D.r_div(a, b)
    return D.r_sub(a, D.r_mul(b, D.as_real(D.i_trunc(q))))


_binary("rem", _r_rem, D.i_rem)


def _r_atan2(a, b):
    raise Unsupported("atan2")


_binary("atan2", _r_atan2, None)


@rule("pow")
def _pow(eqn, a, b):
    if b.kind in "iu":
        b = SA(emap(D.as_real, b), np.float32)
    return SA(emap(D.r_pow, a, b), _out_dtype(eqn))


def _unary(name, rf, if_=None, bf=None):
    def f(eqn, a):
        k = a.kind
        fn = rf if k == "f" else (if_ if k in "iu" else bf)
        if fn is None:
            raise Unsupported(f"{name} on {a.dtype}")
        return SA(emap(fn, a), _out_dtype(eqn))

    RULES[name] = f


_unary("neg", D.r_neg, lambda a: -a)
_unary("sign", D.r_sign, D.i_sign)
_unary("abs", D.r_abs, D.i_abs)
_unary("floor", D.r_floor)
_unary("ceil", D.r_ceil)
_unary("exp", D.r_exp)
_unary("log", D.r_log)
_unary("log1p", D.r_log1p)
_unary("expm1", D.r_expm1)
_unary("sqrt", D.r_sqrt)
_unary("rsqrt", lambda a: D.r_div(D.ONE, D.r_sqrt(a)))
_unary("square", lambda a: D.r_mul(a, a), lambda a: D.i_mul(a, a))
_unary("sin", D.r_sin)
_unary("cos", D.r_cos)
_unary("tan", D.r_tan)
_unary("tanh", D.r_tanh)
_unary("erf", D.r_erf)
_unary("erfc", D.r_erfc)
_unary("lgamma", D.r_lgamma)
_unary("digamma", D.r_digamma)
_unary("logistic", D.r_logistic)
_unary("not", None, None, D.b_not)
_unary("is_finite", D.fin)
_unary("copy", lambda a: a, lambda a: a, lambda a: a)
_unary("copy_p", lambda a: a, lambda a: a, lambda a: a)
_unary("stop_gradient", lambda a: a, lambda a: a, lambda a: a)
_unary("optimization_barrier", lambda a: a, lambda a: a, lambda a: a)
_unary("reduce_precision", lambda a: a)
_unary("real", lambda a: a)
_unary("cbrt", lambda a: D.r_mul(D.r_sign(a), D.r_pow(D.r_abs(a), Fraction(1, 3))))
_unary("log2", lambda a: D.r_div(D.r_log(a), D.frac_of_float(0.6931471805599453)))
_unary("one_minus_square", lambda a: D.r_sub(D.ONE, D.r_mul(a, a)))
_unary("sinh", lambda a: D.r_div(D.r_sub(D.r_exp(a), D.r_exp(D.r_neg(a))), Fraction(2)))
_unary("cosh", lambda a: D.r_div(D.r_add(D.r_exp(a), D.r_exp(D.r_neg(a))), Fraction(2)))
_unary("atan", D.r_atan)
_unary("erf_inv", D.r_erfinv)
_unary("conj", lambda a: a)
_unary("exp2", lambda a: D.r_pow(Fraction(2), a))


@rule("integer_pow")
def _ipow(eqn, a):
    y = eqn.params["y"]
    if a.kind == "f":
        return SA(emap(lambda x: D.r_intpow(x, y), a), _out_dtype(eqn))

    def f(x):
        r = 1
        for _ in range(y):
            r = r * x
        return r

    return SA(emap(f, a), _out_dtype(eqn))


@rule("round")
def _round(eqn, a):
    m = eqn.params["rounding_method"]
    fn = D.r_round_even if m == lax.RoundingMethod.TO_NEAREST_EVEN else D.r_round_away
    return SA(emap(fn, a), _out_dtype(eqn))


@rule("select_n")
def _select(eqn, c, *cases):
    k = cases[0].kind
    ite = e_ite(k)
    if c.kind == "b":
        f_, t_ = cases

        def fn(c_, a, b):
            return ite(c_, b, a)

        return SA(emap(fn, c, f_, t_), _out_dtype(eqn))

    def fn(c_, *xs):
        r = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            r = ite(D.i_eq(c_, i), xs[i], r)
        return r

    return SA(emap(fn, c, *cases), _out_dtype(eqn))


@rule("clamp")
def _clamp(eqn, lo, x, hi):
    if x.kind == "f":
        return SA(emap(lambda l, v, h: D.r_min(D.r_max(l, v), h), lo, x, hi), _out_dtype(eqn))
    return SA(emap(lambda l, v, h: D.i_min(D.i_max(l, v), h), lo, x, hi), _out_dtype(eqn))


def convert_elem(e, kf, kt):
    if kf == kt:
        return e
    if kt == "f":
        return D.as_real(e) if kf != "k" else _no()
    if kt in "iu":
        if kf == "b":
            return int(e) if D.is_b(e) else z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if kf in "iu":
            return e
        e = D.as_real(e)
        if D.is_cr(e):
            return int(e)  # truncation
        t = D.i_trunc(e)
        bad = D.b_not(D.fin(e))
        bad = ctx().prune(bad)
        if bad is False:
            return t
        return D.i_ite(bad, ctx().fresh_int("nan_to_int"), t)
    if kt == "b":
        if kf == "f":
            return D.b_not(D.r_eq(e, D.ZERO))
        return D.b_not(D.i_eq(e, 0))
    _no()


@rule("convert_element_type")
def _convert(eqn, a):
    dt = _out_dtype(eqn)
    kf, kt = a.kind, kind_of(dt)
    return SA(emap(lambda e: convert_elem(e, kf, kt), a), dt)


@rule("iota")
def _iota(eqn):
    p = eqn.params
    sh = p["shape"]
    return lift_np(np.asarray(lax.iota_p.bind(**p)), p["dtype"])


# ------------------------------------------------------- data movement
_MOVE = (
    "reshape broadcast_in_dim transpose squeeze slice rev expand_dims concatenate "
    "split unstack pad tile"
).split()


def _run_prim(eqn, *vals):
    subfuns, params = eqn.primitive.get_bind_params(eqn.params)
    return eqn.primitive.bind(*subfuns, *vals, **params)


def move(eqn, *args):
    """Run the real primitive on index arrays and permute elements accordingly."""
    off = 0
    pools, idx = [], []
    for a in args:
        n = int(np.prod(a.shape)) if a.shape else 1
        idx.append(np.arange(off, off + n, dtype=np.int32).reshape(a.shape))
        pools.append(a.data.ravel())
        off += n
    pool = np.concatenate(pools) if pools else obj((0,))
    with jax.ensure_compile_time_eval():
        out = _run_prim(eqn, *[jnp.asarray(i) for i in idx])
    multi = eqn.primitive.multiple_results
    outs = out if multi else [out]
    res = []
    for j, o in enumerate(outs):
        o = np.asarray(o)
        d = obj(o.shape)
        for i in np.ndindex(*o.shape):
            d[i] = pool[int(o[i])]
        res.append(SA(d, _out_dtype(eqn, j)))
    return res if multi else res[0]


for _n in _MOVE:
    RULES[_n] = move


def _native(*names):
    def deco(f):
        def g(eqn, *args):
            return SA(f(eqn.params, *[a.data for a in args]), _out_dtype(eqn))

        for n in names:
            RULES[n] = g
        return f

    return deco


def _oarr(d):
    """numpy drops 0-d object arrays to scalars"""
    if isinstance(d, np.ndarray) and d.dtype == object:
        return d
    a = obj(())
    a[()] = d
    return a


@_native("reshape")
def _reshape(p, a):
    if p.get("dimensions") is not None:
        raise Unsupported("reshape with dimensions")
    return a.reshape(tuple(int(d) for d in p["new_sizes"]))


@_native("broadcast_in_dim")
def _bcast(p, a, *dyn):
    sh, bd = tuple(p["shape"]), tuple(p["broadcast_dimensions"])
    tmp = [1] * len(sh)
    for i, d in enumerate(bd):
        tmp[d] = a.shape[i]
    return np.broadcast_to(a.reshape(tmp), sh).copy()


@_native("transpose")
def _transp(p, a):
    return a.transpose(p["permutation"])


@_native("squeeze")
def _squeeze(p, a):
    sh = [s for d, s in enumerate(a.shape) if d not in p["dimensions"]]
    return a.reshape(sh)


@_native("slice")
def _slice(p, a):
    st, li, sr = p["start_indices"], p["limit_indices"], p["strides"] or (1,) * a.ndim
    return _oarr(a[tuple(slice(x, y, z) for x, y, z in zip(st, li, sr))])


@_native("rev")
def _rev(p, a):
    return _oarr(np.flip(a, p["dimensions"]))


@_native("concatenate")
def _concat(p, *a):
    return np.concatenate(a, p["dimension"])


@_native("pad")
def _pad(p, a, v):
    cfg = p["padding_config"]
    if any(i or l < 0 or h < 0 for l, h, i in cfg):
        raise Unsupported("negative or interior padding")
    out = obj(tuple(s + l + h for s, (l, h, i) in zip(a.shape, cfg)))
    out[...] = v[()]
    out[tuple(slice(l, l + s) for s, (l, h, i) in zip(a.shape, cfg))] = a
    return out


@_native("stack")
def _stack(p, *a):
    return np.stack(a, p["axis"])


@_native("tile")
def _tile(p, a):
    return np.tile(a, p["reps"])


@rule("unstack")
def _unstack(eqn, a):
    ax = eqn.params["axis"]
    m = np.moveaxis(a.data, ax, 0)
    return [SA(_oarr(m[i]), _out_dtype(eqn, i)) for i in range(m.shape[0])]


@rule("split")
def _split(eqn, a):
    p = eqn.params
    out, off = [], 0
    for j, z in enumerate(p["sizes"]):
        sl = [slice(None)] * a.data.ndim
        sl[p["axis"]] = slice(off, off + z)
        out.append(SA(a.data[tuple(sl)], _out_dtype(eqn, j)))
        off += z
    return out


# ------------------------------------------------------- reductions
def _reduce(name, fnk, init=None):
    def f(eqn, a):
        axes = eqn.params["axes"]
        fn = fnk(a.kind)
        d = np.moveaxis(a.data, axes, range(len(axes)))
        rest = d.shape[len(axes):]
        d = d.reshape((-1,) + rest)
        out = obj(rest)
        for i in np.ndindex(*rest):
            col = [d[(j,) + i] for j in range(d.shape[0])]
            out[i] = fn(col, a.kind)
        return SA(out, _out_dtype(eqn))

    RULES[name] = f


def _fold(op, init):
    def g(k):
        o = op(k)

        def fn(col, k):
            r = init(k)
            for c in col:
                r = o(r, c.word() if isinstance(c, KW) else c)
            return r

        return fn

    return g


_reduce("reduce_sum", _fold(e_add, lambda k: D.ZERO if k == "f" else 0))
_reduce("reduce_prod", _fold(lambda k: D.r_mul if k == "f" else D.i_mul, lambda k: D.ONE if k == "f" else 1))
_reduce("reduce_and", _fold(lambda k: D.b_and, lambda k: True))
_reduce("reduce_or", _fold(lambda k: D.b_or, lambda k: False))


def _fold1(op):
    def g(k):
        o = op(k)

        def fn(col, k):
            if not col:
                raise Unsupported("empty reduction")
            r = col[0]
            for c in col[1:]:
                r = o(r, c)
            return r

        return fn

    return g


_reduce("reduce_max", _fold1(lambda k: D.r_max if k == "f" else (D.i_max if k in "iu" else D.b_or)))
_reduce("reduce_min", _fold1(lambda k: D.r_min if k == "f" else (D.i_min if k in "iu" else D.b_and)))


def _arg(name, better_k):
    def f(eqn, a):
        (ax,) = eqn.params["axes"]
        k = a.kind
        better = better_k(k)
        d = np.moveaxis(a.data, ax, 0)
        rest = d.shape[1:]
        out = obj(rest)
        for i in np.ndindex(*rest):
            best, bi = d[(0,) + i], 0
            for j in range(1, d.shape[0]):
                c = d[(j,) + i]
                b = better(c, best)
                if k == "f":
                    b = D.b_and(D.b_not(D.isnan(D.as_real(best))), D.b_or(b, D.isnan(D.as_real(c))))
                best = e_ite(k)(b, c, best)
                bi = D.i_ite(b, j, bi)
            out[i] = bi
        return SA(out, _out_dtype(eqn))

    RULES[name] = f


_arg("argmin", lambda k: e_lt(k))
_arg("argmax", lambda k: (lambda a, b: e_lt(k)(b, a)))


def _cum(name, opk):
    def f(eqn, a):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        o = opk(a.kind)
        d = np.moveaxis(a.data, ax, 0)
        if rev:
            d = d[::-1]
        out = obj(d.shape)
        for i in np.ndindex(*d.shape[1:]):
            r = None
            for j in range(d.shape[0]):
                e = d[(j,) + i]
                r = e if r is None else o(r, e)
                out[(j,) + i] = r
        if rev:
            out = out[::-1]
        return SA(np.moveaxis(out, 0, ax), _out_dtype(eqn))

    RULES[name] = f


_cum("cumsum", e_add)
_cum("cumprod", lambda k: D.r_mul if k == "f" else D.i_mul)
_cum("cummax", lambda k: D.r_max if k == "f" else D.i_max)
_cum("cummin", lambda k: D.r_min if k == "f" else D.i_min)


@rule("sort")
def _sort(eqn, *ops):
    p = eqn.params
    ax, nk = p["dimension"], p["num_keys"]
    ds = [np.moveaxis(o.data, ax, 0).copy() for o in ops]
    n = ds[0].shape[0]
    kinds = [o.kind for o in ops]

    def nlt(k):
        if k != "f":
            return e_lt(k)

        def f(a, b):  # total order with NaN last
            a, b = D.as_real(a), D.as_real(b)
            return D.b_or(D.r_lt(a, b), D.b_and(D.b_not(D.isnan(a)), D.isnan(b)))

        return f

    for i in np.ndindex(*ds[0].shape[1:]):
        cols = [[d[(j,) + i] for j in range(n)] for d in ds]
        for a in range(1, n):
            for b in range(a, 0, -1):
                # swap if row b < row b-1 lexicographically (stable)
                c = False
                eq_ = True
                for q in range(nk):
                    k = kinds[q]
                    c = D.b_or(c, D.b_and(eq_, nlt(k)(cols[q][b], cols[q][b - 1])))
                    eq_ = D.b_and(
                        eq_,
                        D.b_not(nlt(k)(cols[q][b], cols[q][b - 1])),
                        D.b_not(nlt(k)(cols[q][b - 1], cols[q][b])),
                    )
                if c is False:
                    continue
                for q in range(len(cols)):
                    x, y = cols[q][b - 1], cols[q][b]
                    cols[q][b - 1] = e_ite(kinds[q])(c, y, x)
                    cols[q][b] = e_ite(kinds[q])(c, x, y)
        for q in range(len(cols)):
            for j in range(n):
                ds[q][(j,) + i] = cols[q][j]
    return [SA(np.moveaxis(d, 0, ax), _out_dtype(eqn, j)) for j, d in enumerate(ds)]


@rule("top_k")
def _topk(eqn, a):
    k = eqn.params["k"]
    assert eqn.params.get("axis", a.data.ndim - 1) in (a.data.ndim - 1, -1)
    kd = a.kind
    sh = a.shape[:-1]
    n = a.shape[-1]
    vals, inds = obj(sh + (k,)), obj(sh + (k,))
    for i in np.ndindex(*sh):
        xs = [(a.data[i + (j,)], j) for j in range(n)]
        # stable partial selection sort by bubbling
        cur = list(xs)
        for r in range(k):
            for b in range(len(cur) - 1, r, -1):
                c = e_lt(kd)(cur[b - 1][0], cur[b][0])
                # ties: lower index first
                tie = D.b_and(e_eq(kd)(cur[b - 1][0], cur[b][0]), D.i_lt(cur[b][1], cur[b - 1][1]))
                c = D.b_or(c, tie)
                x, y = cur[b - 1], cur[b]
                cur[b - 1] = (e_ite(kd)(c, y[0], x[0]), D.i_ite(c, y[1], x[1]))
                cur[b] = (e_ite(kd)(c, x[0], y[0]), D.i_ite(c, x[1], y[1]))
            vals[i + (r,)], inds[i + (r,)] = cur[r]
    return [SA(vals, _out_dtype(eqn, 0)), SA(inds, _out_dtype(eqn, 1))]


# ------------------------------------------------------- searchsorted
def searchsorted_sa(a, v, side, batch=0):
    """count of elements strictly below (left) / not above (right) -- a must be sorted."""
    k = a.kind

    def cnt(col, q):
        r = 0
        for e in col:
            if side == "left":
                c = e_lt(k)(e, q)
                if k == "f":
                    c = D.b_or(c, D.b_and(D.isnan(D.as_real(q)), D.b_not(D.isnan(D.as_real(e)))))
            else:
                c = e_le(k)(e, q)
                if k == "f":
                    c = D.b_or(c, D.isnan(D.as_real(q)))
            r = D.i_add(r, int(c) if D.is_b(c) else z3.If(c, z3.IntVal(1), z3.IntVal(0)))
        return r

    # sortedness is required by the contract of searchsorted: check it is implied
    out = obj(v.shape)
    if batch == 0:
        cols = list(a.data)
        _require_sorted(cols, k)
        for i in np.ndindex(*v.shape):
            out[i] = cnt(cols, v.data[i])
    else:
        for b in np.ndindex(*v.shape[:batch]):
            cols = list(a.data[b])
            _require_sorted(cols, k)
            for i in np.ndindex(*v.shape[batch:]):
                out[b + i] = cnt(cols, v.data[b + i])
    return out


def _require_sorted(cols, k):
    conds = []
    for x, y in zip(cols, cols[1:]):
        c = e_le(k)(x, y)
        if c is not True:
            conds.append(c)
    if conds:
        c = D.b_and(*conds)
        try:
            ctx().side_condition(c, "searchsorted on a possibly unsorted array")
        except Unsupported:
            raise Unsorted()


class Unsorted(Exception):
    pass


def _expand(eqn, prim, args):
    """A high-level primitive as the program it stands for."""
    avals = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
    j = jax.make_jaxpr(prim.expand)(*avals)
    return eval_jaxpr(j.jaxpr, j.consts, args)


@rule("call_hi_primitive")
def _hi(eqn, *args):
    prim = eqn.params["_prim"]
    name = type(prim).__name__
    if name == "SearchSorted":
        p = prim.params if hasattr(prim, "params") else vars(prim)
        get = lambda n: p[n] if isinstance(p, dict) and n in p else getattr(prim, n)
        side, dim, bd = get("side"), get("dimension"), get("batch_dims")
        a, v = args
        nb = bd if isinstance(bd, int) else len(bd)
        if a.data.ndim == nb + 1 and dim in (nb, a.data.ndim - 1):
            try:
                return SA(searchsorted_sa(a, v, side, nb), _out_dtype(eqn))
            except Unsorted:
                pass  # the binary search itself
    if hasattr(prim, "expand"):
        return _expand(eqn, prim, args)
    raise Unsupported(f"hi primitive {name}")


# ------------------------------------------------------- gather / scatter
def _all_conc(sa):
    return all(D.is_ci(e) for e in sa.data.ravel())


def _np_int(sa):
    return np.array([int(e) for e in sa.data.ravel()], dtype=np.int32).reshape(sa.shape)


def _mode(m):
    return m.name if hasattr(m, "name") else str(m)


def _index_candidates(vals, ranges):
    """Concretise symbolic index components by path forks (ctx.fork_index) or leave as is."""
    return vals


def _conc_rows(idx, bounds):
    """Fork on symbolic index components."""
    conc = obj(idx.shape)
    for i in np.ndindex(*idx.shape):
        e = idx[i]
        if not D.is_ci(e):
            b = bounds[i[-1]]
            e2 = z3.If(e < 0, z3.IntVal(-1), z3.If(e > b, z3.IntVal(b + 1), e))
            e = ctx().concretize_int(e2, range(-1, b + 2))
        conc[i] = e
    return conc


@rule("gather")
def _gather(eqn, operand, indices):
    p = eqn.params
    dn = p["dimension_numbers"]
    mode = _mode(p["mode"])
    sizes = p["slice_sizes"]
    out_sh = eqn.outvars[0].aval.shape
    dims = dn.start_index_map
    bounds = [operand.shape[d] - sizes[d] for d in dims]
    k = operand.kind
    fill = p.get("fill_value")
    if fill is None:
        fill = D.NAN if k == "f" else (-(2**31) if k == "i" else (2**32 - 1 if k == "u" else True))
    else:
        fill = lift_np(np.asarray(fill), operand.dtype).data[()]
    bdims = [d for d in range(len(out_sh)) if d not in dn.offset_dims]
    win_dims = [d for d in range(operand.data.ndim) if d not in dn.collapsed_slice_dims and d not in dn.operand_batching_dims]
    idx = indices.data
    if ctx().fork_index and not _all_conc(indices):
        idx = _conc_rows(idx, bounds)
    rows = {}
    out = obj(out_sh)

    def row_cases(r):
        """[(condition, start)] plus out-of-bounds condition"""
        if r in rows:
            return rows[r]
        comps = [idx[r + (j,)] for j in range(len(dims))]
        oob = False
        for e, b in zip(comps, bounds):
            oob = D.b_or(oob, D.i_lt(e, 0), D.i_lt(b, e))
        if all(D.is_ci(e) for e in comps):
            cases = [(True, tuple(min(max(int(e), 0), b) for e, b in zip(comps, bounds)))]
        else:
            cl = [D.i_min(D.i_max(e, 0), b) for e, b in zip(comps, bounds)]
            opts = [[int(e)] if D.is_ci(e) else range(b + 1) for e, b in zip(cl, bounds)]
            cases = [(D.b_and(*[D.i_eq(x, y) for x, y in zip(cl, c)]), c) for c in itertools.product(*opts)]
        rows[r] = (cases, oob)
        return rows[r]

    ite = e_ite(k)
    for o in np.ndindex(*out_sh):
        bc = tuple(o[d] for d in bdims)
        base = [0] * operand.data.ndim
        for d, od in zip(win_dims, dn.offset_dims):
            base[d] = o[od]
        for d, q in zip(dn.operand_batching_dims, dn.start_indices_batching_dims):
            base[d] = bc[q]
        cases, oob = row_cases(bc)
        if mode == "FILL_OR_DROP" and oob is True:
            out[o] = fill
            continue
        r = None
        for cond, start in cases:
            pos = list(base)
            for d, st in zip(dims, start):
                pos[d] += st
            e = operand.data[tuple(pos)]
            r = e if r is None else ite(cond, e, r)
        if mode == "FILL_OR_DROP" and oob is not False:
            r = ite(oob, fill, r)
        out[o] = r
    return SA(out, _out_dtype(eqn))


def _scatter_common(eqn, operand, indices, updates, combine):
    p = eqn.params
    dn = p["dimension_numbers"]
    mode = _mode(p["mode"])
    k = operand.kind
    dims = dn.scatter_dims_to_operand_dims
    win_op = [d for d in range(operand.data.ndim) if d not in dn.inserted_window_dims and d not in dn.operand_batching_dims]
    wsize = {d: updates.shape[u] for d, u in zip(win_op, dn.update_window_dims)}
    bounds = [operand.shape[d] - wsize.get(d, 1) for d in dims]
    sdims = [d for d in range(updates.data.ndim) if d not in dn.update_window_dims]
    idx = indices.data
    out = operand.data.copy()
    if ctx().fork_index and not _all_conc(indices):
        idx = _conc_rows(idx, bounds)
    cache = {}

    def row_cases(r):
        if r in cache:
            return cache[r]
        comps = [idx[r + (j,)] for j in range(len(dims))]
        if mode == "CLIP":
            comps = [D.i_min(D.i_max(e, 0), b) for e, b in zip(comps, bounds)]
        opts = [
            ([int(e)] if 0 <= int(e) <= b else []) if D.is_ci(e) else range(b + 1) for e, b in zip(comps, bounds)
        ]
        cases = []
        for c in itertools.product(*opts):
            cond = D.b_and(*[D.i_eq(x, y) for x, y in zip(comps, c)])
            if cond is not False:
                cases.append((cond, c))
        cache[r] = cases
        return cases

    for u in np.ndindex(*updates.shape):
        r = tuple(u[d] for d in sdims)
        base = [0] * operand.data.ndim
        for d, ud in zip(win_op, dn.update_window_dims):
            base[d] = u[ud]
        for d, q in zip(dn.operand_batching_dims, dn.scatter_indices_batching_dims):
            base[d] = r[q]
        for cond, start in row_cases(r):
            pos = list(base)
            for d, st in zip(dims, start):
                pos[d] += st
            pos = tuple(pos)
            out[pos] = combine(k, cond, out[pos], updates.data[u])
    return SA(out, _out_dtype(eqn))


@rule("scatter-add", "scatter_add")
def _scatter_add(eqn, a, i, u):
    def comb(k, c, old, new):
        if D.is_b(c) and c:
            return e_add(k)(old, new)
        z = D.ZERO if k == "f" else 0
        return e_add(k)(old, e_ite(k)(c, new, z))

    return _scatter_common(eqn, a, i, u, comb)


@rule("scatter-sub")
def _scatter_sub(eqn, a, i, u):
    def comb(k, c, old, new):
        z = D.ZERO if k == "f" else 0
        new = e_ite(k)(c, new, z)
        return D.r_sub(old, new) if k == "f" else D.i_sub(old, new)

    return _scatter_common(eqn, a, i, u, comb)


@rule("scatter")
def _scatter(eqn, a, i, u):
    return _scatter_common(eqn, a, i, u, lambda k, c, old, new: e_ite(k)(c, new, old))


@rule("scatter-mul", "scatter_mul")
def _scatter_mul(eqn, a, i, u):
    def comb(k, c, old, new):
        mul = D.r_mul if k == "f" else D.i_mul
        return e_ite(k)(c, mul(old, new), old)

    return _scatter_common(eqn, a, i, u, comb)


@rule("scatter-max", "scatter-min")
def _scatter_mm(eqn, a, i, u):
    mx = "max" in eqn.primitive.name

    def comb(k, c, old, new):
        if k == "f":
            f = D.r_max if mx else D.r_min
        else:
            f = D.i_max if mx else D.i_min
        return e_ite(k)(c, f(old, new), old)

    return _scatter_common(eqn, a, i, u, comb)


@rule("dynamic_slice")
def _dynslice(eqn, a, *starts):
    sizes = eqn.params["slice_sizes"]
    st = []
    for s, dim, sz in zip(starts, a.shape, sizes):
        e = s.data[()]
        if not D.is_ci(e):
            e = ctx().concretize_int(D.i_min(D.i_max(e, 0), dim - sz), range(dim - sz + 1))
        st.append(min(max(int(e), 0), dim - sz))
    sl = tuple(slice(s, s + z) for s, z in zip(st, sizes))
    return SA(a.data[sl].copy(), _out_dtype(eqn))


@rule("dynamic_update_slice")
def _dynupd(eqn, a, u, *starts):
    out = a.data.copy()
    st = []
    for s, dim, sz in zip(starts, a.shape, u.shape):
        e = s.data[()]
        if not D.is_ci(e):
            e = ctx().concretize_int(D.i_min(D.i_max(e, 0), dim - sz), range(dim - sz + 1))
        st.append(min(max(int(e), 0), dim - sz))
    out[tuple(slice(s, s + z) for s, z in zip(st, u.shape))] = u.data
    return SA(out, _out_dtype(eqn))


@rule("dot_general")
def _dot(eqn, a, b):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    k = kind_of(_out_dtype(eqn))
    A, B = a.data, b.data
    lfree = [d for d in range(A.ndim) if d not in lc and d not in lb]
    rfree = [d for d in range(B.ndim) if d not in rc and d not in rb]
    A = A.transpose(list(lb) + lfree + list(lc))
    B = B.transpose(list(rb) + rfree + list(rc))
    nb, nl, nr = len(lb), len(lfree), len(rfree)
    bs, ls, rs, cs = A.shape[:nb], A.shape[nb : nb + nl], B.shape[nb : nb + nr], A.shape[nb + nl :]
    out = obj(bs + ls + rs)
    mul = D.r_mul if k == "f" else (D.i_mul if k in "iu" else D.b_and)
    add = e_add(k)
    for i in np.ndindex(*bs):
        for l in np.ndindex(*ls):
            for r in np.ndindex(*rs):
                s = D.ZERO if k == "f" else (0 if k in "iu" else False)
                for c in np.ndindex(*cs):
                    s = add(s, mul(A[i + l + c], B[i + r + c]))
                out[i + l + r] = s
    return SA(out, _out_dtype(eqn))


# ------------------------------------------------------- control flow
def _sub(eqn, *names):
    for n in names:
        if n in eqn.params:
            j = eqn.params[n]
            return (j.jaxpr, j.consts) if hasattr(j, "consts") else (j, [])
    raise Unsupported(f"no sub-jaxpr in {eqn.primitive.name}")


@rule("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "remat2", "custom_lin", "xla_call", "call", "composite")
def _call(eqn, *args):
    j, c = _sub(eqn, "jaxpr", "call_jaxpr")
    nm = eqn.params.get("name")
    if nm:
        ctx().note_function(nm)
    return eval_jaxpr(j, c, args)


def _prims(j):
    return [(e.primitive.name, tuple(str(v.val) for v in e.invars if hasattr(v, "val"))) for e in j.eqns]


@functools.lru_cache(None)
def _hypot_prims(*avals):
    """The bodies of jnp.hypot as this jax lowers it (an overflow-safe scaling of sqrt(x^2+y^2)),
    for arrays of these shapes: as such, and as a vmap over the scalar function."""
    out = []
    fns = [jnp.hypot]
    for _ in range(max(len(a.shape) for a in avals)):
        fns.append(jax.vmap(fns[-1]))
    for f in fns:
        try:
            j = jax.make_jaxpr(f)(*avals).jaxpr
        except Exception:
            continue
        while j.eqns and j.eqns[-1].primitive.name != "custom_jvp_call":
            e = j.eqns[-1]
            j = e.params["jaxpr"].jaxpr if "jaxpr" in e.params else None
            if j is None:
                break
        if j is not None and j.eqns:
            out.append(_prims(j.eqns[-1].params["call_jaxpr"].jaxpr))
    return out


@rule("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr")
def _cjvp(eqn, *args):
    j, c = _sub(eqn, "call_jaxpr", "fun_jaxpr", "jaxpr")
    if len(args) == 2 and len(eqn.outvars) == 3 and _prims(j) in _hypot_prims(
        *[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
    ):
        # over the reals the scaling cancels: sqrt(x^2+y^2), and the two derivatives x/r, y/r
        # (only gradients would use those two: they are left undefined)
        r = emap(lambda x, y: D.r_sqrt(D.r_add(D.r_mul(x, x), D.r_mul(y, y))), *args)
        return [SA(r, eqn.outvars[0].aval.dtype)] + [SA(obj(r.shape), o.aval.dtype) for o in eqn.outvars[1:]]
    return eval_jaxpr(j, c, args)


@rule("cond")
def _cond(eqn, idx, *args):
    br = eqn.params["branches"]
    e = idx.data[()]
    if not D.is_ci(e) and not D.is_b(e):
        if isinstance(e, z3.BoolRef):
            e = 1 if ctx().decide(e) else 0
        else:
            e = ctx().concretize_int(D.i_min(D.i_max(e, 0), len(br) - 1), range(len(br)))
    e = min(max(int(e), 0), len(br) - 1)
    return eval_jaxpr(br[e].jaxpr, br[e].consts, args)


@rule("while")
def _while(eqn, *args):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = args[:cn], args[cn : cn + bn], list(args[cn + bn :])
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    it = 0
    while True:
        (c,) = eval_jaxpr(cj.jaxpr, cj.consts, list(cc) + st)
        b = c.data[()]
        if c.data.ndim:
            raise Unsupported("batched while")
        if not D.is_b(b):
            b = ctx().decide(b)
        if not b:
            return st
        it += 1
        if it > ctx().max_unroll:
            ctx().cut("while loop unrolled beyond bound")
        st = list(eval_jaxpr(bj.jaxpr, bj.consts, list(bc) + st))


@rule("scan")
def _scan(eqn, *args):
    p = eqn.params
    length, rev = p["length"], p["reverse"]
    j = p["jaxpr"]
    consts, carry, xs = (list(t) for t in p["ft_in"].update(list(args)).unpack())
    nk = len(carry)
    ys = []
    order = range(length - 1, -1, -1) if rev else range(length)
    for i in order:
        x = [SA(_wrap(a.data[i]), a.dtype) for a in xs]
        o = eval_jaxpr(getattr(j, "jaxpr", j), getattr(j, "consts", []), consts + carry + x)
        carry = list(o[:nk])
        ys.append(o[nk:])
    if rev:
        ys = ys[::-1]
    outs = []
    for q in range(len(eqn.outvars) - nk):
        sh = eqn.outvars[nk + q].aval.shape
        d = obj(sh)
        for i in range(length):
            d[i] = ys[i][q].data if ys[i][q].data.ndim else ys[i][q].data[()]
        outs.append(SA(d, _out_dtype(eqn, nk + q)))
    return carry + outs


def _wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = obj(())
    a[()] = x
    return a


# ------------------------------------------------------- randomness
@rule("random_wrap")
def _rwrap(eqn, a):
    sh = a.shape[:-1]
    out = obj(sh)
    for i in np.ndindex(*sh):
        w0, w1 = a.data[i + (0,)], a.data[i + (1,)]
        if isinstance(w0, KW) and isinstance(w1, KW) and w0.i == 0 and w1.i == 1 and w0.key.eq(w1.key):
            out[i] = w0.key
        elif isinstance(w0, KW) or isinstance(w1, KW):
            raise Unsupported("mangled PRNG key words")
        else:
            out[i] = KeySort.root(D.to_z3i(w0 * 2**32 + w1))
    return SA(out, _out_dtype(eqn))


@rule("random_unwrap")
def _runwrap(eqn, a):
    out = obj(a.shape + (2,))
    for i in np.ndindex(*a.shape):
        out[i + (0,)] = KW(a.data[i], 0)
        out[i + (1,)] = KW(a.data[i], 1)
    return SA(out, _out_dtype(eqn))


@rule("random_split")
def _rsplit(eqn, a):
    sh = eqn.params["shape"]
    out = obj(a.shape + tuple(sh))
    for i in np.ndindex(*a.shape):
        ctx().note_key("split", a.data[i])
        for n, s in enumerate(np.ndindex(*sh)):
            out[i + s] = KeySort.child(a.data[i], z3.IntVal(n))
    return SA(out, _out_dtype(eqn))


@rule("random_fold_in")
def _rfold(eqn, a, d):
    out = emap(lambda k, x: KeySort.fold(k, D.to_z3i(x)), a, d)
    for k in a.data.ravel():
        ctx().note_key("fold", k)
    return SA(out, _out_dtype(eqn))


@rule("random_seed")
def _rseed(eqn, s):
    return SA(emap(lambda x: KeySort.root(D.to_z3i(x)), s), _out_dtype(eqn))


@rule("random_bits")
def _rbits(eqn, a):
    raise Unsupported("raw random bits (sampler without a stub)")


# ------------------------------------------------------- main evaluator
_CHEAP_FOLD = set(
    "searchsorted".split()
)


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal) or hasattr(v, "val"):
            dt = getattr(v.aval, "dtype", None)
            return lift_np(np.asarray(v.val), dt)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if isinstance(c, SA) else lift_np(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        r = RULES.get(name)
        c = ctx()
        c.n_eqns += 1
        if r is None:
            outs = concrete_eqn(eqn, ins)
        else:
            try:
                outs = r(eqn, *ins)
            except Unsupported:
                if any(is_sym_elem(e) for a in ins for e in a.data.ravel()):
                    raise
                outs = concrete_eqn(eqn, ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            if type(v).__name__ != "DropVar":
                assert o.shape == tuple(v.aval.shape), (name, o.shape, v.aval)
                env[v] = o
    return [read(v) for v in jaxpr.outvars]


def elem_to_py(e):
    if isinstance(e, R):
        if e is D.NAN:
            return float("nan")
        if e is D.PINF:
            return float("inf")
        if e is D.NINF:
            return float("-inf")
        raise Unsupported("symbolic value where a concrete one is needed")
    if isinstance(e, Fraction):
        return float(e)
    if isinstance(e, (KW, z3.ExprRef)):
        raise Unsupported("symbolic value where a concrete one is needed")
    return e


def sa_to_np(a):
    out = np.empty(a.shape, dtype=np.dtype(a.dtype))
    for i in np.ndindex(*a.shape):
        out[i] = elem_to_py(a.data[i])
    return out


def concrete_eqn(eqn, ins):
    vals = []
    for a in ins:
        for e in a.data.ravel():
            if is_sym_elem(e):
                raise Unsupported(f"primitive {eqn.primitive.name} on symbolic values")
        vals.append(jnp.asarray(sa_to_np(a)))
    try:
        with jax.ensure_compile_time_eval():
            out = _run_prim(eqn, *vals)
    except Exception as e:
        raise Unsupported(f"primitive {eqn.primitive.name}: {e!r}")
    outs = out if eqn.primitive.multiple_results else [out]
    return [lift_np(o) for o in outs]
