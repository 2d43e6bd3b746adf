"""Symbolic arrays for user-level code, and the patches that route the real code through the interpreter."""
import math
import functools
import re
import inspect
import types
from fractions import Fraction

import numpy as np
import z3
import jax
import jax.numpy as jnp
from jax import lax
from jax.extend import core as jcore
from jax.interpreters import batching
from jax._src import core as jaxcore

from . import dom as D
from .dom import R, Unsupported, ctx
from . import interp as I
from .interp import SA, KW, KeySort, obj, kind_of, emap, rule, RULES

NPARRAY = np.array
NPASARRAY = np.asarray


def in_trace():
    return not jaxcore.trace_state_clean()


def canon(dt):
    if jax.dtypes.issubdtype(dt, jax.dtypes.prng_key):
        return dt
    return jax.dtypes.canonicalize_dtype(np.dtype(dt))


# ------------------------------------------------------------ SymArray
def _arr_scalar(v):
    a = obj(())
    a[()] = v
    return a


def as_sym(x, like=None):
    """Anything numeric -> SymArray."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SymArray(_arr_scalar(bool(x)), np.bool_, py=not isinstance(x, np.generic))
    if isinstance(x, int):
        return SymArray(_arr_scalar(int(x)), np.int64, py=True)
    if isinstance(x, float) and not isinstance(x, np.generic):
        return SymArray(_arr_scalar(D.frac_of_float(x)), np.float64, py=True)
    if isinstance(x, (list, tuple)):
        return stack_nested(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return stack_nested(x.tolist() if x.ndim else [x.item()])
    if isinstance(x, jaxcore.Tracer):
        raise Unsupported("tracer mixed with symbolic value outside a trace")
    a = NPASARRAY(x)
    if a.dtype.kind not in "biuf":
        raise TypeError(f"cannot treat {type(x)} as numeric")
    s = I.lift_np(a)
    return SymArray(s.data, s.dtype, jaxy=isinstance(x, jax.Array))


def stack_nested(x):
    """list/tuple (nested) containing symbolic values -> SymArray"""
    parts = [as_sym(e) for e in x]
    if not parts:
        return SymArray(obj((0,)), np.float64)
    sh = parts[0].shape
    if any(p.shape != sh for p in parts):
        raise ValueError("setting an array element with a sequence: inhomogeneous shape")
    dt = result_dtype(*parts)
    k = kind_of(dt)
    out = obj((len(parts),) + sh)
    for i, p in enumerate(parts):
        d = emap(lambda e: I.convert_elem(e, p.kind, k), p) if p.kind != k else p.data
        if sh:
            out[i] = d
        else:
            out[i] = d[()]
    return SymArray(out, dt)


def result_dtype(*xs):
    order = {"b": 0, "u": 1, "i": 2, "f": 3}
    best = None
    strong = [x for x in xs if not x.py] or list(xs)
    for x in xs:
        if best is None or order[x.kind] > order[best.kind]:
            best = x
    if best.kind == "f":
        fl = [x.dtype for x in strong if x.kind == "f"] or [best.dtype]
        return max((np.dtype(f) for f in fl), key=lambda d: d.itemsize)
    if best.kind in "iu":
        fl = [x.dtype for x in strong if x.kind in "iu"] or [best.dtype]
        return max((np.dtype(f) for f in fl), key=lambda d: d.itemsize)
    return np.dtype(np.bool_)


class SymArray(SA):
    __slots__ = ("jaxy", "py", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, data, dtype, jaxy=False, py=False):
        self.data = data
        self.dtype = dtype if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key) else np.dtype(dtype)
        self.jaxy = jaxy
        self.py = py

    # ---- structure
    @property
    def ndim(self):
        return self.data.ndim

    @property
    def size(self):
        return self.data.size

    @property
    def nbytes(self):
        return self.size * 4

    @property
    def T(self):
        return SymArray(self.data.T, self.dtype, self.jaxy)

    def __len__(self):
        if self.data.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.data.shape[0]

    def __iter__(self):
        if self.data.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def concrete(self):
        return not any(I.is_sym_elem(e) for e in self.data.ravel())

    def to_np(self):
        return I.sa_to_np(self)

    def item(self, *a):
        d = self.data.item(*a) if self.data.size == 1 or a else self.data[()]
        if isinstance(d, np.ndarray):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return SymArray(_arr_scalar(d), self.dtype, py=True)

    def tolist(self):
        if self.ndim == 0:
            return SymArray(self.data, self.dtype, py=True)
        return [x.tolist() for x in self]

    def copy(self):
        return SymArray(self.data.copy(), self.dtype, self.jaxy, self.py)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def astype(self, dt, *a, **k):
        if in_trace():
            return to_tracer(self).astype(dt)
        dt = np.dtype(unshadow(dt))
        if self.jaxy:
            dt = canon(dt)
        kt = kind_of(dt)
        if kt == "O":
            out = obj(self.shape)
            for i in np.ndindex(*self.shape):
                out[i] = SymArray(_arr_scalar(self.data[i]), self.dtype)
            return out
        return SymArray(emap(lambda e: I.convert_elem(e, self.kind, kt), self), dt, self.jaxy)

    def __repr__(self):
        return f"<sym {self.shape} {self.dtype}>"

    def __str__(self):
        return self.__format__("")

    def __format__(self, spec):
        """With option format_ints the number is printed (case split over the integers it may show)."""
        lim = ctx().opts.get("format_ints") if ctx() else None
        if lim is None or self.size != 1:
            return repr(self)
        e = self.data.ravel()[0]
        if not I.is_sym_elem(e):
            return format(I.elem_to_py(e), spec)
        if self.kind in "iu":
            return format(ctx().concretize_int(D.to_z3i(e), range(-lim, lim + 1)), spec)
        m = re.fullmatch(r"(\d*)\.(\d)([f%])", spec)
        if self.kind == "f" and m:
            n = int(m[2]) + (2 if m[3] == "%" else 0)
            k = D.i_round_even(D.r_mul(e, Fraction(10) ** n))
            k = ctx().concretize_int(D.to_z3i(k), range(-lim, lim + 1))
            return format(k / 10**n, spec)
        raise Unsupported(f"printing a symbolic {self.dtype} with format {spec!r}")

    # ---- python conversions
    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        e = self.data.ravel()[0]
        return bool(ctx().decide(I.convert_elem(e, self.kind, "b")))

    def _conc(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return I.elem_to_py(self.data.ravel()[0])

    def __float__(self):
        return float(self._conc())

    def __int__(self):
        return int(self._conc())

    def __index__(self):
        if self.kind == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        if self.size != 1:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        e = self.data.ravel()[0]
        if D.is_ci(e):
            return int(e)
        return ctx().concretize_int(e, range(-1, ctx().opts.get("max_index", 8)))

    def __array__(self, dtype=None, copy=None):
        if self.concrete():
            a = I.sa_to_np(self)
            return a.astype(dtype) if dtype is not None else a
        if self.dtype == np.bool_ and dtype in (None, bool, np.bool_):
            # a mask applied to an ordinary array: one path per combination
            out = np.empty(self.shape, dtype=bool)
            for i in np.ndindex(*self.shape):
                out[i] = bool(ctx().decide(self.data[i]))
            return out
        raise Unsupported("symbolic array converted to a numpy array by C code")

    __hash__ = object.__hash__

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop("out", None)
        where = kwargs.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        kwargs.pop("casting", None)
        dt = kwargs.pop("dtype", None)
        if method == "__call__":
            inputs = [as_sym(x) if isinstance(x, (list, np.ndarray, np.generic)) else x for x in inputs]
            r = np_call(ufunc.__name__, *inputs, **kwargs)
        elif method == "reduce":
            red = {"add": "sum", "multiply": "prod", "logical_and": "all", "logical_or": "any", "maximum": "max", "minimum": "min"}
            if ufunc.__name__ not in red:
                raise Unsupported("ufunc.reduce " + ufunc.__name__)
            r = np_call(red[ufunc.__name__], *inputs, **kwargs)
        elif method == "accumulate" and ufunc.__name__ == "add":
            r = np_call("cumsum", *inputs, **kwargs)
        else:
            raise Unsupported(f"ufunc {ufunc.__name__}.{method}")
        if dt is not None:
            r = r.astype(dt)
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray) and o.dtype.kind in "biu" and r.kind == "f":
                raise TypeError("Cannot cast ufunc output from float to integer")
            if o.shape != r.shape:
                raise ValueError("non-broadcastable output operand")
            if isinstance(o, SymArray):
                o.data[...] = r.data
                return o
            r = SymArray(emap(lambda e: I.convert_elem(e, r.kind, o.dtype.kind), r), o.dtype)
        return r

    def __array_function__(self, func, types_, args, kwargs):
        return np_call(func.__name__, *args, **kwargs)

    # ---- operators
    def _binop(self, other, fn, jn, swap=False):
        if isinstance(other, jaxcore.Tracer) or in_trace():
            a, b = to_tracer(self), (to_tracer(other) if isinstance(other, SymArray) else other)
            f = getattr(jnp, jn)
            return f(b, a) if swap else f(a, b)
        if isinstance(other, (str, type(None), dict, set)):
            return NotImplemented
        try:
            o = as_sym(other)
        except TypeError:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return fn(a, b)

    def __neg__(self):
        if in_trace():
            return -to_tracer(self)
        return _un(self, D.r_neg, lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return jnp_call("abs", self)

    def __invert__(self):
        if in_trace():
            return ~to_tracer(self)
        if self.kind == "b":
            if self.py:
                # ~ on a python bool is integer complement
                return SymArray(emap(lambda e: D.i_ite(e, -2, -1), self), np.int64, py=True)
            return _un(self, None, None, D.b_not)
        return _un(self, None, lambda a: -a - 1)

    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        if self.jaxy:
            raise TypeError("JAX arrays are immutable and do not support in-place item assignment.")
        val = as_sym(val)
        val = emap(lambda e: I.convert_elem(e, val.kind, self.kind), val) if val.kind != self.kind else val.data
        if isinstance(idx, SymArray):
            if idx.kind == "b":
                if idx.shape == self.shape and val.ndim == 0:
                    ite = I.e_ite(self.kind)
                    for i in np.ndindex(*self.shape):
                        self.data[i] = ite(idx.data[i], val[()], self.data[i])
                    return
                idx = concrete_mask(idx)
            else:
                idx = NPARRAY([ctx().concretize_int(e, range(-len(self), len(self))) for e in idx.data.ravel()]).reshape(idx.shape)
                if idx.ndim == 0:
                    idx = int(idx)
        elif isinstance(idx, tuple):
            idx = tuple(concrete_mask(i) if isinstance(i, SymArray) and i.kind == "b" else (i.__index__() if isinstance(i, SymArray) else i) for i in idx)
        self.data[idx] = val if val.ndim else val[()]

    @property
    def at(self):
        return _At(self)


class _At:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, idx):
        return _AtIdx(self.x, idx)


class _AtIdx:
    def __init__(self, x, idx):
        self.x, self.idx = x, idx

    def __getattr__(self, name):
        def f(*a, **k):
            return sym_call(lambda x, i, a: getattr(x.at[i], name)(*a, **k), self.x, self.idx, a)

        return f


def concrete_mask(m):
    out = np.zeros(m.shape, dtype=bool)
    for i in np.ndindex(*m.shape):
        out[i] = ctx().decide(m.data[i])
    return out


def getitem(self, idx):
    if in_trace():
        return to_tracer(self)[idx]
    symb = isinstance(idx, SymArray) or (isinstance(idx, tuple) and any(isinstance(i, SymArray) for i in idx))
    if not symb:
        if isinstance(idx, tuple) and any(isinstance(i, jaxcore.Tracer) for i in idx) or isinstance(idx, jaxcore.Tracer):
            return to_tracer(self)[idx]
        if isinstance(idx, jax.Array):
            idx = NPASARRAY(idx)
        elif isinstance(idx, tuple):
            idx = tuple(NPASARRAY(i) if isinstance(i, jax.Array) else i for i in idx)
        d = self.data[idx]
        if not isinstance(d, np.ndarray) or d.dtype != object:
            d = _arr_scalar(d)
        elif d.base is not None and self.jaxy:
            d = d.copy()
        return SymArray(d, self.dtype, self.jaxy)
    if isinstance(idx, SymArray) and idx.kind == "b":
        m = concrete_mask(idx)
        return SymArray(self.data[m], self.dtype, self.jaxy)
    if isinstance(idx, tuple):
        idx = tuple(concrete_mask(i) if isinstance(i, SymArray) and i.kind == "b" else i for i in idx)
        if not any(isinstance(i, SymArray) for i in idx):
            return getitem(self, idx)
    if self.jaxy or any(isinstance(i, jax.Array) for i in (idx if isinstance(idx, tuple) else (idx,))):
        return sym_call(lambda x, i: x[i], self, idx)
    for ax, i in enumerate(idx if isinstance(idx, tuple) else (idx,)):  # numpy refuses indices out of range
        if i is None or i is Ellipsis:
            break
        if isinstance(i, SymArray):
            n = self.shape[ax]
            for e in i.data.ravel():
                ok = D.b_and(D.r_le(D.as_real(-n), D.as_real(e)), D.r_lt(D.as_real(e), D.as_real(n)))
                if not (ok if D.is_b(ok) else ctx().decide(ok)):
                    raise IndexError(f"index is out of bounds for axis {ax} with size {n}")
    r = sym_call(lambda x, i: x[i], self, idx)
    return SymArray(r.data.copy(), self.dtype, jaxy=False)


def _un(a, rf, if_=None, bf=None):
    fn = {"f": rf, "i": if_, "u": if_, "b": bf}[a.kind]
    if fn is None:
        raise TypeError(f"bad operand type for unary operator: {a.dtype}")
    return SymArray(emap(fn, a), a.dtype, a.jaxy, a.py)


def _conv(a, k):
    return a.data if a.kind == k else emap(lambda e: I.convert_elem(e, a.kind, k), a)


def _arith(rf, if_, bf=None, div=False):
    def f(a, b):
        dt = result_dtype(a, b)
        k = kind_of(dt)
        py = a.py and b.py
        jx = a.jaxy or b.jaxy
        if k == "b":
            if py:
                dt, k = np.dtype(np.int64), "i"
            elif bf is not None:
                return SymArray(emap(bf, a.data, b.data), dt, jx, py)
            elif not div:
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        if div and k != "f":
            dt, k = np.dtype(np.float64), "f"
        fn = rf if k == "f" else if_
        return SymArray(emap(fn, _conv(a, k), _conv(b, k)), dt, jx, py)

    return f


def _cmp(rf, if_, bf):
    def f(a, b):
        k = kind_of(result_dtype(a, b))
        fn = rf if k == "f" else (if_ if k in "iu" else bf)
        return SymArray(emap(fn, _conv(a, k), _conv(b, k)), np.bool_, a.jaxy or b.jaxy, a.py and b.py)

    return f


def _logic(bf, name):
    def f(a, b):
        if a.kind == "b" and b.kind == "b":
            return SymArray(emap(bf, a.data, b.data), np.bool_, a.jaxy or b.jaxy, a.py and b.py)
        if a.concrete() and b.concrete():
            r = getattr(np, "bitwise_" + name)(a.to_np(), b.to_np())
            return as_sym(r)
        if a.kind == "f" or b.kind == "f":
            raise TypeError(f"ufunc 'bitwise_{name}' not supported for the input types")
        raise Unsupported("integer bitwise operation")

    return f


def _pow(a, b):
    dt = result_dtype(a, b)
    k = kind_of(dt)
    if k == "b":
        dt, k = np.dtype(np.int64), "i"
    if k == "f":
        return SymArray(emap(D.r_pow, _conv(a, k), _conv(b, k)), dt, a.jaxy or b.jaxy, a.py and b.py)

    def ip(x, n):
        if D.is_ci(x) and D.is_ci(n):
            return int(x) ** int(n)
        if D.is_ci(n) and 0 <= n <= 6:
            r = 1
            for _ in range(int(n)):
                r = r * x
            return r
        raise Unsupported("symbolic integer power")

    return SymArray(emap(ip, _conv(a, k), _conv(b, k)), dt, a.jaxy or b.jaxy, a.py and b.py)


_add = _arith(D.r_add, D.i_add, D.b_or)
_sub = _arith(D.r_sub, D.i_sub, None)
_mul = _arith(D.r_mul, D.i_mul, D.b_and)
_div = _arith(D.r_div, D.i_div, None, div=True)
_b = lambda f: (lambda a, b: f(a, b))
_ops = {
    "add": (_add, "add"),
    "sub": (_sub, "subtract"),
    "mul": (_mul, "multiply"),
    "truediv": (_div, "true_divide"),
    "pow": (_pow, "power"),
    "floordiv": (lambda a, b: jnp_call("floor_divide", a, b), "floor_divide"),
    "mod": (lambda a, b: jnp_call("mod", a, b), "mod"),
    "matmul": (lambda a, b: jnp_call("matmul", a, b), "matmul"),
    "and": (_logic(D.b_and, "and"), "bitwise_and"),
    "or": (_logic(D.b_or, "or"), "bitwise_or"),
    "xor": (_logic(D.b_xor, "xor"), "bitwise_xor"),
}
_cmps = {
    "lt": (_cmp(D.r_lt, D.i_lt, I.e_lt("b")), "less", "gt"),
    "le": (_cmp(D.r_le, D.i_le, I.e_le("b")), "less_equal", "ge"),
    "gt": (_cmp(lambda a, b: D.r_lt(b, a), lambda a, b: D.i_lt(b, a), lambda a, b: I.e_lt("b")(b, a)), "greater", "lt"),
    "ge": (_cmp(lambda a, b: D.r_le(b, a), lambda a, b: D.i_le(b, a), lambda a, b: I.e_le("b")(b, a)), "greater_equal", "le"),
    "eq": (_cmp(D.r_eq, I._key_eq, lambda a, b: D.b_not(D.b_xor(a, b))), "equal", "eq"),
    "ne": (_cmp(lambda a, b: D.b_not(D.r_eq(a, b)), lambda a, b: D.b_not(I._key_eq(a, b)), D.b_xor), "not_equal", "ne"),
}


def _install_ops():
    for n, (fn, jn) in _ops.items():
        def fwd(self, o, fn=fn, jn=jn):
            return self._binop(o, fn, jn)

        def rev(self, o, fn=fn, jn=jn):
            return self._binop(o, fn, jn, swap=True)

        def inp(self, o, fn=fn, jn=jn):
            r = self._binop(o, fn, jn)
            if isinstance(r, SymArray) and not self.jaxy and not self.py and self.ndim and isinstance(self, SymArray):
                if r.kind == "f" and self.kind != "f":
                    raise TypeError("Cannot cast ufunc output from float to integer with casting rule 'same_kind'")
                if r.shape != self.shape:
                    raise ValueError("non-broadcastable output operand")
                self.data[...] = r.data
                return self
            return r

        setattr(SymArray, f"__{n}__", fwd)
        setattr(SymArray, f"__r{n}__", rev)
        setattr(SymArray, f"__i{n}__", inp)
    for n, (fn, jn, sw) in _cmps.items():
        def fwd(self, o, fn=fn, jn=jn, n=n):
            r = self._binop(o, fn, jn)
            return r

        setattr(SymArray, f"__{n}__", fwd)
    for m in "sum prod mean min max any all argmin argmax cumsum cumprod ravel flatten reshape transpose squeeze std var clip round dot take repeat sort argsort swapaxes diagonal trace".split():
        def meth(self, *a, m=m, **k):
            if in_trace():
                return getattr(to_tracer(self), m)(*a, **k)
            if m == "flatten":
                return SymArray(self.data.ravel().copy(), self.dtype, self.jaxy)
            if m == "reshape" and a and not isinstance(a[0], (tuple, list)):
                a = (tuple(a),)
            if m == "sort":
                if self.jaxy:
                    return jnp_call("sort", self, *a, **k)
                self.data[...] = np_call("sort", self, *a, **k).data
                return None
            return (jnp_call if self.jaxy else np_call)(m, self, *a, **k)

        setattr(SymArray, m, meth)


_install_ops()


# ------------------------------------------------------------ tracing
sym_const_p = jcore.Primitive("sym_const")
_SYMCONST = {}
_SYMCONST_N = [0]


@sym_const_p.def_abstract_eval
def _sc_abs(*, id, shape, dtype, weak):
    return jaxcore.ShapedArray(shape, np.dtype(dtype), weak_type=weak)


@sym_const_p.def_impl
def _sc_impl(*, id, shape, dtype, weak):
    raise Unsupported("symbolic constant evaluated eagerly")


@rule("sym_const")
def _sc_rule(eqn):
    a = _SYMCONST[eqn.params["id"]]
    return SA(a.data, eqn.outvars[0].aval.dtype)


def to_tracer(x):
    if not isinstance(x, SymArray):
        return x
    if x.concrete() and x.kind in "biuf":
        return jnp.asarray(x.to_np())
    _SYMCONST_N[0] += 1
    i = _SYMCONST_N[0]
    dt = canon(x.dtype)
    _SYMCONST[i] = x
    return sym_const_p.bind(id=i, shape=tuple(x.shape), dtype=str(dt), weak=bool(x.py))


# ------------------------------------------------------------ environment stubs inside traced code
_CALLBACKS = {}
cb_p = jcore.Primitive("symcallback")


@cb_p.def_abstract_eval
def _cb_abs(*a, id, shape, dtype):
    return jaxcore.ShapedArray(shape, np.dtype(dtype))


@cb_p.def_impl
def _cb_impl(*a, id, shape, dtype):
    return jnp.asarray(_CALLBACKS[id](*a), dtype=np.dtype(dtype))


@rule("symcallback")
def _cb_rule(eqn, *args):
    out = _CALLBACKS[eqn.params["id"]](*[SymArray(a.data, a.dtype, jaxy=True) for a in args])
    return SA(out.data, eqn.outvars[0].aval.dtype)


def callback(fn, shape, *args, dtype=np.float32):
    """fn(*arrays) -> array of the given shape, also from inside traced code."""
    if ctx() is not None and not in_trace():
        return fn(*[as_sym(a) for a in args])
    if ctx() is not None:
        args = [to_tracer(a) for a in args]
    if in_trace():
        _SYMCONST_N[0] += 1
        i = _SYMCONST_N[0]
        _CALLBACKS[i] = fn
        return cb_p.bind(*[jnp.asarray(a) for a in args], id=i, shape=tuple(shape), dtype=str(np.dtype(dtype)))
    return fn(*args)


def _is_sym(x):
    return isinstance(x, SymArray)


_MAXSCAN = 64


def has_sym(x, depth=4):
    if isinstance(x, SymArray):
        return True
    if depth == 0:
        return False
    t = type(x)
    if t is list or t is tuple:
        if len(x) > _MAXSCAN:
            return has_sym(x[0], depth - 1)
        for e in x:
            if has_sym(e, depth - 1):
                return True
        return False
    if isinstance(x, dict):
        if len(x) > 256:
            return False
        for e in x.values():
            if has_sym(e, depth - 1):
                return True
    elif isinstance(x, np.ndarray) and x.dtype == object and x.size <= 4096:
        return any(isinstance(e, SymArray) for e in x.ravel())
    return False


class Opaque:
    """Non-array output of a traced function."""

    def __init__(self, v):
        self.v = v


def _objfix(x):
    """object ndarrays of symbolic scalars -> SymArray"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return as_sym(x)
    return x


def sym_call(fn, *args, **kwargs):
    """Call a jax-traceable function on symbolic arguments."""
    leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=_is_sym)
    leaves = [_objfix(l) for l in leaves]
    if in_trace():
        leaves = [to_tracer(l) for l in leaves]
        a, k = jax.tree_util.tree_unflatten(tree, leaves)
        return fn(*a, **k)
    if getattr(fn, "_lifted_jit", False):  # every array argument of a compiled function is traced
        leaves = [as_sym(l) if isinstance(l, np.ndarray) and l.dtype.kind in "biuf" else l for l in leaves]
    pos = [i for i, l in enumerate(leaves) if isinstance(l, SymArray)]
    syms = [leaves[i] for i in pos]
    # fully concrete values need no tracing of their own
    structs = [jax.ShapeDtypeStruct(s.shape, canon(s.dtype), weak_type=s.py) for s in syms]

    def wrapped(*tr):
        ls = list(leaves)
        for i, t in zip(pos, tr):
            ls[i] = t
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        return jax.tree_util.tree_map(to_tracer, fn(*a, **k), is_leaf=_is_sym)

    try:
        closed, out_shape = jax.make_jaxpr(wrapped, return_shape=True)(*structs)
    except (jax.errors.ConcretizationTypeError, jax.errors.NonConcreteBooleanIndexError, jax.errors.TracerBoolConversionError, jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError) as e:
        if getattr(fn, "_lifted_jit", False):
            raise  # the real jitted function raises too
        raise Unsupported(f"needs concrete values: {getattr(fn, '__name__', fn)}: {str(e)[:200]}")
    ins = []
    for s in syms:
        ins.append(SA(s.data, canon(s.dtype)))
    outs = I.eval_jaxpr(closed.jaxpr, closed.consts, ins)
    outs = [SymArray(o.data, o.dtype, jaxy=True) for o in outs]
    flat, otree = jax.tree_util.tree_flatten(out_shape)
    return jax.tree_util.tree_unflatten(otree, outs)


_JNP_ALIASES = {"amax": "max", "amin": "min", "alltrue": "all", "sometrue": "any", "product": "prod", "round_": "round", "absolute": "abs", "asanyarray": "asarray", "ascontiguousarray": "asarray", "copyto": None}


def jnp_orig(name):
    f = getattr(jnp, name)
    return getattr(f, "_sx_orig", f)


def jnp_call(name, *args, **kwargs):
    return sym_call(jnp_orig(name), *args, **kwargs)


_LIST_ARGS = {"concatenate", "stack", "hstack", "vstack", "column_stack", "dstack", "block", "meshgrid", "histogramdd", "broadcast_arrays", "select", "choose", "ix_", "pad", "reshape", "transpose", "split", "array_split"}


_ELEMENTWISE = {"where", "clip", "minimum", "maximum", "fmin", "fmax", "arctan2", "hypot", "logaddexp", "heaviside", "copysign", "mod", "remainder", "fmod", "float_power"}


def np_call(name, *args, **kwargs):
    """numpy function with symbolic arguments: numpy semantics via the jnp function of the same name."""
    name = _JNP_ALIASES.get(name, name)
    if name in _NP_SPECIAL:
        return _NP_SPECIAL[name](*args, **kwargs)
    if name in _BINFAST and len(args) == 2 and not kwargs and not in_trace():
        a, b = as_sym(args[0]), as_sym(args[1])
        r = _BINFAST[name](a, b)
        return SymArray(r.data, r.dtype, jaxy=False)
    kwargs.pop("out", None) if kwargs.get("out", 0) is None else None
    if name in ("erf", "erfc", "gammaln", "expit", "logit") and not hasattr(jnp, name):  # scipy.special
        import jax.scipy.special as jsp

        f = getattr(jsp, name)
        r = sym_call(getattr(f, "_sx_orig", f), *args, **kwargs)
        return SymArray(r.data.copy(), np.float64, py=False)
    if not hasattr(jnp, name or ""):
        raise Unsupported(f"numpy function {name} on symbolic values")
    if name not in _LIST_ARGS:  # numpy takes lists where jax.numpy wants arrays
        args = [as_sym(a) if isinstance(a, list) and a else a for a in args]
    elif name in ("concatenate", "stack", "hstack", "vstack", "column_stack", "dstack") and args and isinstance(args[0], (list, tuple)):
        args = [[as_sym(a) if isinstance(a, (list, tuple)) else a for a in args[0]], *args[1:]]
    if name in _ELEMENTWISE:  # concrete numbers keep their double precision
        args = [as_sym(np.float64(a)) if isinstance(a, (float, np.float64)) else as_sym(a) if isinstance(a, np.ndarray) and a.dtype == np.float64 else a for a in args]
    r = sym_call(jnp_orig(name), *args, **kwargs)
    f64 = any(isinstance(l, SymArray) and l.dtype == np.float64 for l in jax.tree_util.tree_leaves((args, kwargs), is_leaf=_is_sym))

    def fix(o):
        if isinstance(o, SymArray):
            dt = np.float64 if (o.kind == "f" and f64) else o.dtype
            return SymArray(o.data.copy(), dt, jaxy=False)
        return o

    if isinstance(r, SymArray):
        return fix(r)
    return jax.tree_util.tree_map(fix, r, is_leaf=_is_sym)


_BINFAST = {
    "add": _add, "subtract": _sub, "multiply": _mul, "divide": _div, "true_divide": _div, "power": _pow,
    "less": _cmps["lt"][0], "less_equal": _cmps["le"][0], "greater": _cmps["gt"][0], "greater_equal": _cmps["ge"][0],
    "equal": _cmps["eq"][0], "not_equal": _cmps["ne"][0],
    "bitwise_and": _ops["and"][0], "bitwise_or": _ops["or"][0], "bitwise_xor": _ops["xor"][0],
}


def _np_array(x, dtype=None, copy=True, **k):
    k.pop("subok", None)
    k.pop("order", None)
    nd = k.pop("ndmin", 0)
    if isinstance(x, SymArray):
        r = SymArray(x.data.copy() if copy else x.data, x.dtype)
    else:
        r = as_sym(x)
        r = SymArray(r.data, r.dtype)
    if dtype is not None:
        if unshadow(dtype) is object:
            return r.astype(object)
        r = r.astype(dtype)
    while r.ndim < nd:
        r = r[None]
    return r


def _np_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and not x.jaxy and not x.py and (dtype is None or np.dtype(unshadow(dtype)) == x.dtype):
        return x
    return _np_array(x, dtype)


_NP_SPECIAL = {
    "array": _np_array,
    "asarray": _np_asarray,
    "shape": lambda a: as_sym(a).shape,
    "ndim": lambda a: as_sym(a).ndim,
    "size": lambda a, axis=None: as_sym(a).size if axis is None else as_sym(a).shape[axis],
    "iscomplexobj": lambda a: False,
    "isscalar": lambda a: isinstance(a, SymArray) and a.py,
    "result_type": lambda *a: result_dtype(*[as_sym(x) for x in a]),
    "can_cast": lambda *a, **k: True,
    "invert": lambda a: ~a,
    "bitwise_not": lambda a: ~a,
    "negative": lambda a: -a,
    "zeros_like": lambda a, dtype=None, shape=None, **k: np.zeros(a.shape if shape is None else shape, dtype=dtype or a.dtype),
    "ones_like": lambda a, dtype=None, shape=None, **k: np.ones(a.shape if shape is None else shape, dtype=dtype or a.dtype),
    "empty_like": lambda a, dtype=None, shape=None, **k: np.zeros(a.shape if shape is None else shape, dtype=dtype or a.dtype),
    "copy": lambda a, **k: as_sym(a).copy(),
    "nan_to_num": lambda x, copy=True, nan=0.0, posinf=None, neginf=None: jnp_call("nan_to_num", x, nan=nan, posinf=posinf, neginf=neginf),
}


def unshadow(dt):
    return getattr(dt, "_sx_real", dt)


# ------------------------------------------------------------ wrappers
class FnWrap:
    """Callable standing for a library function; symbolic arguments go to the interpreter."""

    def __init__(self, orig, call):
        self._sx_orig = orig
        self._sx_call = call
        functools.update_wrapper(self, orig, updated=())

    def __call__(self, *args, **kwargs):
        for a in args:
            if has_sym(a):
                return self._sx_call(*args, **kwargs)
        for a in kwargs.values():
            if has_sym(a):
                return self._sx_call(*args, **kwargs)
        return self._sx_orig(*args, **kwargs)

    def __getattr__(self, n):
        if n.startswith("_sx_"):
            raise AttributeError(n)
        return getattr(self.__dict__["_sx_orig"], n)

    def __get__(self, o, t=None):
        # functions stored on classes stay callable as methods
        return self if o is None else types.MethodType(self, o)

    def __reduce__(self):
        return (getattr, (inspect.getmodule(self._sx_orig), self._sx_orig.__name__))


_META = {"shape": lambda a: as_sym(a).shape if not in_trace() else a.shape, "ndim": lambda a: a.ndim, "size": lambda a, axis=None: a.size if axis is None else a.shape[axis]}


def _jnp_dispatch(name, orig):
    if name in _META:
        def call(a, *r, **k):
            if isinstance(a, SymArray):
                return _META[name](a, *r, **k)
            return getattr(as_sym(a), name)
        return call
    if name in ("asarray", "array"):
        def call(x, dtype=None, *r, **k):
            if dtype is not None:
                dtype = unshadow(dtype)
            return sym_call(lambda y: orig(y, dtype=dtype), x)
        return call

    def call(*a, **k):
        k = {kk: unshadow(v) if isinstance(v, type) else v for kk, v in k.items()}
        return sym_call(orig, *a, **k)

    return call


def wrap_module(mod, dispatch, skip=()):
    for n in dir(mod):
        if n.startswith("_") or n in skip:
            continue
        f = getattr(mod, n)
        if isinstance(f, (type, types.ModuleType, FnWrap)) or not callable(f):
            continue
        if isinstance(f, np.ufunc):
            continue
        if isinstance(f, jcore.Primitive):
            continue
        try:
            setattr(mod, n, FnWrap(f, dispatch(n, f)))
        except (AttributeError, TypeError):
            pass


ORIG_JIT = jax.jit


def _lift_transform(orig_t, jit=False):
    @functools.wraps(orig_t)
    def transform(fun=None, *targs, **tk):
        if fun is None:
            return functools.partial(transform, *targs, **tk)
        g = orig_t(fun, *targs, **tk)
        return lift_callable(g, fun, jit)

    return transform


def lift_callable(g, fun, jit):
    name = getattr(fun, "__qualname__", getattr(fun, "__name__", "fn"))

    def target(*a, **k):
        # in a symbolic session the body is traced afresh (no stale trace cache)
        if ctx() is not None and jit:
            ctx().note_function(name)
            return fun(*a, **k)
        return g(*a, **k)

    target._lifted_jit = True
    target.__name__ = getattr(fun, "__name__", "fn")

    @functools.wraps(fun)
    def lifted(*args, **kwargs):
        if ctx() is not None:
            return sym_call(target, *args, **kwargs)
        return g(*args, **kwargs)

    try:
        lifted.__signature__ = inspect.signature(fun)
    except (TypeError, ValueError):
        pass
    lifted._sx_lifted = g
    for n in ("lower", "trace", "eval_shape", "clear_cache"):
        if hasattr(g, n):
            setattr(lifted, n, getattr(g, n))
    return lifted


# ------------------------------------------------------------ randomness
rand_p = jcore.Primitive("symrand")


@rand_p.def_abstract_eval
def _rand_abs(key, *params, name, shape, dtype, batch):
    return jaxcore.ShapedArray(tuple(batch) + tuple(shape), np.dtype(dtype))


CONCRETE_DRAW = [None]


@rand_p.def_impl
def _rand_impl(key, *params, name, shape, dtype, batch):
    if CONCRETE_DRAW[0] is not None:
        return CONCRETE_DRAW[0](key, params, name, tuple(batch) + tuple(shape), dtype)
    raise Unsupported("random draw evaluated eagerly in symbolic mode")


def _rand_batch(args, dims, *, name, shape, dtype, batch):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    new = []
    for j, (a, d) in enumerate(zip(args, dims)):
        if d is None:
            if j == 0:
                raise Unsupported("vmap over a sampler with a shared key")
            a = jnp.broadcast_to(a, (size,) + a.shape)
        else:
            a = jnp.moveaxis(a, d, 0)
        new.append(a)
    return rand_p.bind(*new, name=name, shape=shape, dtype=dtype, batch=(size,) + tuple(batch)), 0


batching.primitive_batchers[rand_p] = _rand_batch


def draw_elem(name, p, where):
    """One symbolic draw: (domain element, raw value recorded for replay)."""
    c = ctx()
    nm = f"draw{len(c.draws)}_{where}"
    if name in ("uniform",):
        lo, hi = D.as_real(p[0]), D.as_real(p[1])
        if D.is_cr(lo) and D.is_cr(hi):
            v = z3.Real(nm)
            if lo < hi:
                c.add(z3.And(v >= D.rv(lo), v < D.rv(hi)))
            else:
                c.add(v == D.rv(lo))
            return R(v)
        bad = c.prune(D.b_or(D.b_not(D.fin(lo)), D.b_not(D.fin(hi))))
        v = z3.Real(nm)
        l, h = D.rv(D._R(lo).v), D.rv(D._R(hi).v)
        c.add(z3.If(l < h, z3.And(v >= l, v < h), v == l))
        return R(v) if bad is False else R(v, nan=bad)
    if name == "normal":
        return R(z3.Real(nm))
    if name == "poisson":
        lam = D.as_real(p[0])
        k = z3.Int(nm)
        c.add(D.to_z3b(D.b_or(D.b_not(D.b_or(D.r_pos(lam), D.r_zero(lam))), k >= 0)))
        c.add(k >= -1)
        c.add(D.to_z3b(D.b_or(D.b_not(D.r_zero(lam)), k == 0)))
        return k
    if name == "bernoulli":
        pr = D.as_real(p[0])
        b = z3.Bool(nm)
        c.add(D.to_z3b(D.b_or(D.r_lt(pr, D.ONE), b, D.isnan(pr))))
        c.add(D.to_z3b(D.b_or(D.r_pos(pr), z3.Not(b))))
        return b
    if name == "binomial":
        n, pr = D.as_real(p[0]), D.as_real(p[1])
        k = z3.Int(nm)
        kr = R(z3.ToReal(k))
        valid = D.b_and(D.r_le(D.ZERO, n), D.r_le(D.ZERO, pr), D.r_le(pr, D.ONE), D.fin(n))
        c.add(D.to_z3b(D.b_or(D.b_not(valid), D.b_and(k >= 0, D.r_le(kr, n)))))
        c.add(D.to_z3b(D.b_or(D.b_not(D.b_and(valid, D.r_zero(pr))), k == 0)))
        c.add(D.to_z3b(D.b_or(D.b_not(D.b_and(valid, D.r_eq(pr, D.ONE))), D.r_eq(kr, D.r_floor(n)))))
        inv = c.prune(D.b_not(valid))
        return kr if inv is False else R(z3.ToReal(k), nan=inv)
    if name == "gamma":
        a = D.as_real(p[0])
        v = z3.Real(nm)
        c.add(v >= 0)
        bad = c.prune(D.b_not(D.r_pos(a)))
        return R(v) if bad is False else R(v, nan=bad)
    if name == "exponential":
        v = z3.Real(nm)
        c.add(v >= 0)
        return R(v)
    if name == "beta":
        v = z3.Real(nm)
        c.add(z3.And(v >= 0, v <= 1))
        return R(v)
    if name == "truncated_normal":
        lo, hi = D.as_real(p[0]), D.as_real(p[1])
        v = z3.Real(nm)
        c.add(D.to_z3b(D.b_or(D.b_not(D.r_lt(lo, hi)), D.b_and(D.r_le(lo, R(v)), D.r_le(R(v), hi)))))
        return R(v)
    if name == "randint":
        lo, hi = p
        k = z3.Int(nm)
        lo_, hi_ = D.to_z3i(lo), D.to_z3i(hi)
        c.add(z3.If(lo_ < hi_, z3.And(k >= lo_, k < hi_), k == lo_))
        return k
    raise Unsupported("sampler " + name)


@rule("symrand")
def _rand_rule(eqn, key, *params):
    p = eqn.params
    name, shape, batch = p["name"], tuple(p["shape"]), tuple(p["batch"])
    c = ctx()
    full = batch + shape
    for b in np.ndindex(*batch):
        w0, w1 = key.data[b + (0,)], key.data[b + (1,)]
        if isinstance(w0, KW):
            if not (isinstance(w1, KW) and w0.key.eq(w1.key) and w0.i == 0 and w1.i == 1):
                raise Unsupported("mangled PRNG key")
            kt = w0.key
        else:
            kt = KeySort.root(D.to_z3i(w0 * 2**32 + w1))
        c.note_key("draw", kt)
    out = obj(full)
    elems = []
    rec = {"name": name, "shape": list(full), "elems": elems, "params": [q.data.ravel().tolist() for q in params]}
    c.draws.append(rec)
    for n, i in enumerate(np.ndindex(*full)):
        e = draw_elem(name, [q.data[i] for q in params], n)
        out[i] = e
        elems.append(e)
    dt = eqn.outvars[0].aval.dtype
    k = kind_of(dt)
    kk = {"poisson": "i", "bernoulli": "b", "randint": "i"}.get(name, "f")
    if k != kk:
        out = emap(lambda e: I.convert_elem(e, kk, k), out)
    return SA(out, dt)


def key_data(key):
    if hasattr(key, "dtype") and jax.dtypes.issubdtype(key.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(key)
    return key


def _bind_rand(key, params, name, shape, dtype):
    def f(key, *params):
        key = key_data(key)
        ps = [jnp.broadcast_to(jnp.asarray(q), shape) for q in params]
        return rand_p.bind(jnp.asarray(key), *ps, name=name, shape=tuple(int(s) for s in shape), dtype=str(np.dtype(dtype)), batch=())

    if ctx() is None or in_trace() and not any(isinstance(q, SymArray) for q in (key, *params)):
        return f(key, *params)
    if not isinstance(key, SymArray) and not in_trace():
        key = as_sym(NPASARRAY(key_data(key)))
    return sym_call(f, key, *params)


def _shape_of(x):
    return tuple(np.shape(x)) if not isinstance(x, (SymArray, jaxcore.Tracer)) else tuple(x.shape)


def _norm_shape(shape, *ps):
    if shape is None:
        return np.broadcast_shapes(*[_shape_of(p) for p in ps])
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


F32, I32 = np.float32, np.int32


def r_uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0, **k):
    return _bind_rand(key, [minval, maxval], "uniform", _norm_shape(shape), F32)


def r_normal(key, shape=(), dtype=None, **k):
    return _bind_rand(key, [], "normal", _norm_shape(shape), F32)


def r_poisson(key, lam, shape=None, dtype=None, **k):
    return _bind_rand(key, [lam], "poisson", _norm_shape(shape, lam), I32)


def r_bernoulli(key, p=0.5, shape=None, **k):
    return _bind_rand(key, [p], "bernoulli", _norm_shape(shape, p), np.bool_)


def r_binomial(key, n, p, shape=None, dtype=None, **k):
    return _bind_rand(key, [n, p], "binomial", _norm_shape(shape, n, p), F32)


def r_gamma(key, a, shape=None, dtype=None, **k):
    return _bind_rand(key, [a], "gamma", _norm_shape(shape, a), F32)


def r_exponential(key, shape=(), dtype=None, **k):
    return _bind_rand(key, [], "exponential", _norm_shape(shape), F32)


def r_beta(key, a, b, shape=None, dtype=None, **k):
    return _bind_rand(key, [a, b], "beta", _norm_shape(shape, a, b), F32)


def r_truncated(key, lower, upper, shape=None, dtype=None, **k):
    return _bind_rand(key, [lower, upper], "truncated_normal", _norm_shape(shape, lower, upper), F32)


def r_randint(key, shape, minval, maxval, dtype=None, **k):
    return _bind_rand(key, [minval, maxval], "randint", _norm_shape(shape), I32)


RAND = {
    "uniform": r_uniform,
    "normal": r_normal,
    "poisson": r_poisson,
    "bernoulli": r_bernoulli,
    "binomial": r_binomial,
    "gamma": r_gamma,
    "exponential": r_exponential,
    "beta": r_beta,
    "truncated_normal": r_truncated,
    "randint": r_randint,
}
RAND_ORIG = {n: getattr(jax.random, n) for n in RAND}


def r_prngkey(seed, *a, **k):
    """A key from a seed."""
    e = as_sym(seed).data.ravel()[0]
    kt = KeySort.root(D.to_z3i(int(e) if D.is_ci(e) else e))
    return key_from_term(kt)


def key_from_term(kt):
    d = obj((2,))
    d[0], d[1] = KW(kt, 0), KW(kt, 1)
    return SymArray(d, np.uint32, jaxy=True)


def key_term(k):
    w0, w1 = k.data.ravel()[:2]
    if isinstance(w0, KW):
        return w0.key
    return KeySort.root(D.to_z3i(w0 * 2**32 + w1))


# numpy global generator
def _np_draw(kind, n):
    c = ctx()
    elems = []
    rec = {"name": "np_" + kind, "shape": [n], "elems": elems}
    c.draws.append(rec)
    for j in range(n):
        nm = f"draw{len(c.draws) - 1}_{j}"
        v = z3.Real(nm)
        if kind == "uniform":
            c.add(z3.And(v >= 0, v < 1))
        elems.append(R(v))
    return elems


def _np_size(size, *ps):
    if size is None:
        return np.broadcast_shapes(*[_shape_of(p) for p in ps]) if ps else ()
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


def _std(kind, shape):
    n = int(np.prod(shape)) if shape else 1
    el = _np_draw(kind, n)
    d = obj(shape)
    for i, e in zip(np.ndindex(*shape), el):
        d[i] = e
    return SymArray(d, np.float64, py=(shape == ()))


def np_normal(loc=0.0, scale=1.0, size=None):
    sh = _np_size(size, loc, scale)
    if has_sym(scale):
        if (as_sym(scale) < 0).any():
            raise ValueError("scale < 0")
    elif np.any(np.asarray(scale) < 0):
        raise ValueError("scale < 0")
    z = _std("normal", sh)
    r = loc + scale * z
    return SymArray(np.broadcast_to(r.data, sh).copy(), np.float64, py=(sh == ()))


def np_uniform(low=0.0, high=1.0, size=None):
    sh = _np_size(size, low, high)
    u = _std("uniform", sh)
    r = low + (high - low) * u
    return SymArray(np.broadcast_to(r.data, sh).copy(), np.float64, py=(sh == ()))


def np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    sh = _np_size(size)
    c = ctx()
    rec = {"name": "np_randint", "shape": list(sh), "elems": []}
    c.draws.append(rec)
    d = obj(sh)
    lo, hi = as_sym(low).data[()], as_sym(high).data[()]
    for n, i in enumerate(np.ndindex(*sh)):
        k = z3.Int(f"draw{len(c.draws) - 1}_{n}")
        c.add(z3.And(k >= D.to_z3i(lo), k < D.to_z3i(hi)))
        rec["elems"].append(k)
        d[i] = k
    return SymArray(d, np.int64, py=(sh == ()))


NPRAND = {
    "normal": np_normal,
    "uniform": np_uniform,
    "randint": np_randint,
    "rand": lambda *s: np_uniform(0.0, 1.0, s or None),
    "random": lambda size=None: np_uniform(0.0, 1.0, size),
    "random_sample": lambda size=None: np_uniform(0.0, 1.0, size),
    "randn": lambda *s: np_normal(0.0, 1.0, s or None),
    "standard_normal": lambda size=None: np_normal(0.0, 1.0, size),
    "seed": lambda *a: None,
}


# ------------------------------------------------------------ python number shadows
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymArray):
            return x.py and x.kind == "f" and x.ndim == 0 or (x.ndim == 0 and x.dtype == np.float64 and not x.jaxy)
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            r = x.astype(np.float64) if not in_trace() else x
            return SymArray(_arr_scalar(r.data.ravel()[0]), np.float64, py=True)
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymArray):
            return x.py and x.kind in "iub" and x.ndim == 0
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymArray):
            r = SymArray(emap(lambda e: I.convert_elem(e, x.kind, "i"), x), np.int64)
            return SymArray(_arr_scalar(r.data.ravel()[0]), np.int64, py=True)
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymFloat(metaclass=_FloatMeta):
    _sx_real = float
    dtype = np.dtype(float)


class SymInt(metaclass=_IntMeta):
    _sx_real = int
    dtype = np.dtype(int)


def sym_bool(x=False):
    return bool(x)


def sym_round(x, n=None):
    if isinstance(x, SymArray):
        r = np_call("round", x, n or 0)
        return SymInt(r) if n is None else r
    return round(x) if n is None else round(x, n)


def elementwise(fn, *args):
    """fn on the elements of the broadcast arguments, as a float64 numpy array."""
    ds = np.broadcast_arrays(*[as_sym(a).astype(np.float64).data for a in args])
    out = np.empty(ds[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = fn(*[d[i] for d in ds])
    return SymArray(out, np.float64, jaxy=False)


def _norm_method(name, orig):
    """scipy.stats.norm on symbolic values, by its documented formula."""

    def f(x, loc=0, scale=1):
        if ctx() is None or not has_sym((x, loc, scale)):
            return orig(x, loc=loc, scale=scale)
        if name != "logpdf":
            r = getattr(jax.scipy.stats.norm, name)(as_sym(x), as_sym(loc), as_sym(scale))
            return SymArray(r.data.copy(), np.float64, jaxy=False)
        from . import spec as S

        def one(x, m, s):
            x, m, s = S.Sc(x), S.Sc(m), S.Sc(s)
            z = (x - m) / s
            return S.ite(s > 0, -z * z / 2 - math.log(2 * math.pi) / 2 - S.log(s), float("nan")).e

        return elementwise(one, x, loc, scale)

    return f


def _interp1d_factory(orig):
    """scipy.interpolate.interp1d on symbolic values: linear interpolation between the sorted nodes."""

    class Interp:
        def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
            self.real = None
            self.x, self.y = x, y
            self.kind, self.bounds_error, self.fill_value = kind, bounds_error, fill_value
            if ctx() is None or not has_sym((x, y)):
                self.real = orig(x, y, kind=kind, axis=axis, copy=copy, bounds_error=bounds_error, fill_value=fill_value, assume_sorted=assume_sorted)
                self.x, self.y = self.real.x, self.real.y
                if self.real.fill_value is not None and isinstance(fill_value, str):
                    self.fill_value = fill_value
            elif len(np.shape(x)) != 1 or np.shape(x) != np.shape(y):
                raise ValueError("x and y arrays must be equal in length along interpolation axis.")

        def __call__(self, q):
            if ctx() is None or (self.real is not None and not has_sym(q)):
                return self.real(q)
            if self.kind != "linear" or isinstance(self.fill_value, str):
                raise Unsupported("interp1d " + str((self.kind, self.fill_value)))
            xs, ys, q = as_sym(self.x), as_sym(self.y), as_sym(q)
            if self.bounds_error or (self.bounds_error is None and np.ndim(self.fill_value) == 0 and self.fill_value is np.nan):
                if bool(np_call("any", (q < xs[0]) | (q > xs[-1]))):
                    raise ValueError("A value in x_new is outside the interpolation range.")
            lo, hi = self.fill_value if isinstance(self.fill_value, (tuple, list)) else (self.fill_value, self.fill_value)
            for a in range(len(xs) - 1):
                if not ctx().decide((xs[a] < xs[a + 1]).data[()]):
                    raise Unsupported("interp1d nodes not increasing")
            from . import spec as S

            X, Y = [S.Sc(v) for v in xs.data], [S.Sc(v) for v in ys.data]

            def one(q):
                q = S.Sc(q)
                r = S.linear(q, X, Y)
                return S.ite(q < X[0], lo, S.ite(q > X[-1], hi, S.ite(q.finite, r, float("nan")))).e

            return elementwise(one, q)

    return Interp


FILES = []  # symbolic scalars written to files on this path


def mark_file(x):
    if isinstance(x, SymArray):
        if x.ndim:
            return [mark_file(x[i]) for i in range(len(x))]
        FILES.append(x)
        return f"@sym:{len(FILES) - 1}"
    if isinstance(x, dict):
        return {k: mark_file(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [mark_file(v) for v in x]
    return x


def subst_file(x):
    if isinstance(x, str) and x.startswith("@sym:"):
        return FILES[int(x[5:])]
    if isinstance(x, dict):
        return {k: subst_file(v) for k, v in x.items()}
    if isinstance(x, list):
        return [subst_file(v) for v in x]
    return x


_installed = [False]
SHADOW_MODULES = ("likelihood", "parameter", "context", "component", "share", "utils", "plot", "config")


def install():
    """Patch the libraries; must run before appletree is imported."""
    if _installed[0]:
        return
    _installed[0] = True
    import jax.scipy.special
    import jax.scipy.stats
    import jax.nn

    jnp.ndarray  # noqa
    wrap_module(jnp, _jnp_dispatch)
    wrap_module(jnp.linalg, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    wrap_module(lax, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    wrap_module(jax.nn, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    wrap_module(jax.scipy.special, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    import jax.ops
    import jax.scipy.integrate

    jax.ops, jax.scipy.integrate
    for mod in (jax.ops, jax.scipy.integrate):
        wrap_module(mod, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    # control flow whose functions may refer to symbolic values
    for n in ("fori_loop", "scan", "while_loop", "cond", "switch", "map", "associative_scan"):
        setattr(lax, n, _always(getattr(lax, n)))
    for nm in dir(jax.scipy.stats):
        m = getattr(jax.scipy.stats, nm)
        if isinstance(m, types.ModuleType):
            wrap_module(m, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)))
    for n, f in RAND.items():
        setattr(jax.random, n, functools.wraps(RAND_ORIG[n])(f))
    wrap_module(jax.random, lambda n, f: (lambda *a, **k: sym_call(f, *a, **k)), skip=tuple(RAND))
    jax.random.PRNGKey = r_prngkey
    jax.random.key = r_prngkey
    # transformations
    jax.jit = _lift_transform(jax.jit, True)
    jnp.vectorize = _lift_transform(jnp_orig("vectorize"))
    for n in ("vmap", "pmap", "grad", "checkpoint", "remat"):
        setattr(jax, n, _lift_transform(getattr(jax, n)))
    # numpy
    import scipy.stats  # noqa: make sure libraries are imported unpatched
    import scipy.special  # noqa
    import pandas  # noqa
    import matplotlib.pyplot  # noqa
    import emcee  # noqa
    import strax  # noqa
    import scipy.interpolate

    scipy.interpolate.interp1d = _interp1d_factory(scipy.interpolate.interp1d)
    for n in ("logpdf", "pdf", "cdf", "logcdf"):
        setattr(scipy.stats.norm, n, _norm_method(n, getattr(scipy.stats.norm, n)))
    wrap_module(np, lambda n, f: functools.partial(np_call, n), skip=("errstate", "printoptions", "set_printoptions", "seterr", "geterr", "dtype", "shares_memory", "may_share_memory", "ndindex", "save", "load", "savez", "info", "test", "show_config", "broadcast_shapes"))
    for n, f in NPRAND.items():
        setattr(np.random, n, f)
    # symbolic file contents
    import json

    jl = json.loads

    def loads(s, *a, **k):
        r = jl(s, *a, **k)
        return subst_file(r) if FILES else r

    json.loads = loads

    def has_any(x):
        if isinstance(x, SymArray):
            return True
        if isinstance(x, dict):
            return any(has_any(v) for v in x.values())
        return isinstance(x, (list, tuple)) and any(has_any(v) for v in x)

    def check_json(x):
        if isinstance(x, SymArray) and (x.ndim or x.jaxy or not (x.py or x.dtype == np.float64)):
            raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")
        for v in x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else ():
            check_json(v)

    jd, jds = json.dump, json.dumps

    def dump(obj, fp, *a, **k):
        if has_any(obj):
            check_json(obj)
            obj = mark_file(obj)
        return jd(obj, fp, *a, **k)

    def dumps(obj, *a, **k):
        if has_any(obj):
            check_json(obj)
            obj = mark_file(obj)
        return jds(obj, *a, **k)

    json.dump, json.dumps = dump, dumps
    # indexing of concrete arrays by symbolic indices
    from jax._src.array import ArrayImpl

    og = ArrayImpl.__getitem__

    def gi(self, idx):
        if has_sym(idx):
            return as_sym(self)[idx]
        return og(self, idx)

    ArrayImpl.__getitem__ = gi
    from jax._src.numpy import array_methods as am

    hg = am._IndexUpdateHelper.__getitem__

    def hgi(self, idx):
        if has_sym(idx) and isinstance(self.array, ArrayImpl):
            return as_sym(self.array).at[idx]
        return hg(self, idx)

    am._IndexUpdateHelper.__getitem__ = hgi

    def updater(n, f):
        @functools.wraps(f)
        def call(self, *a, **k):
            if has_sym(a) and isinstance(self.array, ArrayImpl):
                return getattr(as_sym(self.array).at[self.index], n)(*a, **k)
            return f(self, *a, **k)

        return call

    for n in ("set", "add", "subtract", "multiply", "divide", "power", "min", "max"):
        if hasattr(am._IndexUpdateRef, n):
            setattr(am._IndexUpdateRef, n, updater(n, getattr(am._IndexUpdateRef, n)))


def _always(f):
    orig = getattr(f, "_sx_orig", f)

    @functools.wraps(orig)
    def call(*a, **k):
        if ctx() is not None and not in_trace():
            return sym_call(orig, *a, **k)
        return orig(*a, **k)

    call._sx_orig = orig
    return call


def shadow_numbers():
    """Give appletree modules float/int that accept symbolic values."""
    import importlib

    for m in SHADOW_MODULES:
        mod = importlib.import_module("appletree." + m)
        mod.float = SymFloat
        mod.int = SymInt
        mod.round = sym_round
