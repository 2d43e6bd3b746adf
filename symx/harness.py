"""The object given to every check: symbolic in the solver run, concrete in the replay of a counterexample."""
import contextlib
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np
import z3

from . import dom as D
from . import spec as S
from .dom import R
from .engine import Infeasible, ViolationFound, Inconclusive, PathStop

RTOL, ATOL = 1e-3, 1e-6


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label):
        self.label = label


class Result:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def raised(self):
        return self.exc is not None


class Base:
    """Common to both modes."""

    sym = False
    # specification helpers
    exp = staticmethod(S.exp)
    log = staticmethod(S.log)
    sqrt = staticmethod(S.sqrt)
    erf = staticmethod(S.erf)
    sin = staticmethod(S.sin)
    cos = staticmethod(S.cos)
    floor = staticmethod(S.floor)
    ceil = staticmethod(S.ceil)
    rnd = staticmethod(S.rnd)
    abs = staticmethod(S.absv)
    ite = staticmethod(S.ite)
    all = staticmethod(S.all_)
    any = staticmethod(S.any_)
    not_ = staticmethod(S.not_)
    implies = staticmethod(S.implies)
    sum = staticmethod(S.sum_)
    prod = staticmethod(S.prod_)
    min = staticmethod(S.min_)
    max = staticmethod(S.max_)
    clip = staticmethod(S.clip)
    same = staticmethod(S.same)
    linear = staticmethod(S.linear)
    Sc = S.Sc
    shape = staticmethod(S.shape_of)
    S = staticmethod(S.scs)

    def __init__(self):
        self._tmp = None
        self._cleanup = []

    @property
    def tmp(self):
        """Scratch directory removed at the end of the path."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx_")
        return self._tmp

    def close_all(self):
        for f in reversed(self._cleanup):
            f()
        self._cleanup = []
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def json_file(self, name, obj):
        """A JSON file in the scratch directory; its numbers may be symbolic."""
        import json

        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            json.dump(self._mark(obj), f)
        return path

    def _mark(self, obj):
        return obj

    def patch(self, obj, name, value):
        """Replace an attribute for the duration of the path."""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

        self._cleanup.append(undo)

    def stub(self, name, shape=None, lo=None, hi=None, value=None):
        """A function of arrays returning unknown values (one per event), usable inside traced code.

        Returns (function, list of argument lists of the calls)."""
        from . import lift

        calls = []

        def fn(*args):
            n = len(calls)
            calls.append([S.scs(a) for a in args])
            sh = shape or tuple(args[0].shape[:1])
            if value is not None:
                return self.array(value(n, *calls[-1]))
            v = self.reals(f"{name}_{n}_", int(np.prod(sh)), lo=lo, hi=hi)
            calls[-1].append(np.array([S.Sc(x) for x in v] + [None], dtype=object)[:-1])
            return self.array(v) if sh else self.array(v[0])

        def f(*args, **kw):
            args = [a for a in args if not isinstance(a, dict)]
            return lift.callback(fn, shape or tuple(np.shape(args[0]) if not hasattr(args[0], "shape") else args[0].shape)[:1], *args)

        return f, calls

    def attempt(self, fn, *a, **k):
        try:
            return Result(fn(*a, **k))
        except Exception as e:
            return Result(exc=e)

    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int_(f"{name}{i}", lo, hi) for i in range(n)]

    def increasing(self, name, n, gap=Fraction(1, 1000), **k):
        xs = self.reals(name, n, **k)
        for a, b in zip(xs, xs[1:]):
            self.assume(S.Sc(b) - S.Sc(a) >= gap)
        return xs

    def refuse(self, fn, label, exc=Exception):
        """fn() must raise."""
        r = self.attempt(fn)
        self.check(r.raised and isinstance(r.exc, exc), label)
        return r

    def eq_list(self, got, want, label):
        """Elementwise close with equal shapes."""
        g, w = S.scs(got), S.scs(want)
        gs, ws = S.shape_of(g), S.shape_of(w)
        self.check(gs == ws, label + ": shape")
        if gs != ws:
            return
        for i in np.ndindex(*gs):
            self.close(g[i] if gs else g, w[i] if gs else w, label)


class SymH(Base):
    sym = True

    def __init__(self, c, engine):
        super().__init__()
        self.c = c
        self.engine = engine
        from . import lift

        self.L = lift

    def _mark(self, obj):
        return self.L.mark_file(obj)

    # ---- inputs
    def _reg(self, name, kind, e, meta=None):
        self.c.inputs.append((name, kind, e, meta))

    def real(self, name, lo=None, hi=None, special=False, jax=False, lo_open=False, hi_open=False):
        v = z3.Real("in_" + name)
        e = R(v)
        if special:
            n, p, m = [z3.Bool(f"in_{name}_{s}") for s in ("nan", "pinf", "ninf")]
            self.c.add(z3.And(z3.Not(z3.And(n, p)), z3.Not(z3.And(n, m)), z3.Not(z3.And(p, m))))
            e = R(v, n, p, m)
        lim = z3.RealVal(10) ** 30 if False else None
        if lo is not None:
            l = D.rv(D.frac_of_float(lo) if not isinstance(lo, Fraction) else lo)
            self.c.add(z3.Or(v > l if lo_open else v >= l, *([e.nan, e.pinf, e.ninf] if special else [])) if special else (v > l if lo_open else v >= l))
        if hi is not None:
            h = D.rv(D.frac_of_float(hi) if not isinstance(hi, Fraction) else hi)
            self.c.add(z3.Or(v < h if hi_open else v <= h, *([e.nan, e.pinf, e.ninf] if special else [])) if special else (v < h if hi_open else v <= h))
        self._reg(name, "real", e)
        a = self.L._arr_scalar(e)
        return self.L.SymArray(a, np.float64, py=True)

    def int_(self, name, lo=None, hi=None):
        v = z3.Int("in_" + name)
        if lo is not None:
            self.c.add(v >= lo)
        if hi is not None:
            self.c.add(v <= hi)
        self._reg(name, "int", v)
        return self.L.SymArray(self.L._arr_scalar(v), np.int64, py=True)

    def bool_(self, name):
        v = z3.Bool("in_" + name)
        self._reg(name, "bool", v)
        return self.L.SymArray(self.L._arr_scalar(v), np.bool_, py=True)

    def pick(self, name, options):
        """Case split: the path continues with one of the options."""
        v = z3.Int("pick_" + name)
        self.c.add(z3.And(v >= 0, v < len(options)))
        self._reg(name, "pick", v)
        return options[self.c.concretize_int(v, range(len(options)))]

    def flag(self, name):
        return self.pick(name, [False, True])

    def perm(self, name, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.pick(f"{name}{len(out)}", list(range(len(items))))))
        return out

    def key(self, name="key"):
        v = z3.Int("in_" + name)
        assert not any(n == name and k == "key" for n, k, _, _ in self.c.inputs), "key name used twice: " + name
        self.c.add(z3.And(v >= 0, v < 2**31))
        for n, k, o, _ in self.c.inputs:
            if k == "key":
                self.c.add(v != o)
        self._reg(name, "key", v)
        from .interp import KeySort

        return self.L.key_from_term(KeySort.root(v))

    def array(self, xs, dtype=np.float32, jax=True):
        a = self.L.as_sym(list(xs) if isinstance(xs, (tuple, np.ndarray)) else xs)
        a = self.L.SymArray(a.data.copy(), a.dtype)
        a = a.astype(dtype)
        a.jaxy = jax
        return a

    def np_array(self, xs, dtype=np.float64):
        return self.array(xs, dtype, jax=False)

    # ---- logic
    def assume(self, cond):
        self.c.add(S.bexpr(cond))

    def path(self, cond):
        """Branch on a condition."""
        return bool(self.c.decide(S.bexpr(cond)))

    def fact(self, cond, label):
        """Prove a lemma, then use it."""
        self.check(cond, label)
        self.assume(cond)

    def check(self, cond, label):
        self.engine.check(self.c, S.bexpr(cond), label)

    def check_margin(self, cond, label, margin):
        """Exact condition first, the tolerant one when the exact one is not proved."""
        self.engine.check(self.c, S.bexpr(cond), label, margin=lambda: S.bexpr(margin()))

    def close(self, a, b, label, rtol=RTOL, atol=ATOL):
        self.engine.check(self.c, S.same(a, b).b, label, margin=lambda: S.near(a, b, rtol, atol).b, atol=Fraction(str(atol)))

    def le(self, a, b, label, rtol=RTOL, atol=ATOL):
        a, b = S.Sc(a), S.Sc(b)
        f = Fraction(str(atol)) + abs(b) * Fraction(str(rtol))
        self.engine.check(self.c, (a <= b).b, label, margin=lambda: S.any_(a <= b, a - b <= f).b)

    # ---- randomness
    @property
    def draws(self):
        return self.c.draws

    def same_key(self, a, b):
        from . import lift

        a, b = lift.key_term(a), lift.key_term(b)
        return True if a.eq(b) else a == b

    def fresh_keys(self, label, handed=(), seeds=()):
        """No draw shares its generator state with another draw, a split or a key handed on."""
        from . import lift

        ds = [k for what, k in self.c.keys if what == "draw"]
        used = ds + [k for what, k in self.c.keys if what in ("split", "fold")]
        hk = [lift.key_term(h) for h in handed]
        cond = []
        for i in range(len(ds)):
            for j in range(i):
                cond.append(ds[i] != ds[j])
        sp = [k for what, k in self.c.keys if what in ("split", "fold")]
        for d in ds:
            for s in sp:
                cond.append(d != s)
        # a state is split at most once
        for i in range(len(sp)):
            for j in range(i):
                cond.append(sp[i] != sp[j])
        for n, h in enumerate(hk):
            for u in used:
                cond.append(h != u)
            for g in hk[:n]:
                cond.append(h != g)
        self.check(z3.And(*cond) if cond else True, label)


class ConcH(Base):
    """Concrete replay on the real code."""

    def __init__(self, rec):
        super().__init__()
        self.rec = rec
        self.failed = []
        self.n_checks = 0
        self.keys = []
        self.draws = []

    def _get(self, name):
        return self.rec["inputs"][name]

    def real(self, name, lo=None, hi=None, special=False, jax=False, lo_open=False, hi_open=False):
        return float(self._get(name))

    def int_(self, name, lo=None, hi=None):
        return int(self._get(name))

    def bool_(self, name):
        return bool(self._get(name))

    def pick(self, name, options):
        return options[int(self._get(name))]

    flag = SymH.flag
    perm = SymH.perm

    def key(self, name="key"):
        import jax

        return jax.random.PRNGKey(int(self._get(name)))

    def array(self, xs, dtype=np.float32, jax=True):
        import jax.numpy as jnp

        a = np.array(xs, dtype=dtype)
        return jnp.asarray(a) if jax else a

    def np_array(self, xs, dtype=np.float64):
        return np.array(xs, dtype=dtype)

    def assume(self, cond):
        b = S.bexpr(cond)
        if not b:
            raise AssumeFailed()

    def path(self, cond):
        return bool(S.bexpr(cond))

    def fact(self, cond, label):
        self.check(cond, label)

    def check(self, cond, label):
        self.n_checks += 1
        if not bool(S.bexpr(cond)):
            self.failed.append(label)

    def check_margin(self, cond, label, margin):
        self.check(margin(), label)

    def close(self, a, b, label, rtol=RTOL, atol=ATOL):
        ok = bool(S.near(a, b, rtol, atol).b)
        self.check(ok, label)
        if not ok:
            self.failed[-1:] = [label]
            self.info = f"{label}: got {S.Sc(a).e!r}, expected {S.Sc(b).e!r}"

    def le(self, a, b, label, rtol=RTOL, atol=ATOL):
        a, b = S.Sc(a), S.Sc(b)
        f = Fraction(str(atol)) + abs(b) * Fraction(str(rtol))
        self.check(S.any_(a <= b, a - b <= f), label)

    def same_key(self, a, b):
        return [int(w) for w in np.asarray(a).ravel()[-2:]] == [int(w) for w in np.asarray(b).ravel()[-2:]]

    def fresh_keys(self, label, handed=(), seeds=()):
        def t(k):
            return tuple(int(w) for w in np.asarray(k).ravel()[-2:])

        ds = [k for w, k in self.keys if w == "draw"]
        sp = [k for w, k in self.keys if w in ("split", "fold")]
        hk = [t(h) for h in handed]
        ok = len(set(ds)) == len(ds) and not set(ds) & set(sp) and len(set(sp)) == len(sp)
        ok = ok and len(set(hk)) == len(hk) and not set(hk) & (set(ds) | set(sp))
        self.check(ok, label)
