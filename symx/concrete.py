"""Replays counterexamples and witnesses on the real code (concrete values, preset random draws)."""
import functools
import importlib
import inspect
import json
import os
import sys
import traceback

os.environ["JAX_DISABLE_JIT"] = "1"

import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jcore
from jax.interpreters import batching

from . import lift


class ReplayMismatch(BaseException):
    pass


class Cur:
    draws = []
    pos = 0
    h = None


def pop(name, shape, params, key=None):
    h = Cur.h
    if Cur.pos >= len(Cur.draws):
        raise ReplayMismatch("more draws than on the symbolic path")
    d = Cur.draws[Cur.pos]
    Cur.pos += 1
    if d["name"] != name or tuple(d["shape"]) != tuple(shape):
        raise ReplayMismatch(f"draw {name}{tuple(shape)} where {d['name']}{tuple(d['shape'])} was expected")
    vals = [float(v) if isinstance(v, str) else (0 if v is None else v) for v in d["values"]]
    h.draws.append({"name": name, "shape": list(shape), "elems": vals, "params": [np.asarray(p).ravel().tolist() for p in params]})
    return np.array(vals).reshape(shape)


def note(kind, key):
    for w in np.asarray(key).reshape(-1, 2):
        Cur.h.keys.append((kind, (int(w[0]), int(w[1]))))


def concrete_draw(key, params, name, shape, dtype):
    note("draw", key)
    return jnp.asarray(pop(name, shape, params).astype(dtype))


note_p = jcore.Primitive("keynote")


@note_p.def_abstract_eval
def _na(k, *, kind):
    return k


@note_p.def_impl
def _ni(k, *, kind):
    note(kind, k)
    return k


batching.primitive_batchers[note_p] = lambda a, d, *, kind: (note_p.bind(jnp.moveaxis(a[0], d[0], 0), kind=kind), 0)


def install_jit():
    """Compilation is off during a replay; as under the real jit, ordinary arrays still enter the function as jax arrays."""
    orig = jax.jit

    def jit(fun=None, *a, **k):
        if fun is None:
            return lambda f: jit(f, *a, **k)
        g = orig(fun, *a, **k)

        @functools.wraps(fun)
        def call(*args, **kw):
            args, kw = jax.tree_util.tree_map(lambda x: jnp.asarray(x) if isinstance(x, np.ndarray) and x.dtype != object else x, (args, kw))
            return g(*args, **kw)

        try:
            call.__signature__ = inspect.signature(fun)
        except (TypeError, ValueError):
            pass
        return call

    jax.jit = jit


def install():
    install_jit()
    lift.CONCRETE_DRAW[0] = concrete_draw
    for n, f in lift.RAND.items():
        orig = lift.RAND_ORIG[n]

        def w(*a, _f=f, _o=orig, **k):
            return _f(*a, **k) if Cur.h is not None else _o(*a, **k)

        w.__name__ = n
        setattr(jax.random, n, w)
    for n, kind in (("split", "split"), ("fold_in", "fold")):
        orig = getattr(jax.random, n)

        def w(key, *a, _o=orig, _kind=kind, **k):
            if Cur.h is not None and not jax.dtypes.issubdtype(getattr(key, "dtype", np.uint32), jax.dtypes.prng_key):
                key = note_p.bind(jnp.asarray(key), kind=_kind)
            return _o(key, *a, **k)

        w.__name__ = n
        setattr(jax.random, n, w)

    def size_of(size, *ps):
        if size is None:
            return np.broadcast_shapes(*[np.shape(p) for p in ps]) if ps else ()
        return (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)

    def std(kind, sh):
        n = int(np.prod(sh)) if sh else 1
        v = pop("np_" + kind, [n], [])
        return v.reshape(sh) if sh else float(v[0])

    def normal(loc=0.0, scale=1.0, size=None):
        if np.any(np.asarray(scale) < 0):
            raise ValueError("scale < 0")
        sh = size_of(size, loc, scale)
        return loc + scale * std("normal", sh)

    def uniform(low=0.0, high=1.0, size=None):
        sh = size_of(size, low, high)
        return low + (high - low) * std("uniform", sh)

    def randint(low, high=None, size=None, dtype=int):
        sh = size_of(size)
        v = pop("np_randint", sh, [])
        return v.astype(int) if sh else int(v)

    R = {
        "normal": normal,
        "uniform": uniform,
        "randint": randint,
        "rand": lambda *s: uniform(0.0, 1.0, s or None),
        "random": lambda size=None: uniform(0.0, 1.0, size),
        "random_sample": lambda size=None: uniform(0.0, 1.0, size),
        "randn": lambda *s: normal(0.0, 1.0, s or None),
        "standard_normal": lambda size=None: normal(0.0, 1.0, size),
    }
    for n, f in R.items():
        orig = getattr(np.random, n)

        def w(*a, _f=f, _o=orig, **k):
            return _f(*a, **k) if Cur.h is not None else _o(*a, **k)

        setattr(np.random, n, w)


def replay(mod, rec, globals_):
    from . import driver
    from .harness import ConcH, AssumeFailed

    insts = {i["name"]: i for t in ("thorough", "quick") for i in mod.instances(t)}
    if rec["instance"] not in insts:
        return {"error": "unknown instance"}
    inst = insts[rec["instance"]]
    h = ConcH(rec)
    Cur.h, Cur.draws, Cur.pos = h, rec["draws"], 0
    out = {}
    try:
        with driver.quiet():
            inst["func"](h, **inst.get("params", {}))
    except AssumeFailed:
        out["assume_failed"] = True
    except ReplayMismatch as e:
        out["mismatch"] = str(e)
    except Exception as e:
        out["exception"] = type(e).__name__
        out["message"] = str(e)[:500]
        out["in_code"] = driver.in_code(e)
        out["trace"] = "".join(traceback.format_exception(e)[-5:])
        if not out["in_code"]:
            out["harness_error"] = out.pop("exception")
    finally:
        Cur.h = None
        with driver.quiet():
            h.close_all()
        globals_.restore()
    out["failed"] = h.failed
    out["info"] = getattr(h, "info", "")
    out["n_checks"] = h.n_checks
    if out.get("assume_failed") and h.failed:
        out["assume_failed"] = False
    return out


def main():
    check = sys.argv[1]
    outfd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(outfd, "w", buffering=1)
    install()
    import appletree  # noqa

    for m in "config component context likelihood parameter plugin plugins.nestv2 plot utils randgen interpolation hist".split():
        importlib.import_module("appletree." + m)
    from . import driver

    mod = importlib.import_module("checks." + check.lower())
    g = driver.Globals()
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        rec = json.loads(line)
        try:
            rep = replay(mod, rec, g)
        except BaseException as e:
            rep = {"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
        out.write(json.dumps(rep) + "\n")


if __name__ == "__main__":
    main()
