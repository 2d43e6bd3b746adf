"""Runs the simulate method of a shipped plugin on symbolic columns."""
import numpy as np

P25_RANGE = dict(lo=0, hi=1000)


def make(h, cls, maps=None, llh="check", **constants):
    """An instance of the plugin; its maps answer from the given stubs, constants take the given values."""
    p = cls(llh)
    for n, f in (maps or {}).items():
        h.patch(getattr(p, n), "apply", f)
    for n, v in constants.items():
        h.patch(getattr(p, n), "value", v)
    return p


def f32(h, *cols):
    return [h.array(c) for c in cols]


def i32(h, *cols):
    return [h.array(c, np.int32) for c in cols]


def run(h, p, pars, *cols, key="key"):
    """Columns returned by the plugin, as arrays of specification scalars."""
    r = p(h.key(key), pars, *cols)
    return list(r[1:])


def vec(h, out, n, label="shape"):
    h.check(tuple(h.shape(out)) == (n,), label + ": one value per event")
    return list(h.S(out))


def draws(h, name):
    return [d for d in h.draws if d["name"] == name]


def par(h, d, i, k):
    """Parameter i of draw record d for element k."""
    return h.Sc(d["params"][i][k])


def el(h, d, k):
    return h.Sc(d["elems"][k])
