"""P30: samplers respect support, location, scale and shape."""
import numpy as np

BOUNDS = "scalars, equal shapes (2,), broadcast shapes ((2,1) with (3,), () with (2,)) and explicit shapes; arbitrary parameters in their domain (|.| <= 1000); hybrid binomial with thresholds 1..4 and trial counts 0..6 (exact part) and up to 10^4 (normal part); generalised Poisson up to 3 generations"
ASSUMPTIONS = ["jax.random primitives follow their documented contracts (support of each draw); independence of the draws is P15"]
FUNCTIONS = ["randgen." + n for n in "uniform poisson gamma normal truncate_normal skewnormal bernoulli binomial binomial_hybrid negative_binomial generalized_poisson uniform_key_vectorized".split()]

# name of the case -> shapes of the (up to three) parameters, explicit shape, output shape
SHAPES = {
    "scalar": ((), (), (), (), ()),
    "vector": ((2,), (2,), (2,), (), (2,)),
    "mixed": ((), (2,), (), (), (2,)),
    "mixed2": ((2,), (), (), (), (2,)),
    "outer": ((2, 1), (3,), (), (), (2, 3)),
    "given": ((), (), (), (2,), (2,)),
    "given2": ((2,), (), (2,), (2, 2), (2, 2)),
}


def nest(v, shape):
    if not shape:
        return v[0]
    k = len(v) // shape[0]
    return [nest(v[i * k : (i + 1) * k], shape[1:]) for i in range(shape[0])]


def obj(v, shape):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a.reshape(shape)


def par(h, name, shape, **k):
    """A parameter of the given shape: (array of scalars for the specification, what the sampler gets)"""
    v = h.reals(name, int(np.prod(shape)), **k)
    return obj([h.Sc(x) for x in v], shape), h.array(nest(v, shape))


def ipar(h, name, shape, lo, hi):
    v = h.ints(name, int(np.prod(shape)), lo, hi)
    return obj([h.Sc(x) for x in v], shape), h.array(nest(v, shape), np.int32)


def at(v, i, shape):
    """element of a parameter broadcast to the output shape"""
    return np.broadcast_to(v, shape)[i]


def call(h, fn, key, args, shape):
    r = fn(key, *args, shape=shape) if shape else fn(key, *args)
    return r


def drawn(h):
    """Draws of the call as lists of Sc."""
    ds = h.draws
    return [(d["name"], tuple(d["shape"]), [h.Sc(e) for e in d["elems"]], [[h.Sc(q) for q in p] for p in d["params"]]) for d in ds]


def pos(shape, i):
    return int(np.ravel_multi_index(i, shape)) if shape else 0


def sampler(h, name, case):
    from appletree import randgen as G

    s0, s1, s2, ex, out = SHAPES[case]
    key = h.key()
    W = dict(lo=-1000, hi=1000)
    fn = getattr(G, name)
    dt = np.int32 if name in ("poisson", "bernoulli", "binomial", "negative_binomial") else np.float32
    if name == "uniform":
        a, A = par(h, "lo", s0, **W)
        b, B = par(h, "hi", s1, **W)
        for i in np.ndindex(*out):
            h.assume(at(b, i, out) - at(a, i, out) >= 0.0625)
        _, r = call(h, fn, key, [A, B], ex)
    elif name in ("normal",):
        a, A = par(h, "mean", s0, **W)
        b, B = par(h, "std", s1, lo=0, hi=1000)
        _, r = call(h, fn, key, [A, B], ex)
    elif name == "gamma":
        a, A = par(h, "alpha", s0, lo=0.0625, hi=1000)
        b, B = par(h, "beta", s1, lo=0.0625, hi=1000)
        _, r = call(h, fn, key, [A, B], ex)
    elif name in ("poisson", "bernoulli"):
        a, A = par(h, "p", s1 if case == "outer" else s0, lo=0, hi=1 if name == "bernoulli" else 1000)
        out = ex or np.shape(a)
        _, r = call(h, fn, key, [A], ex)
    elif name in ("binomial", "negative_binomial"):
        a, A = par(h, "p", s0, lo=0.0625 if name[0] == "n" else 0, hi=0.9375 if name[0] == "n" else 1)
        if name[0] == "n":
            b, B = par(h, "n", s1, lo=0.0625, hi=1000)
        else:
            b, B = ipar(h, "n", s1, 0, 1000)
        _, r = call(h, fn, key, [A, B], ex)
    h.check(tuple(h.shape(r)) == tuple(out), "broadcast shape")
    h.check(np.dtype(r.dtype) == dt, "type")
    D = drawn(h)
    h.check(all(len(d[2]) == int(np.prod(out)) for d in D), "one draw per output")
    R = h.S(r)
    for i in np.ndindex(*out):
        o = R[i] if out else R
        k = pos(out, i)
        if name == "uniform":
            h.check(len(D) == 1 and D[0][0] == "uniform", "one uniform draw")
            lo, hi = at(a, i, out), at(b, i, out)
            dl, dh = D[0][3][0][k], D[0][3][1][k]
            u = (D[0][2][k] - dl) / (dh - dl)
            h.check_margin(o >= lo, "not below the lower bound", lambda: o >= lo - 0.001)
            h.check_margin(o < hi, "below the upper bound", lambda: o < hi + 0.001)
            h.close(o, lo + (hi - lo) * u, "uniform between the bounds")
        elif name == "normal":
            h.close(o, at(a, i, out) + at(b, i, out) * D[0][2][k], "mean plus std times a standard normal")
        elif name == "gamma":
            h.close(D[0][3][0][k], at(a, i, out), "shape parameter")
            h.close(o, D[0][2][k] / at(b, i, out), "unit gamma over the rate")
        elif name in ("poisson", "bernoulli"):
            if D[0][0] == "uniform":
                h.close(o, h.ite(D[0][2][k] < at(a, i, out), 1, 0), "success with the given probability")
            else:
                h.check(D[0][0] == name, "sampler")
                h.close(D[0][3][0][k], at(a, i, out), "rate / probability")
                h.close(o, D[0][2][k], "the drawn count")
            h.check(o >= 0 if name == "poisson" else h.any(h.same(o, 0), h.same(o, 1)), "support")
        elif name == "binomial":
            h.check(D[0][0] == "binomial", "sampler")
            h.close(D[0][3][0][k], at(b, i, out), "trials")
            h.close(D[0][3][1][k], at(a, i, out), "probability")
            h.close(o, D[0][2][k], "the drawn count")
            h.check(h.all(o >= 0, o <= at(b, i, out)), "support")
        elif name == "negative_binomial":
            h.check([d[0] for d in D] == ["gamma", "poisson"], "gamma-Poisson mixture")
            p = at(a, i, out)
            h.close(D[0][3][0][k], at(b, i, out), "gamma shape is the number of successes")
            h.close(D[1][3][0][k], D[0][2][k] * (1 - p) / p, "Poisson rate")
            h.close(o, D[1][2][k], "the drawn count")
            h.check(o >= 0, "support")


def truncated(h, case):
    from appletree import randgen as G

    s0, s1, s2, ex, out = SHAPES[case]
    W = dict(lo=-1000, hi=1000)
    a, A = par(h, "mean", s0, **W)
    b, B = par(h, "std", s1, lo=0, hi=1000)
    use = h.pick("bounds", ["both", "low", "high"])
    l, L = par(h, "lo", s2, **W)
    u, U = par(h, "hi", s2, **W)
    for i in np.ndindex(*s2):
        h.assume(at(u, i, s2) >= at(l, i, s2))
    kw = {}
    if use != "high":
        kw["vmin"] = L
    if use != "low":
        kw["vmax"] = U
    if ex:
        kw["shape"] = ex
    _, r = G.truncate_normal(h.key(), A, B, **kw)
    h.check(tuple(h.shape(r)) == tuple(out), "broadcast shape")
    D = drawn(h)
    for i in np.ndindex(*out):
        o = h.S(r)[i] if out else h.S(r)
        x = at(a, i, out) + at(b, i, out) * D[0][2][pos(out, i)]
        if use != "high":
            x = h.max(x, at(l, i, out))
        if use != "low":
            x = h.min(x, at(u, i, out))
        h.close(o, x, "normal clipped to the bounds")


def skew(h, case):
    from appletree import randgen as G

    s0, s1, s2, ex, out = SHAPES[case]
    a, A = par(h, "a", s0, lo=-100, hi=100)
    b, B = par(h, "loc", s1, lo=-1000, hi=1000)
    c, C = par(h, "scale", s2, lo=0.0625, hi=1000)
    _, r = call(h, G.skewnormal, h.key(), [A, B, C], ex)
    h.check(tuple(h.shape(r)) == tuple(out), "broadcast shape")
    D = drawn(h)
    h.check([d[0] for d in D] == ["normal", "normal"] and all(d[1] == tuple(out) for d in D), "two normal draws")
    for i in np.ndindex(*out):
        o = h.S(r)[i] if out else h.S(r)
        k = pos(out, i)
        al, loc, sc = at(a, i, out), at(b, i, out), at(c, i, out)

        def val(x, y):
            return loc + sc * (al * h.abs(x) + y) / h.sqrt(1 + al * al)

        x, y = D[0][2][k], D[1][2][k]
        h.close(o, val(x, y), "skew normal of two normals")


def gpoisson(h, case):
    from appletree import randgen as G

    s0, s1, s2, ex, out = SHAPES[case]
    a, A = par(h, "lam", s0, lo=0, hi=1000)
    b, B = par(h, "eta", s1, lo=0, hi=0.9375)
    _, r = call(h, G.generalized_poisson, h.key(), [A, B], ex)
    h.check(tuple(h.shape(r)) == tuple(out), "broadcast shape")
    D = drawn(h)
    h.check(all(d[0] == "poisson" and d[1] == tuple(out) for d in D), "Poisson draws")
    for i in np.ndindex(*out):
        o = h.S(r)[i] if out else h.S(r)
        k = pos(out, i)
        lam, eta = at(a, i, out), at(b, i, out)
        h.close(D[0][3][0][k], lam * (1 - eta), "rate of the founders")
        tot = D[0][2][k]
        for p, q in zip(D, D[1:]):
            h.close(q[3][0][k], eta * p[2][k], "rate of the offspring of a generation")
            tot = tot + q[2][k]
        h.close(o, tot, "sum of all generations")
        h.check(h.same(D[-1][2][k], 0), "last generation is empty")
        h.check(o >= 0, "support")


def hybrid(h, case, threshold, nmax):
    from appletree import randgen as G

    s0, s1, s2, ex, out = SHAPES[case]
    p, P = par(h, "p", s0, lo=0, hi=1)
    n, N = ipar(h, "n", s1, 0, nmax)
    _, r = G.binomial_hybrid(h.key(), P, N, shape=ex, threshold=threshold)
    h.check(tuple(h.shape(r)) == tuple(out), "broadcast shape")
    h.check(np.dtype(r.dtype) == np.int32, "integer counts")
    U = [d for d in drawn(h) if d[0] == "uniform"]
    h.check(len(U) == 1 and len(U[0][2]) == threshold * max(1, int(np.prod(out))), "one uniform per trial")
    for i in np.ndindex(*out):
        o = h.S(r)[i] if out else h.S(r)
        pi, ni = at(p, i, out), at(n, i, out)
        k = pos(out, i)
        us = U[0][2][k * threshold : (k + 1) * threshold]
        h.check(h.all(o >= 0, o <= ni), "between 0 and n")
        exact = h.sum(h.ite(h.all(j < ni, u < pi), 1, 0) for j, u in enumerate(us))
        h.check(h.implies(ni <= threshold, h.same(o, exact)), "small n: number of successes of n trials")
        h.check(h.implies(h.same(pi, 0), h.same(o, 0)), "p = 0")
        h.check(h.implies(h.same(pi, 1), h.same(o, ni)), "p = 1")
        h.check(h.implies(h.same(ni, 0), h.same(o, 0)), "n = 0")


def hybrid_large(h, n):
    """Above the threshold the count follows the second-order Cornish-Fisher expansion of the normal draw."""
    import math
    from appletree import randgen as G

    p = h.pick("p", [0.0625, 0.25, 0.5, 0.75, 0.9375])
    _, r = G.binomial_hybrid(h.key(), h.array(p), h.array(n, np.int32), threshold=2)
    o = h.S(r)
    Z = [d for d in drawn(h) if d[0] == "normal"]
    h.check(len(Z) == 1 and len(Z[0][2]) == 1, "one normal draw")
    z = Z[0][2][0]
    h.assume(h.all(z >= -5, z <= 5))
    flip = p > 0.5
    p0 = 1 - p if flip else p
    var = n * p0 * (1 - p0)
    s, k = (1 - 2 * p0) / math.sqrt(var), (1 - 6 * p0 * (1 - p0)) / var
    x = n * p0 + math.sqrt(var) * (z + s / 6 * (z * z - 1) + k / 24 * (z * z * z - 3 * z) - s * s / 36 * (2 * z * z * z - 5 * z))
    x = h.min(h.max(x, 0), n)
    d = h.abs(o - (n - x if flip else x))
    h.check(d <= 0.51, "mean, width and shape of the normal approximation")


def keyed(h, n):
    """One uniform per key, from that key."""
    import jax
    from jax import numpy as jnp
    from appletree import randgen as G

    keys = jax.random.split(h.key(), n)
    r = G.uniform_key_vectorized(keys)
    h.check(h.shape(r) == (n,), "one value per key")
    D = drawn(h)
    vals = [e for d in D for e in d[2]]
    h.check(len(vals) == n and all(d[0] == "uniform" for d in D), "uniform draws")
    for i in range(n):
        h.close(h.S(r)[i], vals[i], "its own draw")
        h.check(h.all(h.S(r)[i] >= 0, h.S(r)[i] < 1), "support")


def instances(tier):
    big = tier == "thorough"
    out = []
    cases = list(SHAPES) if big else ["scalar", "mixed", "outer", "given2"]
    for name in "uniform poisson gamma normal bernoulli binomial negative_binomial".split():
        for c in cases:
            out.append(dict(name=f"{name}_{c}", func=sampler, params=dict(name=name, case=c)))
    for c in list(SHAPES) if big else ["scalar", "mixed2", "given2"]:
        out.append(dict(name="truncate_normal_" + c, func=truncated, params=dict(case=c)))
        out.append(dict(name="skewnormal_" + c, func=skew, params=dict(case=c)))
    for c in ["scalar", "mixed", "mixed2"] + (["vector", "given"] if big else []):
        out.append(dict(name="generalized_poisson_" + c, func=gpoisson, params=dict(case=c), opts=dict(max_unroll=3 if c == "scalar" or not big else 4)))
    for c, t, nm in [("scalar", 1, 4), ("scalar", 3, 6), ("mixed", 2, 4), ("outer", 2, 10000), ("given", 2, 5)] + ([("vector", 4, 10000), ("mixed2", 4, 6), ("scalar", 8, 10000), ("given2", 3, 100)] if big else []):
        out.append(dict(name=f"binomial_hybrid_{c}_{t}_{nm}", func=hybrid, params=dict(case=c, threshold=t, nmax=nm), opts=dict(quick_linear=True)))
    for n in (3, 50, 400):
        out.append(dict(name=f"binomial_hybrid_large_{n}", func=hybrid_large, params=dict(n=n), opts=dict(quick_linear=True)))
    out.append(dict(name="uniform_key_vectorized", func=keyed, params=dict(n=3)))
    return out
