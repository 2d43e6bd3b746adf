"""P21: 1D maps interpolate faithfully."""

BOUNDS = "1D maps with 2..4 increasing reference points (spacing >= 1/1000, |x| <= 1000), arbitrary values in [-1000, 1000], 1..2 queries anywhere in [-5000, 5000]; regular binning: 2..4 bins with symbolic limits (scalars and length-1 arrays)"
FUNCTIONS = ["interpolation.curve_interpolator", "interpolation.map_interpolator_linear_1d", "interpolation.map_interpolator_nearest_neighbor_1d", "interpolation.map_interpolator_regular_binning_1d", "interpolation.find_nearest_indices"]


def lin_spec(h, x, xs, vs):
    """Linear interpolant with constant continuation."""
    x = h.Sc(x)
    r = h.Sc(vs[-1])
    for i in range(len(xs) - 2, -1, -1):
        a, b = h.Sc(xs[i]), h.Sc(xs[i + 1])
        va, vb = h.Sc(vs[i]), h.Sc(vs[i + 1])
        r = h.ite(x < b, va + (vb - va) * (x - a) / (b - a), r)
    return h.ite(x <= xs[0], vs[0], r)


def bounded(h, out, x, xs, vs, label):
    out, x = h.Sc(out), h.Sc(x)
    h.check(out.finite, label + ": finite")
    for i in range(len(xs) - 1):
        lo, hi = h.min(vs[i], vs[i + 1]), h.max(vs[i], vs[i + 1])
        inside = h.all(x >= xs[i], x <= xs[i + 1])
        h.le(h.ite(inside, out, 0), h.ite(inside, hi, 0), label + ": not above neighbours")
        h.le(h.ite(inside, lo, 0), h.ite(inside, out, 0), label + ": not below neighbours")


def general(h, method, m, n):
    import appletree.interpolation as I

    fn = {"IDW": I.curve_interpolator, "LERP": I.map_interpolator_linear_1d, "NN": I.map_interpolator_nearest_neighbor_1d}[method]
    xs = h.increasing("x", m, lo=-1000, hi=1000)
    vs = h.reals("v", m, lo=-1000, hi=1000)
    qs = h.reals("q", n, lo=-5000, hi=5000)
    out = fn(h.array(qs), h.array(xs), h.array(vs))
    h.check(h.shape(out) == (n,), "shape")
    for i, q in enumerate(qs):
        o = h.S(out)[i]
        verify(h, method, o, q, xs, vs)


def verify(h, method, o, q, xs, vs):
    if method == "NN":
        q = h.Sc(q)
        d = [h.abs(q - x) for x in xs]
        ok = h.any(*[h.all(h.same(o, v), *[di <= dj for dj in d]) for v, di in zip(vs, d)])
        h.check(ok, "nearest value")
        h.check(o.finite, "finite")
    else:
        h.close(o, lin_spec(h, q, xs, vs), "linear interpolant")
        bounded(h, o, q, xs, vs, "bounded")
    for x, v in zip(xs, vs):
        at = h.Sc(q) == x
        h.close(h.ite(at, o, 0), h.ite(at, v, 0), "reference value at reference point")


def regular(h, m, form):
    import appletree.interpolation as I

    lo = h.real("lo", lo=-1000, hi=1000)
    hi = h.real("hi", lo=-1000, hi=1000)
    h.assume(h.Sc(hi) - lo >= 0.125)
    vs = h.reals("v", m, lo=-1000, hi=1000)
    q = h.real("q", lo=-5000, hi=5000)
    if form == "array":
        L, U = h.array([lo]), h.array([hi])
    else:
        L, U = h.array(lo), h.array(hi)
    out = I.map_interpolator_regular_binning_1d(h.array([q]), L, U, h.array(vs))
    h.check(h.shape(out) == (1,), "shape")
    xs = [h.Sc(lo) + (h.Sc(hi) - lo) * i / (m - 1) for i in range(m)]
    o = h.S(out)[0]
    h.close(o, lin_spec(h, q, xs, vs), "linear interpolant", rtol=1e-2, atol=1e-2)
    h.check(o.finite, "finite")


def instances(tier):
    big = tier == "thorough"
    out = []
    for me in ("IDW", "LERP", "NN"):
        for m, n in [(2, 1), (3, 2)] + ([(4, 1), (5, 1)] if big else [(4, 1)]):
            out.append(dict(name=f"{me}_{m}_{n}", func=general, params=dict(method=me, m=m, n=n)))
    for m in (2, 3) + ((4,) if big else ()):
        for f in ("scalar", "array"):
            out.append(dict(name=f"regular_{m}_{f}", func=regular, params=dict(m=m, form=f)))
    return out
