"""P24: maps apply coordinate scaling correctly and refuse invalid input."""
import itertools

BOUNDS = "point maps of 2..4 points (symbolic increasing coordinates and values), regular maps 1D (3 nodes), 2D (3x2) and 3D (2x2x2), every linear/log combination of axes and every method, symbolic limits, values and queries; density maps of 3..4 points"
FUNCTIONS = ["config.Map.build", "config.Map.build_point", "config.Map.build_regbin", "config.Map.map_point", "config.Map.map_regbin", "config.Map.preprocess", "config.Map._validate_log_coords", "config.Map.pdf_to_cdf", "utils.integrate_midpoint", "utils.cumulative_integrate_midpoint"]
FORK = dict(fork_index=True)


def build(h, data, method="IDW", name="themap"):
    import appletree as apt

    path = h.json_file("map.json", data)
    m = apt.Map(name=name, method=method, default=path)
    m.taken_by = "check"
    m.build()
    return m


def lg(h, x, log):
    return h.log(x) if log else h.Sc(x)


def lin(h, x, xs, vs):
    r = h.Sc(vs[-1])
    for i in range(len(xs) - 2, -1, -1):
        r = h.ite(x < xs[i + 1], h.Sc(vs[i]) + (h.Sc(vs[i + 1]) - vs[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]), r)
    return h.ite(x <= xs[0], vs[0], r)


def cell(h, x, xs):
    """index of the interval the query lies in (one per path); -1 below, len-1 above"""
    for i, b in enumerate(xs):
        if h.path(h.Sc(x) < b):
            return i - 1
    return len(xs) - 1


def point(h, method, log, m):
    lo = 0.0625 if log else -100
    xs = h.increasing("x", m, lo=lo, hi=1000, gap=0.125)
    vs = h.reals("v", m, lo=-100, hi=100)
    q = h.real("q", lo=lo, hi=1000)
    mp = build(h, {"coordinate_type": "log_point" if log else "point", "coordinate_name": "x", "coordinate_system": xs, "map": vs}, method)
    out = mp.apply(h.array([q]))
    o = h.S(out)[0]
    h.check(h.shape(out) == (1,), "shape")
    if method == "NN":
        d = [h.abs(lg(h, q, log) - lg(h, x, log)) for x in xs]

        def ok(eps):
            return h.any(*[h.all(h.same(o, v), *[di <= dj + eps for dj in d]) for v, di in zip(vs, d)])

        h.check_margin(ok(0), "value of the nearest point in the map's coordinate", lambda: ok(0.001))
        return
    c = cell(h, q, xs)
    if c < 0:
        want = h.Sc(vs[0])
    elif c == m - 1:
        want = h.Sc(vs[-1])
    else:
        a, b = lg(h, xs[c], log), lg(h, xs[c + 1], log)
        want = h.Sc(vs[c]) + (h.Sc(vs[c + 1]) - vs[c]) * (lg(h, q, log) - a) / (b - a)
    h.close(o, want, "linear in the map's coordinate, values untouched")


def regbin(h, method, types, shape, as_list):
    """Equals the plain interpolation of the transformed coordinates."""
    import appletree.interpolation as I
    from jax import numpy as jnp

    d = len(shape)
    lo, hi, q = [], [], []
    for i, t in enumerate(types):
        l = 0.0625 if t else -100
        lo.append(h.real(f"lo{i}", lo=l, hi=100))
        hi.append(h.real(f"hi{i}", lo=l, hi=200))
        h.assume(h.Sc(hi[i]) - lo[i] >= 0.125)
        q.append(h.real(f"q{i}", lo=l, hi=300))

    def vals(pre, rest):
        return [vals(pre + (i,), rest[1:]) for i in range(rest[0])] if rest else h.real("v" + "_".join(map(str, pre)), lo=-100, hi=100)

    v = vals((), shape)
    names = {True: "log_regbin", False: "regbin"}
    mp = build(
        h,
        {
            "coordinate_type": [names[t] for t in types] if as_list else names[types[0]],
            "coordinate_name": ["x", "y", "z"][:d],
            "coordinate_lowers": lo,
            "coordinate_uppers": hi,
            "map": v,
        },
        method,
    )
    fn = {
        (1, "IDW"): I.map_interpolator_regular_binning_1d,
        (2, "IDW"): I.map_interpolator_regular_binning_2d,
        (2, "LERP"): I.map_interpolator_regular_binning_bilinear_2d,
        (2, "NN"): I.map_interpolator_regular_binning_nearest_neighbor_2d,
        (3, "IDW"): I.map_interpolator_regular_binning_3d,
        (3, "LERP"): I.map_interpolator_regular_binning_trilinear_3d,
        (3, "NN"): I.map_interpolator_regular_binning_nearest_neighbor_3d,
    }[(d, method)]
    mask = jnp.asarray(list(types))

    def tr(x):
        x = h.array(x)
        return jnp.where(mask, jnp.log10(x), x)

    if d == 1:
        out = mp.apply(h.array(q))
        want = fn(tr(q), tr(lo), tr(hi), h.array(v))
        x = lg(h, q[0], types[0])
        a, b = lg(h, lo[0], types[0]), lg(h, hi[0], types[0])
        xs = [a + (b - a) * i / (shape[0] - 1) for i in range(shape[0])]
        c = cell(h, x, xs)
        if c < 0:
            spec = h.Sc(v[0])
        elif c == shape[0] - 1:
            spec = h.Sc(v[-1])
        else:
            spec = h.Sc(v[c]) + (h.Sc(v[c + 1]) - v[c]) * (x - xs[c]) / (xs[c + 1] - xs[c])
        h.close(h.S(out)[0], spec, "linear in the map's coordinate, values untouched", rtol=1e-2, atol=1e-2)
    else:
        out = mp.apply(h.array([q]))
        want = fn(h.array([tr(q)]) if False else jnp.expand_dims(tr(q), 0), tr(lo), tr(hi), h.array(v))
    h.check(h.shape(out) == (1,), "shape")
    h.close(h.S(out)[0], h.S(want)[0], "plain interpolation of exactly the log10 of the log axes")


def density(h, method, m):
    xs = h.increasing("x", m, lo=-100, hi=100, gap=0.125)
    ps = h.reals("p", m, lo=0.0625, hi=16)
    u = h.real("u", lo=0, hi=1)
    mp = build(h, {"coordinate_type": "point", "coordinate_name": "pdf", "coordinate_system": xs, "map": ps}, method)
    area = [(h.Sc(xs[i + 1]) - xs[i]) * (h.Sc(ps[i + 1]) + ps[i]) / 2 for i in range(m - 1)]
    mid = [(h.Sc(xs[i + 1]) + xs[i]) / 2 for i in range(m - 1)]
    tot = h.sum(area)
    cdf = [h.sum(area[: i + 1]) / tot for i in range(m - 1)]
    for i in range(m - 1):  # at every node of the cumulative
        h.close(h.S(mp.coordinate_system)[i], cdf[i], "coordinate is the normalised cumulative")
        h.close(h.S(mp.map)[i], mid[i], "value is the position")
    h.check(h.shape(mp.coordinate_system) == (m - 1,) and h.shape(mp.map) == (m - 1,), "shape")
    h.close(h.S(mp.coordinate_system)[m - 2], 1, "cumulative ends at 1")
    end = h.S(mp.apply(h.array([1.0])))[0]
    h.close(end, mid[-1], "largest position at 1")
    o = h.S(mp.apply(h.array([u])))[0]
    if method == "NN":
        return
    c = cell(h, u, cdf)
    if c < 0:
        want = mid[0]
    elif c == m - 2:
        want = mid[-1]
    else:
        want = mid[c] + (mid[c + 1] - mid[c]) * (h.Sc(u) - cdf[c]) / (cdf[c + 1] - cdf[c])
    h.close(o, want, "inverse of the cumulative")


def refuse_bounds(h, kind):
    """Refused exactly when a log axis has a non-positive coordinate."""
    if kind == "point":
        xs = h.increasing("x", 3, lo=-10, hi=10, gap=0.125)
        log = h.flag("log")
        data = {"coordinate_type": "log_point" if log else "point", "coordinate_name": "x", "coordinate_system": xs, "map": [1.0, 2.0, 3.0]}
        bad = h.path(h.Sc(xs[0]) <= 0) and log
        d = 1
    else:
        d = {"1d": 1, "2d": 2, "3d": 3, "same": 2}[kind]
        lo = h.reals("lo", d, lo=-10, hi=10)
        hi = h.reals("hi", d, lo=-10, hi=20)
        for a, b in zip(lo, hi):
            h.assume(h.Sc(b) - a >= 0.125)
        if kind == "same":
            f = h.flag("log")
            flags, ct = [f, f], "log_regbin" if f else "regbin"
        else:
            flags = [h.flag(f"log{i}") for i in range(d)]
            ct = ["log_regbin" if f else "regbin" for f in flags]
        bad = False
        for a, f in zip(lo, flags):
            if f and h.path(h.Sc(a) <= 0):
                bad = True
        v = {1: [1.0, 2.0], 2: [[1.0, 2.0], [3.0, 4.0]], 3: [[[1.0, 2.0], [3.0, 4.0]], [[1.0, 2.0], [3.0, 4.0]]]}[d]
        data = {"coordinate_type": ct, "coordinate_name": ["x", "y", "z"][:d], "coordinate_lowers": lo, "coordinate_uppers": hi, "map": v}
    r = h.attempt(build, h, data)
    if bad:
        h.check(r.raised and isinstance(r.exc, ValueError), "non-positive bound on a log axis refused")
    else:
        h.check(r.ok, "valid map accepted")


def refuse_other(h):
    v2 = [[1.0, 2.0], [3.0, 4.0]]
    case = h.pick("case", list(range(11)))
    pt = {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [1.0, 2.0], "map": [1.0, 2.0]}
    rb = {"coordinate_type": "regbin", "coordinate_name": ["x", "y"], "coordinate_lowers": [1.0, 1.0], "coordinate_uppers": [2.0, 2.0], "map": v2}
    n = h.pick("density", ["pdf", "cdf"])
    ax = h.pick("axis", [0, 1])
    names = ["x", "y"]
    names[ax] = n
    types = ["regbin", "regbin"]
    types[ax] = "log_regbin"
    data, method, what = [
        (dict(pt, coordinate_type="log_point", coordinate_name=n), "IDW", "logarithmic density axis"),
        (dict(rb, coordinate_type="log_regbin", coordinate_name=names), "IDW", "logarithmic density axis"),
        (dict(rb, coordinate_type=types, coordinate_name=names), "IDW", "logarithmic density axis"),
        (dict(pt, coordinate_type="points"), "IDW", "unknown type"),
        (dict(rb, coordinate_type="log"), "IDW", "unknown type"),
        (dict(rb, coordinate_type=[["foo", "regbin"], ["regbin", "point"]][ax]), "IDW", "unknown axis type"),
        (dict(rb, coordinate_type=["regbin"] * (1 + 2 * ax)), "IDW", "wrong number of axis types"),
        (dict(pt), "FOO", "unknown method"),
        (dict(rb), "FOO", "unknown method"),
        (dict(rb, coordinate_type=["log_regbin"] * (1 + 2 * ax)), "LERP", "wrong number of axis types"),
        (dict(rb, coordinate_type=types[::-1], coordinate_name=names), "LERP", None),
    ][case]
    r = h.attempt(build, h, data, method)
    if what is None:
        h.check(r.ok, "density axis next to a log axis accepted")
    else:
        h.check(r.raised and isinstance(r.exc, ValueError), what + " refused")


def instances(tier):
    big = tier == "thorough"
    out = []
    for log in (False, True):
        for me in ("IDW", "LERP", "NN"):
            for m in (3,) + ((4,) if big else ()):
                out.append(dict(name=f"point_{me}_{'log' if log else 'lin'}_{m}", func=point, params=dict(method=me, log=log, m=m), opts=dict(FORK, fork_ite=me != "NN")))
    for d, shape in ((1, (3,)), (2, (3, 2)), (3, (2, 2, 2))):
        for types in itertools.product((False, True), repeat=d):
            for me in {1: ("IDW",), 2: ("IDW", "LERP", "NN"), 3: ("IDW", "LERP", "NN")}[d]:
                forms = [True] + ([False] if len(set(types)) == 1 else [])
                if d == 3 and not big and types not in ((False, True, True), (True, False, False), (True, True, True)):
                    continue
                for f in forms:
                    out.append(dict(name=f"regbin_{me}_{''.join('lo'[not t] for t in types)}_{'list' if f else 'str'}", func=regbin, params=dict(method=me, types=types, shape=shape, as_list=f), opts=FORK if d == 1 else {}))
    for me in ("IDW", "LERP"):
        for m in (3, 4) if big else (3,):
            out.append(dict(name=f"density_{me}_{m}", func=density, params=dict(method=me, m=m), opts=FORK))
    for k in ("point", "1d", "2d", "same") + (("3d",) if big else ()):
        out.append(dict(name="bounds_" + k, func=refuse_bounds, params=dict(kind=k)))
    out.append(dict(name="refusals", func=refuse_other))
    return out
