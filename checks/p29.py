"""P29: generated energies and positions stay in their configured support."""
import math
import numpy as np

from checks import plug as P

BOUNDS = "every spectrum plugin for 1..3 requested events (and 1..3 literature points) with arbitrary configured limits, energies, widths and radii and arbitrary draws; tabulated spectra with 2..4 arbitrary increasing nodes"
ASSUMPTIONS = ["jax.random primitives follow their documented support", "cos and sin are used through sound axioms (range, sum of squares)"]
FUNCTIONS = ["plugins.common.*.simulate", "plugins.nestv2.MonoEnergiesSpectra.simulate", "plugins.nestv2.UniformEnergiesSpectra.simulate", "config.Map.map_point", "randgen.uniform", "randgen.twohalfnorm"]
W = dict(lo=-1000, hi=1000)


def one(h, D, n, label):
    h.check(len(D) == 1 and len(D[0]["elems"]) == n, label)
    return D[0]


def uniform(h, cls, lo_name, hi_name, n):
    from appletree import plugins as pl

    lo, hi = h.real("lo", **W), h.real("hi", **W)
    h.assume(h.Sc(hi) - lo >= 0.0625)
    (e,) = P.run(h, P.make(h, getattr(pl, cls), **{lo_name: lo, hi_name: hi}), {}, n)
    e = P.vec(h, e, n)
    d = one(h, P.draws(h, "uniform"), n, "one uniform draw per event")
    for i in range(n):
        h.check_margin(h.all(e[i] >= lo, e[i] <= hi), "within the configured limits", lambda: h.all(e[i] >= h.Sc(lo) - 1e-3, e[i] <= h.Sc(hi) + 1e-3))
        a, b = P.par(h, d, 0, i), P.par(h, d, 1, i)
        h.close(e[i], h.Sc(lo) + (h.Sc(hi) - lo) * (P.el(h, d, i) - a) / (b - a), "uniform in energy")


def mono(h, n):
    from appletree import plugins as pl

    e = h.real("e", lo=0, hi=1000)
    (o,) = P.run(h, P.make(h, pl.MonoEnergySpectra, mono_energy=e), {}, n)
    h.eq_list(P.vec(h, o, n), [h.Sc(e)] * n, "the configured energy")


def tabulated(h, n, nodes, kind):
    """Inverse cumulative of the drawn probability, from a configured map file."""
    from appletree import plugins as pl
    from appletree.share import _cached_configs

    es = h.increasing("e", nodes, gap=0.125, lo=0, hi=1000)
    if kind == "cdf":
        cs = [0.0] + h.increasing("c", nodes - 1, gap=0.0625, lo=0.0625, hi=1)[:-1] + [1.0] if nodes > 2 else [0.0, 1.0]
        cs = [h.Sc(c) for c in cs]
        if nodes > 2:
            h.assume(1 - cs[-2] >= 0.0625)
        data = {"coordinate_type": "point", "coordinate_name": "cdf", "coordinate_system": [0.0] + [c for c in h_raw(h, cs[1:-1])] + [1.0], "map": es}
    else:
        ps = h.reals("p", nodes, lo=0.0625, hi=16)
        data = {"coordinate_type": "point", "coordinate_name": "pdf", "coordinate_system": es, "map": ps}
        # cumulative by the trapezoid rule, placed at the middle of each interval
        area = [(h.Sc(a) + b) * (h.Sc(y) - x) / 2 for a, b, x, y in zip(ps, ps[1:], es, es[1:])]
        tot = h.sum(area)
        cs = [h.sum(area[: i + 1]) / tot for i in range(nodes - 1)]
        mids = [(h.Sc(x) + y) / 2 for x, y in zip(es, es[1:])]
    _cached_configs["energy_spectrum"] = h.json_file("spectrum.json", data)
    (o,) = P.run(h, pl.FixedEnergySpectra("check"), {}, n)
    o = P.vec(h, o, n)
    d = one(h, P.draws(h, "uniform"), n, "one uniform draw per event")
    for i in range(n):
        u = P.el(h, d, i)
        h.check_margin(h.all(o[i] >= es[0], o[i] <= es[-1]), "within the tabulated energies", lambda: h.all(o[i] >= h.Sc(es[0]) - 0.01, o[i] <= h.Sc(es[-1]) + 0.01))
        if kind == "cdf":
            for k in range(nodes - 1):
                if h.path(u <= cs[k + 1]) or k == nodes - 2:
                    w = h.Sc(es[k]) + (h.Sc(es[k + 1]) - es[k]) * (u - cs[k]) / (cs[k + 1] - cs[k])
                    h.close(o[i], w, "inverse cumulative of the drawn probability")
                    break
        else:
            for k in range(nodes - 1):
                h.check_margin(h.implies(u <= cs[k], o[i] <= mids[k]), "at most the energy with that cumulative", lambda: h.implies(u <= cs[k] - 1e-3, o[i] <= h.Sc(mids[k]) + 0.01))
                h.check_margin(h.implies(u >= cs[k], o[i] >= mids[k]), "at least the energy with that cumulative", lambda: h.implies(u >= cs[k] + 1e-3, o[i] >= h.Sc(mids[k]) - 0.01))


def h_raw(h, cs):
    from symx import lift

    if h.sym:
        return [lift.SymArray(lift._arr_scalar(c.e), np.float64, py=True) for c in cs]
    return [float(c.e) for c in cs]


def literature(h, n, m, via):
    """Two-half-normal energies around the literature points, never negative."""
    from appletree import plugins as pl
    from appletree.share import _cached_configs

    mu, sp, sn = h.reals("mu", m, lo=0, hi=100), h.reals("sp", m, lo=0.0625, hi=16), h.reals("sn", m, lo=0.0625, hi=16)
    if via == "config":
        names = h.perm("order", ["mu", "sigma_pos", "sigma_neg"]) if m == 1 else ["sigma_neg", "mu", "sigma_pos"]
        v = {"mu": mu, "sigma_pos": sp, "sigma_neg": sn}
        cfg = [names, [v[k] for k in names]]
        _cached_configs["energy_twohalfnorm"] = {"check": cfg, "other": [names, [[1.0], [1.0], [1.0]]]} if h.flag("per_likelihood") else cfg
    inst = pl.MonoEnergiesSpectra("check")
    e, c = P.run(h, inst, {}, n)
    h.check(h.shape(e) == (n, m) and h.shape(c) == (n, m), "one value per event and literature point")
    u, z = one(h, P.draws(h, "uniform"), n * m, "uniform draws"), one(h, P.draws(h, "normal"), n * m, "normal draws")
    E, C = h.S(e), h.S(c)
    for i in range(n):
        for j in range(m):
            k = i * m + j
            h.check(h.all(E[i, j].finite, E[i, j] >= 0), "energies are not negative")
            h.close(C[i, j], mu[j], "centres are the literature energies")
            a = h.abs(P.el(h, z, k))
            up, dn = h.max(h.Sc(mu[j]) + a * sp[j], 0), h.max(h.Sc(mu[j]) - a * sn[j], 0)
            h.check_margin(h.any(h.same(E[i, j], up), h.same(E[i, j], dn)), "centre plus or minus a half-normal step", lambda: h.any(h.abs(E[i, j] - up) <= 1e-3 * (1 + up), h.abs(E[i, j] - dn) <= 1e-3 * (1 + dn)))


def positions(h, n):
    from appletree import plugins as pl

    z0, z1, r = h.real("z0", lo=-200, hi=200), h.real("z1", lo=-200, hi=200), h.real("r", lo=0.0625, hi=200)
    h.assume(h.Sc(z1) - z0 >= 0.0625)
    x, y, z = P.run(h, P.make(h, pl.PositionSpectra, z_min=z0, z_max=z1, r_max=r), {}, n)
    x, y, z = [P.vec(h, a, n) for a in (x, y, z)]
    U = P.draws(h, "uniform")
    h.check(len(U) == 3 and all(len(d["elems"]) == n for d in U), "three uniform draws per event")
    for i in range(n):
        h.check_margin(h.all(z[i] >= z0, z[i] <= z1), "between the configured depths", lambda: h.all(z[i] >= h.Sc(z0) - 1e-3, z[i] <= h.Sc(z1) + 1e-3))
        q = x[i] * x[i] + y[i] * y[i]
        R2 = h.Sc(r) * r
        h.check_margin(q <= R2, "inside the radius", lambda: q <= R2 * 1.001 + 1e-6)
        us = []
        for d in U:
            a, b = P.par(h, d, 0, i), P.par(h, d, 1, i)
            us.append((P.el(h, d, i) - a) / (b - a))

        def okr(eps):
            return h.any(*[h.abs(q - R2 * u) <= eps * R2 for u in us]) if eps else h.any(*[h.same(q, R2 * u) for u in us])

        h.check_margin(okr(0), "squared radius is uniform", lambda: okr(1e-3))
        h.check_margin(h.any(*[h.same(z[i], h.Sc(z0) + (h.Sc(z1) - z0) * u) for u in us]), "depth is uniform", lambda: h.any(*[h.abs(z[i] - (h.Sc(z0) + (h.Sc(z1) - z0) * u)) <= 0.01 for u in us]))
        rr = [h.sqrt(R2 * u) for u in us] + [h.sqrt(P.el(h, d, i)) for d in U] + [h.Sc(r) * h.sqrt(u) for u in us]
        full = [P.par(h, d, 1, i) - P.par(h, d, 0, i) for d in U]
        ang = [(h.all(h.abs(f - 2 * math.pi) <= 1e-5), P.el(h, d, i)) for f, d in zip(full, U)] + [(h.all(True), 2 * math.pi * u) for u in us]

        def oka(same):
            return h.any(*[h.all(g, same(x[i], p * h.cos(t), p), same(y[i], p * h.sin(t), p)) for g, t in ang for p in rr])

        h.check_margin(oka(lambda o, w, p: h.same(o, w)), "azimuth is uniform", lambda: oka(lambda o, w, p: h.abs(o - w) <= 0.01 * p + 1e-4))


def instances(tier):
    big = tier == "thorough"
    ns = (1, 2, 3) if big else (1, 2)
    out = []
    for n in ns:
        out.append(dict(name=f"uniform_{n}", func=uniform, params=dict(cls="UniformEnergySpectra", lo_name="lower_energy", hi_name="upper_energy", n=n)))
        out.append(dict(name=f"band_{n}", func=uniform, params=dict(cls="UniformEnergiesSpectra", lo_name="clip_lower_energy", hi_name="clip_upper_energy", n=n)))
        out.append(dict(name=f"mono_{n}", func=mono, params=dict(n=n)))
    for n in (1, 2):
        out.append(dict(name=f"positions_{n}", func=positions, params=dict(n=n)))
    for n, m in ((1, 1), (1, 2), (2, 2), (1, 3)) if big else ((1, 1), (1, 2)):
        out.append(dict(name=f"literature_{n}_{m}", func=literature, params=dict(n=n, m=m, via="config")))
    for n, k, kind in ((1, 2, "cdf"), (1, 3, "cdf"), (1, 3, "pdf")) + (((2, 3, "cdf"), (1, 4, "cdf"), (2, 3, "pdf"), (1, 4, "pdf")) if big else ()):
        out.append(dict(name=f"{kind}_{n}_{k}", func=tabulated, params=dict(n=n, nodes=k, kind=kind), opts=dict(fork_index=True)))
    return out
