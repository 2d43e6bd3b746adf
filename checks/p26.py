"""P26: nuclear-recoil microphysics conserves quanta."""
import numpy as np

from checks import plug as P

BOUNDS = "every plugin of lyqy and the nuclear-recoil part of nestv2 on 1..2 events with arbitrary inputs satisfying what the previous plugins guarantee, energies in [0, 1000] keV, fields in [1, 10^4], up to 10^6 quanta, parameters anywhere in their physical range"
ASSUMPTIONS = [
    "each plugin is checked for all inputs allowed by the guarantees of the plugins before it (assume-guarantee along the chain)",
    "parameters are meaningful: the mean number of ions does not exceed the mean number of quanta",
    "jax.random primitives follow their documented support; exp/log/pow are used through sound axioms",
    "light and charge yield curves are arbitrary non-negative functions (their interpolation is P21/P24)",
]
FUNCTIONS = ["plugins.lyqy.*.simulate", "plugins.nestv2.*.simulate", "randgen.truncate_normal", "randgen.skewnormal", "randgen.poisson"]
E = dict(lo=0, hi=1000)
N = 1000000


def yields(h, cls, curve, par, n):
    from appletree import plugins as pl

    e, t = h.reals("e", n, **E), h.real("t", lo=-3, hi=3)
    f, calls = h.stub("curve", lo=0, hi=100)
    (y,) = P.run(h, P.make(h, getattr(pl, cls), {curve: f}), {par: t}, *P.f32(h, e))
    y = P.vec(h, y, n)
    h.check(len(calls) == 1, "the curve is evaluated once")
    for i in range(n):
        h.close(calls[0][0][i], e[i], "curve at the recoil energy")
        h.close(y[i], h.max(calls[0][1][i] * (1 + h.Sc(t)), 0), "scaled curve")
        h.check(h.all(y[i].finite, y[i] >= 0), "yield is not negative")


def numbers(h, cls, n):
    from appletree import plugins as pl

    e, y = h.reals("e", n, **E), h.reals("y", n, lo=0, hi=1000)
    (k,) = P.run(h, P.make(h, getattr(pl, cls)), {}, *P.f32(h, e, y))
    h.check(np.dtype(k.dtype).kind in "iu", "integer type")
    k = P.vec(h, k, n)
    (D,) = P.draws(h, "poisson")
    for i in range(n):
        h.check(h.all(k[i].is_int, k[i] >= 0), "a count")
        h.close(P.par(h, D, 0, i), h.Sc(e[i]) * y[i], "mean is yield times energy")


def total(h):
    from appletree import plugins as pl

    e, a, b = h.real("e", **E), h.real("alpha", lo=0, hi=100), h.real("beta", lo=0.25, hi=3)
    (q,) = P.run(h, P.make(h, pl.TotalQuanta), {"alpha": a, "beta": b}, *P.f32(h, [e]))
    q = P.vec(h, q, 1)[0]
    h.check(h.all(q.finite, q >= 0), "quanta are not negative")
    h.check(h.implies(h.same(e, 0), h.same(q, 0)), "no energy, no quanta")
    h.check(h.implies(h.same(e, 1), h.abs(q - a) <= 1e-3 * h.Sc(a) + 1e-6), "alpha quanta at 1 keV")


def timbox(h, n):
    from appletree import plugins as pl

    e, f = h.reals("e", n, **E), h.reals("f", n, lo=1, hi=10000)
    pr = {"gamma": h.real("gamma", lo=0.0009765625, hi=1), "delta": h.real("delta", lo=-1, hi=1), "liquid_xe_density": h.real("rho", lo=2, hi=3.5)}
    (t,) = P.run(h, P.make(h, pl.ThomasImelBox), pr, *P.f32(h, e, f))
    t = P.vec(h, t, n)
    for i in range(n):
        h.check(h.all(t[i].finite, t[i] > 0), "positive")


def qy(h):
    from appletree import plugins as pl

    e, t = h.real("e", **E), h.real("ti", lo=0.0009765625, hi=100)
    pr = {"epsilon": h.real("epsilon", lo=0.0625, hi=100), "zeta": h.real("zeta", lo=0.0625, hi=100), "eta": h.real("eta", lo=0.0625, hi=10)}
    (q,) = P.run(h, P.make(h, pl.QyNR), pr, *P.f32(h, [e], [t]))
    q = P.vec(h, q, 1)[0]
    h.check(h.all(q.finite, q >= 0), "charge yield is not negative")


def ly(h):
    from appletree import plugins as pl

    e = h.real("e", lo=0.0009765625, hi=1000)
    nq, q = h.real("nq", lo=0, hi=N), h.real("qy", lo=0, hi=1000)
    pr = {"theta": h.real("theta", lo=0.0625, hi=100), "iota": h.real("iota", lo=0.0625, hi=10)}
    (y,) = P.run(h, P.make(h, pl.LyNR), pr, *P.f32(h, [e], [nq], [q]))
    y = P.vec(h, y, 1)[0]
    h.check(h.all(y.finite, y >= 0), "light yield is not negative")
    h.check_margin(y <= h.max(h.Sc(nq) / e - q, 0), "no more light than the quanta not seen as charge", lambda: y <= h.max(h.Sc(nq) / e - q, 0) * 1.001 + 1e-4)


def means(h, n):
    from appletree import plugins as pl

    l, q, e = h.reals("l", n, lo=0, hi=1000), h.reals("q", n, lo=0, hi=1000), h.reals("e", n, **E)
    a, b = P.run(h, P.make(h, pl.MeanNphNe), {}, *P.f32(h, l, q, e))
    a, b = P.vec(h, a, n), P.vec(h, b, n)
    for i in range(n):
        x, y = h.Sc(l[i]) * e[i], h.Sc(q[i]) * e[i]
        s = x + y
        h.check(h.all(a[i].finite, b[i].finite, a[i] >= 0, b[i] >= 0), "non-negative means")
        h.check(h.implies(s < 1, h.all(h.same(a[i], 0), h.same(b[i], 0))), "both zero when their sum is below one")
        h.check_margin(h.implies(s >= 1, h.all(h.same(a[i], x), h.same(b[i], y))), "yield times energy", lambda: h.implies(s >= 1.0001, h.all(h.abs(a[i] - x) <= 1e-3 * x + 1e-6, h.abs(b[i] - y) <= 1e-3 * y + 1e-6)))


def means_nan(h):
    """An undefined yield (no energy) counts as no quanta."""
    from appletree import plugins as pl

    l, q = h.pick("l", [float("nan"), 3.0]), float("nan")
    a, b = P.run(h, P.make(h, pl.MeanNphNe), {}, *P.f32(h, [l], [q], [h.real("e", **E)]))
    h.check(h.all(h.same(h.S(a)[0], 0), h.same(h.S(b)[0], 0)), "no quanta")


def mean_ion(h, empty):
    from appletree import plugins as pl

    t = h.real("ti", lo=0.0009765625, hi=1)
    ph, ne = (0.0, 0.0) if empty else (h.real("ph", lo=0, hi=1000), h.real("ne", lo=0, hi=1000))
    r = P.run(h, P.make(h, pl.MeanExcitonIon), {}, *P.f32(h, [t], [ph], [ne]))
    nex, ni, ratio, alf, ef, rp = [P.vec(h, x, 1)[0] for x in r]
    if empty:
        h.check(h.all(*[x.finite for x in (nex, ni, ratio, alf, ef, rp)]), "finite without quanta")
        h.check(h.all(h.same(nex, 0), h.same(ni, 0)), "no quanta")
        h.check(h.all(alf >= 0, alf <= 1, ef >= 0, ef <= 1, rp >= 0, rp <= 1), "probabilities")
        return
    tot = h.Sc(ph) + ne
    h.assume(tot >= 1)
    x = h.Sc(ne) * t / 4
    h.assume(x <= 20)
    ions = (h.exp(x) - 1) * 4 / t
    h.assume(ions <= tot)
    h.check(h.all(*[v.finite for v in (nex, ni, ratio, alf, ef, rp)]), "finite")
    d = h.abs(nex + ni - tot)
    h.check_margin(h.same(d, 0), "quanta = ions + excitons", lambda: d <= 0.01 * tot)
    h.close(ni, ions, "ions of the Thomas-Imel box", rtol=0.01, atol=0.01)
    h.check_margin(h.all(ni >= 0, nex >= 0), "counts are not negative", lambda: h.all(ni >= -0.01 * tot, nex >= -0.01 * tot))
    h.check(h.all(ef >= 0, ef <= 1), "electron fraction")
    h.close(ef, h.Sc(ne) / tot, "electron fraction of the quanta")
    h.assume(h.Sc(ne) >= 1)
    h.assume(x >= 0.0625)
    h.close(ratio, nex / ni, "exciton to ion ratio")
    h.close(alf, 1 / (1 + ratio), "ionised fraction")
    h.check_margin(h.all(alf >= 0, alf <= 1), "ionised fraction is a probability", lambda: h.all(alf >= -1e-3, alf <= 1.001))
    h.close(rp, 1 - (1 + ratio) * ef, "recombination", atol=1e-4)
    h.check_margin(h.all(rp >= 0, rp <= 1), "recombination is a probability", lambda: h.all(rp >= -1e-3, rp <= 1.001))


def true_ion(h, n):
    from appletree import plugins as pl

    a, b = h.reals("ph", n, lo=0, hi=N), h.reals("ne", n, lo=0, hi=N)
    r, al = h.reals("ratio", n, lo=0, hi=100), h.reals("alf", n, lo=0, hi=1)
    fi, fx = h.real("fano_ni", lo=0, hi=10), h.real("fano_nex", lo=0, hi=10)
    ni, nex, nq = P.run(h, P.make(h, pl.TrueExcitonIonNR), {"fano_ni": fi, "fano_nex": fx}, *P.f32(h, a, b, r, al))
    for x in (ni, nex, nq):
        h.check(np.dtype(x.dtype).kind in "iu", "integer type")
    ni, nex, nq = [P.vec(h, x, n) for x in (ni, nex, nq)]
    D = P.draws(h, "normal")
    h.check(len(D) == 2, "ions and excitons fluctuate independently")
    for i in range(n):
        h.check(h.all(*[h.all(x[i].is_int, x[i] >= 0) for x in (ni, nex, nq)]), "non-negative integers")
        h.check(h.same(nq[i], ni[i] + nex[i]), "quanta = ions + excitons")
        m = h.Sc(a[i]) + b[i]
        for o, mean, fano in ((ni[i], m * al[i], fi), (nex[i], m * r[i] * al[i], fx)):

            def ok(d, s, eps=0):
                x = h.max(mean + h.sqrt(h.Sc(fano) * mean) * P.el(h, d, i), 0)
                return h.abs(o - x) <= 0.5 + eps

            h.check_margin(h.any(*[ok(d, 0) for d in D]), "fluctuates around its mean with the Fano factor", lambda: h.any(*[ok(d, 0, 0.01) for d in D]))
        if h.path(h.same(m, 0)):
            h.check(h.same(nq[i], 0), "no quanta")


def omega(h, n):
    from appletree import plugins as pl

    ef, rp, ni = h.reals("ef", n, lo=0, hi=1), h.reals("rp", n, lo=0, hi=1), h.ints("ni", n, 0, N)
    pr = {"A": h.real("A", lo=0, hi=1), "xi": h.real("xi", lo=0, hi=1), "omega": h.real("om", lo=0.0625, hi=1)}
    o, v = P.run(h, P.make(h, pl.OmegaNR), pr, *P.f32(h, ef, rp), *P.i32(h, ni))
    o, v = P.vec(h, o, n), P.vec(h, v, n)
    for i in range(n):
        d = (h.Sc(ef[i]) - pr["xi"]) / pr["omega"]
        h.close(o[i], h.Sc(pr["A"]) * h.exp(-(d * d) / 2), "Gaussian in the electron fraction")
        h.check(h.all(o[i].finite, o[i] >= 0, o[i] <= h.Sc(pr["A"])), "between 0 and its maximum")
        h.close(v[i], h.Sc(rp[i]) * (1 - h.Sc(rp[i])) * ni[i] + o[i] * o[i] * ni[i] * ni[i], "binomial plus recombination variance")
        h.check(h.all(v[i].finite, v[i] >= 0), "variance is not negative")


def photons(h, n):
    from appletree import plugins as pl

    rp, va, al = h.reals("rp", n, lo=0, hi=1), h.reals("var", n, lo=0, hi=1e12), h.real("alpha2", lo=-10, hi=10)
    ni, nex = h.ints("ni", n, 0, N), h.ints("nex", n, 0, N)
    nq = [h.Sc(x) + y for x, y in zip(ni, nex)]
    Q = h.ints("nq", n, 0, 2 * N)
    for x, y in zip(nq, Q):
        h.assume(h.same(x, y))
    ph, el = P.run(h, P.make(h, pl.TruePhotonElectronNR), {"alpha2": al}, *P.f32(h, rp, va), *P.i32(h, ni, nex, Q))
    for x in (ph, el):
        h.check(np.dtype(x.dtype).kind in "iu", "integer type")
    ph, el = P.vec(h, ph, n), P.vec(h, el, n)
    for i in range(n):
        h.check(h.all(el[i].is_int, el[i] >= 0, el[i] <= ni[i]), "0 <= electrons <= ions")
        h.check(h.all(ph[i].is_int, ph[i] >= nex[i]), "photons >= excitons")
        h.check(h.same(ph[i] + el[i], nq[i]), "photons + electrons = quanta")
        h.check(h.implies(h.same(nq[i], 0), h.all(h.same(ph[i], 0), h.same(el[i], 0))), "no quanta, no signal")


def instances(tier):
    ns = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for n in ns:
        out.append(dict(name=f"light_yield_{n}", func=yields, params=dict(cls="LightYield", curve="ly_median", par="t_ly", n=n)))
        out.append(dict(name=f"charge_yield_{n}", func=yields, params=dict(cls="ChargeYield", curve="qy_median", par="t_qy", n=n)))
        for cls in ("NumberPhoton", "NumberElectron"):
            out.append(dict(name=f"{cls}_{n}", func=numbers, params=dict(cls=cls, n=n)))
        for f in (timbox, means, true_ion, omega, photons):
            out.append(dict(name=f"{f.__name__}_{n}", func=f, params=dict(n=n)))
    for f in (total, qy, ly, means_nan):
        out.append(dict(name=f.__name__, func=f))
    for e in (True, False):
        out.append(dict(name="mean_ion_" + ("empty" if e else "full"), func=mean_ion, params=dict(empty=e)))
    return out
