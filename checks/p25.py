"""P25: electronic-recoil microphysics conserves quanta."""
import numpy as np

from checks import plug as P

BOUNDS = "every plugin of er_microphys and er_nestv2 on 1..2 events with arbitrary inputs satisfying what the previous plugins guarantee, energies in [0, 1000] keV, fields in [1, 10^4], up to 10^6 quanta, parameters anywhere in their physical range"
ASSUMPTIONS = [
    "each plugin is checked for all inputs allowed by the guarantees of the plugins before it (assume-guarantee along the chain)",
    "jax.random primitives follow their documented support",
    "exp/log/pow are used through sound axioms (sign, monotonicity, tangents)",
]
FUNCTIONS = ["plugins.er_microphys.*.simulate", "plugins.er_nestv2.*.simulate", "randgen.truncate_normal", "randgen.binomial", "randgen.normal"]
E = dict(lo=0, hi=1000)
N = 1000000


def integer(h, a, label):
    h.check(np.dtype(a.dtype).kind in "iu", label + ": integer type")


def quanta(h, n):
    from appletree import plugins as pl

    e = h.reals("e", n, **E)
    w, fano = h.real("w", lo=0.005, hi=0.05), h.real("fano", lo=0, hi=4)
    (q,) = P.run(h, P.make(h, pl.Quanta), {"w": w, "fano": fano}, *P.f32(h, e))
    integer(h, q, "quanta")
    q = P.vec(h, q, n)
    D = P.draws(h, "normal")
    h.check(len(D) == 1 and len(D[0]["elems"]) == n, "one normal draw per event")
    for i in range(n):
        m = h.Sc(e[i]) / w
        h.check(h.all(q[i].finite, q[i].is_int, q[i] >= 0), "non-negative integer quanta")
        h.check(h.implies(h.same(e[i], 0), h.same(q[i], 0)), "no energy, no quanta")
        x = m + h.sqrt(m * fano) * P.el(h, D[0], i)
        d = h.abs(q[i] - h.max(x, 0))
        h.check_margin(d <= 0.5, "energy over work function, Fano fluctuations", lambda: d <= 0.51)


def ionization(h, n):
    from appletree import plugins as pl

    q = h.ints("q", n, 0, N)
    r = h.real("r", lo=0, hi=10)
    (ni,) = P.run(h, P.make(h, pl.IonizationER), {"nex_ni_ratio": r}, *P.i32(h, q))
    integer(h, ni, "ions")
    ni = P.vec(h, ni, n)
    for i in range(n):
        h.check(h.all(ni[i].is_int, ni[i] >= 0, ni[i] <= q[i]), "0 <= ions <= quanta")
    (D,) = P.draws(h, "binomial")
    for i in range(n):
        h.close(P.par(h, D, 0, i), q[i], "trials are the quanta")
        h.close(P.par(h, D, 1, i), 1 / (1 + h.Sc(r)), "ionised fraction of the quanta")


def mti(h):
    from appletree import plugins as pl

    e, f = h.real("e", **E), h.real("f", lo=1, hi=10000)
    pr = {"w": h.real("w", lo=0.005, hi=0.05), "nex_ni_ratio": h.real("r", lo=0, hi=10), "py0": h.real("py0", lo=0, hi=10), "py1": h.real("py1", lo=0.125, hi=1000), "py2": h.real("py2", lo=-2, hi=2), "py3": h.real("py3", lo=-100, hi=100), "py4": h.real("py4", lo=0.0625, hi=100)}
    (r,) = P.run(h, P.make(h, pl.mTI), pr, *P.f32(h, [e], [f]))
    r = P.vec(h, r, 1)[0]
    h.check(r.finite, "finite mean recombination")
    h.check_margin(h.all(r >= 0, r <= 1), "mean recombination is a probability", lambda: h.all(r >= -1e-5, r <= 1 + 1e-5))
    h.check(h.implies(h.same(e, 0), h.same(r, 0)), "no energy, no recombination")


def recomb_fluct(h, n):
    from appletree import plugins as pl

    e = h.reals("e", n, **E)
    a, b = h.real("rf0", lo=-2, hi=2), h.real("rf1", lo=0.0625, hi=1000)
    (s,) = P.run(h, P.make(h, pl.RecombFluct), {"rf0": a, "rf1": b}, *P.f32(h, e))
    s = P.vec(h, s, n)
    for i in range(n):
        h.check(h.all(s[i].finite, s[i] >= 0, s[i] <= 1), "fluctuation width in [0, 1]")
        h.close(s[i], h.clip(h.Sc(a) * (1 - h.exp(-h.Sc(e[i]) / b)), 0, 1), "width grows with energy")


def true_recomb(h, n):
    from appletree import plugins as pl

    m, s = h.reals("m", n, lo=0, hi=1), h.reals("s", n, lo=0, hi=1)
    (r,) = P.run(h, P.make(h, pl.TrueRecombER), {}, *P.f32(h, m, s))
    r = P.vec(h, r, n)
    (D,) = P.draws(h, "normal")
    for i in range(n):
        h.check(h.all(r[i].finite, r[i] >= 0, r[i] <= 1), "recombination is a probability")
        h.close(r[i], h.clip(h.Sc(m[i]) + h.Sc(s[i]) * P.el(h, D, i), 0, 1), "fluctuates around its mean")


def recombination(h, n):
    from appletree import plugins as pl

    q, ni, r = h.ints("q", n, 0, N), h.ints("ni", n, 0, N), h.reals("r", n, lo=0, hi=1)
    for a, b in zip(ni, q):
        h.assume(h.Sc(a) <= b)
    ph, el = P.run(h, P.make(h, pl.RecombinationER), {}, *P.i32(h, q, ni), *P.f32(h, r))
    integer(h, ph, "photons")
    integer(h, el, "electrons")
    ph, el = P.vec(h, ph, n), P.vec(h, el, n)
    (D,) = P.draws(h, "binomial")
    for i in range(n):
        h.check(h.all(el[i].is_int, el[i] >= 0, el[i] <= ni[i]), "0 <= electrons <= ions")
        h.check(h.all(ph[i].is_int, ph[i] >= 0), "photons are a count")
        h.check(h.same(ph[i] + el[i], q[i]), "photons + electrons = quanta")
        h.close(P.par(h, D, 0, i), ni[i], "trials are the ions")
        h.close(P.par(h, D, 1, i), 1 - h.Sc(r[i]), "escape probability")


# ---------------------------------------------------------------- NEST v2 ER
def ratio(h):
    from appletree import plugins as pl

    e, rho = h.real("e", **E), h.real("rho", lo=2, hi=3.5)
    r, a = P.run(h, P.make(h, pl.ExcitonIonRatioER), {"liquid_xe_density": rho}, *P.f32(h, [e]))
    r, a = P.vec(h, r, 1)[0], P.vec(h, a, 1)[0]
    h.check(h.all(r.finite, r >= 0), "exciton to ion ratio is not negative")
    h.check(h.all(a > 0, a <= 1), "ionised fraction in (0, 1]")
    h.close(a * (1 + r), 1, "ionised fraction belongs to the ratio")
    h.close(r, (0.067366 + 0.039693 * h.Sc(rho)) * h.erf(h.Sc(e) * 0.05), "ratio")


def qy(h):
    from appletree import plugins as pl

    e, f, r = h.real("e", lo=0.001, hi=1000), h.real("f", lo=1, hi=10000), h.real("r", lo=0, hi=1)
    pr = {k: h.real(k, lo=0.0625, hi=100) for k in ("m1", "m2", "m3", "m4", "m7", "m8", "m9", "m10")}
    pr |= {"w": h.real("w", lo=0.005, hi=0.05), "liquid_xe_density": h.real("rho", lo=2, hi=3.5)}
    (q,) = P.run(h, P.make(h, pl.QyER), pr, *P.f32(h, [e], [r], [f]))
    q = P.vec(h, q, 1)[0]
    h.check(q.finite, "finite charge yield")
    h.check(q >= 0, "charge yield is not negative")


def ly(h, n):
    from appletree import plugins as pl

    q, w = h.reals("q", n, lo=0, hi=1000), h.real("w", lo=0.005, hi=0.05)
    (l,) = P.run(h, P.make(h, pl.LyER), {"w": w}, *P.f32(h, q))
    for x, y in zip(P.vec(h, l, n), q):
        h.close(x, h.max(1 / h.Sc(w) - y, 0), "quanta not seen as charge")


def means(h, n):
    from appletree import plugins as pl

    l, q, e = h.reals("l", n, lo=0, hi=1000), h.reals("q", n, lo=0, hi=1000), h.reals("e", n, **E)
    a, b = P.run(h, P.make(h, pl.MeanNphNeER), {}, *P.f32(h, l, q, e))
    h.eq_list(a, [h.Sc(x) * y for x, y in zip(l, e)], "photons are light yield times energy")
    h.eq_list(b, [h.Sc(x) * y for x, y in zip(q, e)], "electrons are charge yield times energy")


def mean_ion(h, n):
    from appletree import plugins as pl

    r = h.reals("r", n, lo=0, hi=10)
    a, b = h.reals("ph", n, lo=0, hi=N), h.reals("ne", n, lo=0, hi=N)
    for x, y in zip(a, b):
        h.assume(h.Sc(x) + y >= 0.001)
    f, p = P.run(h, P.make(h, pl.MeanExcitonIonER), {}, *P.f32(h, r, a, b))
    f, p = P.vec(h, f, n), P.vec(h, p, n)
    for i in range(n):
        h.close(f[i], h.Sc(b[i]) / (h.Sc(a[i]) + b[i]), "electron fraction")
        h.check(h.all(p[i].finite, p[i] >= 0, p[i] <= 1), "recombination is a probability")
        h.close(p[i], h.max(1 - (1 + h.Sc(r[i])) * f[i], 0), "recombination from the electron fraction")


def fano(h):
    from appletree import plugins as pl

    a, b, f = h.real("ph", lo=0, hi=N), h.real("ne", lo=0, hi=N), h.real("f", lo=0, hi=10000)
    d, rho = h.real("delta_f", lo=-1, hi=1), h.real("rho", lo=2.5, hi=3.125)
    (k,) = P.run(h, P.make(h, pl.FanoFactorER), {"delta_f": d, "liquid_xe_density": rho}, *P.f32(h, [a], [b], [f]))
    k = P.vec(h, k, 1)[0]
    h.check(h.all(k.finite, k >= 0), "Fano factor is not negative")
    h.check(h.implies(h.Sc(d) > 0, h.abs(k - d) <= 1e-6), "constant for positive delta_f")


def true_ion(h, n):
    from appletree import plugins as pl

    a, b = h.reals("ph", n, lo=0, hi=N), h.reals("ne", n, lo=0, hi=N)
    fn, al = h.reals("fano", n, lo=0, hi=10), h.reals("alf", n, lo=0, hi=1)
    ni, nex, nq = P.run(h, P.make(h, pl.TrueExcitonIonER), {}, *P.f32(h, a, b, fn, al))
    for x in (ni, nex, nq):
        integer(h, x, "counts")
    ni, nex, nq = [P.vec(h, x, n) for x in (ni, nex, nq)]
    (Z,), (B,) = P.draws(h, "normal"), P.draws(h, "binomial")
    for i in range(n):
        h.check(h.all(*[x[i].is_int for x in (ni, nex, nq)]), "integers")
        h.check(h.all(ni[i] >= 0, ni[i] <= nq[i]), "0 <= ions <= quanta")
        h.check(h.same(nex[i], nq[i] - ni[i]), "excitons = quanta - ions")
        h.close(P.par(h, B, 0, i), nq[i], "trials are the quanta")
        h.close(P.par(h, B, 1, i), al[i], "ionised fraction")
        m = h.Sc(a[i]) + b[i]
        x = m + h.sqrt(h.Sc(fn[i]) * m) * P.el(h, Z, i)
        d = h.abs(nq[i] - h.max(x, 0))
        h.check_margin(d <= 0.5, "quanta fluctuate around their mean with the Fano factor", lambda: d <= 0.51)


def omega(h):
    from appletree import plugins as pl

    ef, rp, ni = h.real("ef", lo=0, hi=1), h.real("rp", lo=0, hi=1), h.int_("ni", 0, N)
    ne, nph, f = h.real("ne", lo=0, hi=N), h.real("nph", lo=0, hi=N), h.real("f", lo=1, hi=10000)
    pr = {"A_er": h.real("A", lo=0, hi=1), "xi_er": h.real("xi", lo=0, hi=1), "omega_er": h.real("om", lo=0.0625, hi=1), "alpha3_er": h.real("al", lo=-10, hi=10)}
    o, v = P.run(h, P.make(h, pl.OmegaER), pr, *P.f32(h, [ef], [rp]), *P.i32(h, [ni]), *P.f32(h, [ne], [nph], [f]))
    o, v = P.vec(h, o, 1)[0], P.vec(h, v, 1)[0]
    h.check(h.all(o.finite, o >= 0), "width is not negative")
    h.close(v, h.Sc(rp) * (1 - h.Sc(rp)) * ni + o * o * ni * ni, "binomial plus recombination variance")
    h.check(h.all(v.finite, v >= 0), "variance is not negative")


def photons(h, n):
    from appletree import plugins as pl

    rp, va = h.reals("rp", n, lo=0, hi=1), h.reals("var", n, lo=0, hi=1e12)
    ni, nq = h.ints("ni", n, 0, N), h.ints("nq", n, 0, N)
    for x, y in zip(ni, nq):
        h.assume(h.Sc(x) <= y)
    ph, el = P.run(h, P.make(h, pl.TruePhotonElectronER), {}, *P.f32(h, rp, va), *P.i32(h, ni, nq))
    integer(h, el, "electrons")
    ph, el = P.vec(h, ph, n), P.vec(h, el, n)
    (Z,) = P.draws(h, "normal")
    for i in range(n):
        h.check(h.all(el[i].is_int, el[i] >= 0, el[i] <= ni[i]), "0 <= electrons <= ions")
        h.check(h.all(ph[i].is_int, ph[i] >= 0), "photons are a count")
        h.check(h.same(ph[i] + el[i], nq[i]), "photons + electrons = quanta")
        x = h.clip((1 - h.Sc(rp[i])) * ni[i] + h.sqrt(h.Sc(va[i])) * P.el(h, Z, i), 0, ni[i])
        d = h.abs(el[i] - x)
        h.check_margin(d <= 0.5, "electrons fluctuate around the escaping ions with the given variance", lambda: d <= 0.51)


def instances(tier):
    ns = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for f in (quanta, ionization, recomb_fluct, true_recomb, recombination, ly, means, mean_ion, true_ion, photons):
        for n in ns:
            out.append(dict(name=f"{f.__name__}_{n}", func=f, params=dict(n=n)))
    for f in (mti, ratio, qy, fano, omega):
        out.append(dict(name=f.__name__, func=f))
    return out
