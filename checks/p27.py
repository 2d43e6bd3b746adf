"""P27: the detector and reconstruction chain never creates or loses signal wrongly."""
import numpy as np

from checks import plug as P

BOUNDS = "every plugin of detector and reconstruction on 1..2 events at arbitrary positions, with up to 10^6 quanta, arbitrary map contents in their physical range and arbitrary parameters in theirs"
ASSUMPTIONS = [
    "each plugin is checked for all inputs allowed by the guarantees of the plugins before it (assume-guarantee along the chain)",
    "maps are arbitrary functions of the position they are asked for (their interpolation is P20-P24)",
    "gains are meaningful: the mean extraction g2 / (gas_gain x relative gain) does not exceed one",
    "jax.random primitives follow their documented support",
]
FUNCTIONS = ["plugins.detector.*.simulate", "plugins.reconstruction.*.simulate", "randgen.binomial", "randgen.poisson", "randgen.normal"]
N = 1000000
XY = dict(lo=-100, hi=100)


def asked(h, calls, i, *coords):
    """The map was asked once, at these coordinates."""
    h.check(len(calls) == 1, "the map is evaluated once")
    pos = calls[0][0]
    h.check(tuple(pos.shape) == (len(calls[0][1]), len(coords)), "position columns")
    for j, c in enumerate(coords):
        h.close(pos[i, j], c, "the map is evaluated at the right position")
    return calls[0][1][i]


def efield(h, n):
    from appletree import plugins as pl

    x, y, z = h.reals("x", n, **XY), h.reals("y", n, **XY), h.reals("z", n, lo=-150, hi=0)
    on = h.flag("position_dependent")
    m, calls = h.stub("field_map", lo=0, hi=10000)
    f = h.real("field", lo=0, hi=10000)
    (o,) = P.run(h, P.make(h, pl.EField, {"efield_map": m}, efield_position_dependence=on), {"field": f}, *P.f32(h, x, y, z))
    o = P.vec(h, o, n)
    for i in range(n):
        if on:
            h.close(o[i], asked(h, calls, i, h.sqrt(h.Sc(x[i]) * x[i] + h.Sc(y[i]) * y[i]), z[i]), "field of the map")
        else:
            h.close(o[i], f, "configured field everywhere")


def lookup(h, cls, mp, cols, n):
    """Maps of the position: light collection efficiencies and corrections."""
    from appletree import plugins as pl

    pos = [h.reals(c, n, **XY) for c in cols]
    m, calls = h.stub("map", lo=0, hi=100)
    (o,) = P.run(h, P.make(h, getattr(pl, cls), {mp: m}), {}, *P.f32(h, *pos))
    o = P.vec(h, o, n)
    for i in range(n):
        h.close(o[i], asked(h, calls, i, *[p[i] for p in pos]), "value of the map")


def photon_detection(h, n):
    from appletree import plugins as pl

    k, l = h.ints("k", n, 0, N), h.reals("lce", n, lo=0, hi=20)
    g, d = h.real("g1", lo=0, hi=2), h.real("p_dpe", lo=0, hi=1)
    (o,) = P.run(h, P.make(h, pl.PhotonDetection), {"g1": g, "p_dpe": d}, *P.i32(h, k), *P.f32(h, l))
    h.check(np.dtype(o.dtype).kind in "iu", "integer type")
    o = P.vec(h, o, n)
    (D,) = P.draws(h, "binomial")
    for i in range(n):
        h.check(h.all(o[i].is_int, o[i] >= 0, o[i] <= k[i]), "detected photons never exceed produced photons")
        h.close(P.par(h, D, 0, i), k[i], "one trial per photon")
        p = P.par(h, D, 1, i)
        h.close(p, h.min(h.Sc(g) * l[i] / (1 + h.Sc(d)), 1), "detection probability from gain and light collection")
        h.check(h.all(p >= 0, p <= 1), "a probability")


def s1pe(h, n):
    from appletree import plugins as pl

    k, d = h.ints("k", n, 0, N), h.real("p_dpe", lo=0, hi=1)
    (o,) = P.run(h, P.make(h, pl.S1PE), {"p_dpe": d}, *P.i32(h, k))
    o = P.vec(h, o, n)
    (D,) = P.draws(h, "binomial")
    for i in range(n):
        h.check(h.all(o[i].is_int, o[i] >= k[i], o[i] <= 2 * h.Sc(k[i])), "one or two photoelectrons per photon")
        h.close(o[i], h.Sc(k[i]) + P.el(h, D, i), "double photoelectrons")
        h.close(P.par(h, D, 0, i), k[i], "one trial per photon")
        h.close(P.par(h, D, 1, i), d, "double photoelectron probability")


def drift_loss(h, n):
    from appletree import plugins as pl

    z = h.reals("z", n, lo=-150, hi=150)
    v, s = h.real("v", lo=0.0625, hi=10), h.real("sigma", lo=-0.5, hi=5)
    m, calls = h.stub("elife", lo=1, hi=100000)
    (o,) = P.run(h, P.make(h, pl.DriftLoss, {"elife": m}), {"drift_velocity": v, "elife_sigma": s}, *P.f32(h, z))
    o = P.vec(h, o, n)
    (D,) = P.draws(h, "uniform")
    for i in range(n):
        h.check(h.all(o[i].finite, o[i] > 0, o[i] <= 1), "survival probability in (0, 1]")
        u = P.el(h, D, i)
        h.check(h.all(h.same(calls[0][0][i], u), u >= 0, u < 1), "lifetime drawn from its distribution")
        life = calls[0][1][i] * (1 + h.Sc(s))
        h.close(o[i], h.exp(-h.abs(h.Sc(z[i])) / v / life), "exponential loss over the drift time")
        h.check(h.implies(h.same(z[i], 0), h.same(o[i], 1)), "no drift, no loss")


def drifted(h, n):
    from appletree import plugins as pl

    k, p = h.ints("k", n, 0, N), h.reals("p", n, lo=0, hi=1)
    (o,) = P.run(h, P.make(h, pl.ElectronDrifted), {}, *P.i32(h, k), *P.f32(h, p))
    o = P.vec(h, o, n)
    (D,) = P.draws(h, "binomial")
    for i in range(n):
        h.check(h.all(o[i].is_int, o[i] >= 0, o[i] <= k[i]), "drifted electrons never exceed produced electrons")
        h.close(P.par(h, D, 0, i), k[i], "one trial per electron")
        h.close(P.par(h, D, 1, i), p[i], "survival probability")


def s2pe(h, n):
    from appletree import plugins as pl

    k, l = h.ints("k", n, 0, N), h.reals("lce", n, lo=0, hi=20)
    x, y = h.reals("x", n, **XY), h.reals("y", n, **XY)
    g2, gg, d = h.real("g2", lo=0, hi=100), h.real("gas_gain", lo=0.0625, hi=100), h.real("p_dpe", lo=0, hi=1)
    m, calls = h.stub("rel", lo=0.0625, hi=16)
    inst = P.make(h, pl.S2PE, {"gas_gain_relative": m})
    (o,) = P.run(h, inst, {"g2": g2, "gas_gain": gg, "p_dpe": d}, *P.i32(h, k), *P.f32(h, l, x, y))
    o = P.vec(h, o, n)
    B, Q = P.draws(h, "binomial"), P.draws(h, "poisson")
    h.check(len(B) == 2 and len(Q) == 1, "extraction, photons and double photoelectrons are drawn")
    for i in range(n):
        rel = asked(h, calls, i, x[i], y[i])
        h.assume(h.Sc(g2) <= h.Sc(gg) * rel)
        ext, ph, dpe = P.el(h, B[0], i), P.el(h, Q[0], i), P.el(h, B[1], i)
        h.close(P.par(h, B[0], 0, i), k[i], "one extraction trial per electron")
        h.close(P.par(h, B[0], 1, i), h.Sc(g2) / (h.Sc(gg) * rel), "extraction probability from the gains")
        h.check(P.par(h, B[0], 1, i) <= 1, "a probability")
        h.close(P.par(h, Q[0], 0, i), ext * (h.Sc(gg) * rel * l[i] / (1 + h.Sc(d))), "mean photons from the gas gain")
        h.check(P.par(h, Q[0], 0, i) >= 0, "a rate")
        h.close(P.par(h, B[1], 0, i), ph, "one trial per detected photon")
        h.close(P.par(h, B[1], 1, i), d, "double photoelectron probability")
        h.close(o[i], ph + dpe, "photoelectrons")
        h.check(h.all(o[i] >= ph, o[i] <= 2 * ph), "one or two photoelectrons per photon")
        h.check(ext <= k[i], "extracted electrons never exceed drifted electrons")


def posrec(h, n):
    from appletree import plugins as pl

    x, y, z = h.reals("x", n, **XY), h.reals("y", n, **XY), h.reals("z", n, lo=-150, hi=0)
    k = h.ints("k", n, 0, N)
    m, calls = h.stub("reso", lo=0, hi=20)
    o = P.run(h, P.make(h, pl.PositionRecon, {"posrec_reso": m}), {}, *P.f32(h, x, y, z), *P.i32(h, k))
    rx, ry, rz, rr = [P.vec(h, a, n) for a in o]
    D = P.draws(h, "normal")
    h.check(len(D) == 2, "two smearings")
    for i in range(n):
        h.close(calls[0][0][i], k[i], "resolution at the number of electrons")
        s = calls[0][1][i] / h.sqrt(2)
        a, b = P.el(h, D[0], i), P.el(h, D[1], i)

        def ok(u, v, eps=0):
            eq = (lambda p, q: h.abs(p - q) <= eps * (1 + h.abs(q))) if eps else h.same
            return h.all(eq(rx[i], x[i] + s * u), eq(ry[i], y[i] + s * v))

        h.check_margin(h.any(ok(a, b), ok(b, a)), "true position plus independent smearings", lambda: h.any(ok(a, b, 1e-3), ok(b, a, 1e-3)))
        h.close(rz[i], z[i], "z is exact")
        h.close(rr[i], h.sqrt(rx[i] * rx[i] + ry[i] * ry[i]), "radius of the reconstructed position")


def area(h, cls, bias, smear, n, ints):
    from appletree import plugins as pl

    k = h.ints("k", n, 0, N)
    mb, cb = h.stub("bias", lo=-1, hi=1)
    ms, cs = h.stub("smear", lo=0, hi=1)
    (o,) = P.run(h, P.make(h, getattr(pl, cls), {bias: mb, smear: ms}), {}, *(P.i32(h, k) if ints else P.f32(h, k)))
    o = P.vec(h, o, n)
    (D,) = P.draws(h, "normal")
    h.check(len(cb) == 1 and len(cs) == 1, "each map is evaluated once")
    for i in range(n):
        h.close(cb[0][0][i], k[i], "bias at the signal size")
        h.close(cs[0][0][i], k[i], "smearing at the signal size")
        h.close(o[i], h.Sc(k[i]) * (1 + cb[0][1][i] + cs[0][1][i] * P.el(h, D, i)), "true area plus bias and smearing")
        h.check(h.implies(h.same(k[i], 0), h.same(o[i], 0)), "no signal, no area")


def cs1(h, n):
    from appletree import plugins as pl

    a, c = h.reals("a", n, lo=-1000, hi=N), h.reals("c", n, lo=0.0625, hi=16)
    (o,) = P.run(h, P.make(h, pl.cS1), {}, *P.f32(h, a, c))
    h.eq_list(o, [h.Sc(x) / y for x, y in zip(a, c)], "area over correction")


def cs2(h, n):
    from appletree import plugins as pl

    a, c, p = h.reals("a", n, lo=-1000, hi=N), h.reals("c", n, lo=0.0625, hi=16), h.reals("p", n, lo=0.0009765625, hi=1)
    (o,) = P.run(h, P.make(h, pl.cS2), {}, *P.f32(h, a, c, p))
    h.eq_list(o, [h.Sc(x) / y / z for x, y, z in zip(a, c, p)], "area over correction and electron survival")


def instances(tier):
    ns = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for n in ns:
        for f in (efield, photon_detection, s1pe, drift_loss, drifted, s2pe, posrec, cs1, cs2):
            out.append(dict(name=f"{f.__name__}_{n}", func=f, params=dict(n=n)))
        for cls, mp, cols in (("S1LCE", "s1_lce", "xyz"), ("S2LCE", "s2_lce", "xy"), ("S1Correction", "s1_correction", "xyz"), ("S2Correction", "s2_correction", "xy")):
            out.append(dict(name=f"{cls}_{n}", func=lookup, params=dict(cls=cls, mp=mp, cols=list(cols), n=n)))
        out.append(dict(name=f"S1_{n}", func=area, params=dict(cls="S1", bias="s1_bias_3f", smear="s1_smear_3f", n=n, ints=True)))
        out.append(dict(name=f"S2_{n}", func=area, params=dict(cls="S2", bias="s2_bias", smear="s2_smear", n=n, ints=False)))
    return out
