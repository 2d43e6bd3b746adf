"""P28: efficiencies are probabilities and the total is their product."""
from checks import plug as P

BOUNDS = "every plugin of efficiency and the literature energy selections on 1..3 events with arbitrary inputs, arbitrary (positive, negative, above one) map contents and scalers, arbitrary thresholds and ranges"
ASSUMPTIONS = ["the uncertainty map returns an arbitrary finite value (its value is P20)"]
FUNCTIONS = ["plugins.efficiency.*.simulate", "plugins.nestv2.MonoEnergiesClipEff.simulate", "plugins.nestv2.BandEnergiesClipEff.simulate", "plugins.er_nestv2.BandEnergiesClipEff.simulate"]


def threshold(h, n):
    from appletree import plugins as pl

    a, t = h.reals("a", n, lo=-1000, hi=1e6), h.real("t", lo=-1000, hi=1e6)
    (o,) = P.run(h, P.make(h, pl.S2Threshold), {"s2_threshold": t}, *P.f32(h, a))
    for x, y in zip(P.vec(h, o, n), a):
        h.check(h.same(x, h.ite(h.Sc(y) > t, 1, 0)), "1 strictly above the threshold, else 0")


def acceptance(h, cls, mp, n, ints):
    from appletree import plugins as pl

    a = h.ints("a", n, 0, 1000) if ints else h.reals("a", n, lo=-1000, hi=1e6)
    seen = []
    f, calls = h.stub("map", lo=-10, hi=10)

    def g(pos, parameters):
        seen.append(sorted(parameters))
        return f(pos)

    s = h.real("sigma", lo=-5, hi=5)
    (o,) = P.run(h, P.make(h, getattr(pl, cls), {mp: g}), {mp + "_sigma": s}, *(P.i32(h, a) if ints else P.f32(h, a)))
    h.check(len(calls) == 1 and seen == [[mp + "_sigma"]], "the map is evaluated once, with the parameters")
    o = P.vec(h, o, n)
    for i in range(n):
        h.close(calls[0][0][i], a[i], "the map is evaluated at the observable")
        h.check(h.all(o[i] >= 0, o[i] <= 1), "a probability")
        h.close(o[i], h.clip(calls[0][1][i], 0, 1), "the map value where it is a probability")


def product(h, n):
    from appletree import plugins as pl

    e = [h.reals(f"e{j}_", n, lo=0, hi=1) for j in range(4)]
    (o,) = P.run(h, P.make(h, pl.Eff), {}, *P.f32(h, *e))
    o = P.vec(h, o, n)
    for i in range(n):
        h.close(o[i], h.prod([x[i] for x in e]), "product of the efficiencies")
        h.check(h.all(o[i] >= 0, o[i] <= 1), "a probability")


def mono(h, shape):
    import numpy as np
    from appletree import plugins as pl

    n = int(np.prod(shape))
    a, lo, hi = h.reals("a", n, lo=-10, hi=1000), h.real("lo", lo=-10, hi=1000), h.real("hi", lo=-10, hi=1000)
    inst = P.make(h, pl.MonoEnergiesClipEff, clip_lower_energy=lo, clip_upper_energy=hi)
    x = h.array(a if len(shape) == 1 else [a[i * shape[1] : (i + 1) * shape[1]] for i in range(shape[0])])
    (o,) = P.run(h, inst, {}, x)
    h.check(h.shape(o) == shape, "shape")
    for i, y in zip(np.ndindex(*shape), a):
        h.check(h.same(h.S(o)[i], h.ite(h.all(h.Sc(y) >= lo, h.Sc(y) <= hi), 1, 0)), "1 exactly inside the closed range")


def band(h, which, n):
    from appletree import plugins as pl

    (o,) = P.run(h, P.make(h, getattr(pl, which).BandEnergiesClipEff), {}, *P.f32(h, h.reals("a", n, lo=-10, hi=1000)))
    for x in P.vec(h, o, n):
        h.check(h.same(x, 1), "band energies are already selected")


def instances(tier):
    ns = (1, 3) if tier == "quick" else (1, 2, 3, 5)
    out = []
    for n in ns:
        out.append(dict(name=f"threshold_{n}", func=threshold, params=dict(n=n)))
        out.append(dict(name=f"product_{n}", func=product, params=dict(n=n)))
        for cls, mp, ints in (("S1ReconEff", "s1_eff_3f", True), ("S1CutAccept", "s1_cut_acc", False), ("S2CutAccept", "s2_cut_acc", False)):
            out.append(dict(name=f"{cls}_{n}", func=acceptance, params=dict(cls=cls, mp=mp, n=n, ints=ints)))
        for w in ("nestv2", "er_nestv2"):
            out.append(dict(name=f"band_{w}_{n}", func=band, params=dict(which=w, n=n)))
    for sh in ((2,), (1, 2), (2, 3)):
        out.append(dict(name="mono_" + "x".join(map(str, sh)), func=mono, params=dict(shape=sh)))
    return out
