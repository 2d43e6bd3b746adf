"""P05: the literature log likelihood is the efficiency-weighted measurement likelihood."""
import math

from checks import comp as M

BOUNDS = "1..3 simulated yields, energies and yields in [-100, 100], efficiencies in [0, 1]; any centres, widths in [1/16, 100]; bands of 2..4 increasing energies; yields NaN or infinite in dedicated instances; any requested batch size"
ASSUMPTIONS = ["scipy's normal log density and linear interp1d follow their documentation", "the simulation returns arbitrary columns (its construction is P14)"]
FUNCTIONS = ["likelihood.LikelihoodLit.__init__", "likelihood.LikelihoodLit.get_log_likelihood", "likelihood.LikelihoodLit._simulate_yields", "likelihood.LikelihoodLit.register_component", "randgen.TwoHalfNorm.logpdf", "randgen.BandTwoHalfNorm.logpdf"]
W = dict(lo=-100, hi=100)
SG = dict(lo=0.0625, hi=100)


def half(h, y, mu, sp, sn):
    y, mu, sp, sn = map(h.Sc, (y, mu, sp, sn))
    return h.ite(y < mu, -(y - mu) * (y - mu) / (2 * sn * sn), -(y - mu) * (y - mu) / (2 * sp * sp)) + h.log(2 / (sp + sn) / math.sqrt(2 * math.pi))


def gauss(h, y, mu, s):
    y, mu, s = map(h.Sc, (y, mu, s))
    z = (y - mu) / s
    return -z * z / 2 - math.log(2 * math.pi) / 2 - h.log(s)


def build(h, kind, n, m, shuffle=False):
    """(config, log density of event i at energy e and yield y, inside(e))"""
    if kind == "band":
        xs = h.increasing("bx", m, lo=-50, hi=50, gap=1)
        ys, up, dn = h.reals("by", m, **W), h.reals("bu", m, **SG), h.reals("bd", m, **SG)
        cols = dict(x=xs, y=ys, yerr_upper=up, yerr_lower=dn)
        pdf = lambda i, e, y: half(h, y, h.linear(e, xs, ys), h.linear(e, xs, up), h.linear(e, xs, dn))
        inside = lambda e: h.all(h.Sc(e) >= xs[0], h.Sc(e) <= xs[-1])
    elif kind == "norm":
        mu, s = h.reals("mu", n, **W), h.reals("s", n, **SG)
        cols = dict(loc=mu, scale=s)
        pdf = lambda i, e, y: gauss(h, y, mu[i], s[i])
        inside = lambda e: True
    else:
        mu, sp, sn = h.reals("mu", n, **W), h.reals("sp", n, **SG), h.reals("sn", n, **SG)
        cols = dict(mu=mu, sigma_pos=sp, sigma_neg=sn)
        pdf = lambda i, e, y: half(h, y, mu[i], sp[i], sn[i])
        inside = lambda e: True
    names = h.pick("cols", [list(cols), list(cols)[::-1]]) if not shuffle else h.perm("cols", list(cols))
    return dict(bins_on=["energy", "light_yield"], variable_type=kind, logpdf_args=[names, [cols[k] for k in names]]), pdf, inside


def value(h, kind, n, m, special, shuffle=False):
    import appletree as apt

    cfg, pdf, inside = build(h, kind, n, m, shuffle)
    energies = h.reals("e", n, **W)
    yields = h.reals("y", n, special=special, **W)
    eff = h.reals("f", n, lo=0, hi=1, special=False)
    calls = []
    lk = apt.LikelihoodLit("lit", **cfg)
    lk.register_component(M.sim_class(h, calls, lambda name, i: [energies, yields, eff]), "nr")
    h.check(calls == [] and lk["nr"].deduced["data_names"] == ["energy", "light_yield", "eff"], "simulates energy, yield and efficiency")
    batch = h.int_("batch", -1, 1000)
    key = h.key("k")
    pars = {"nr_rate": h.real("rate", lo=0, hi=10), "w": h.real("w", **W)}
    back, got = lk.get_log_likelihood(key, batch, pars)
    got = h.Sc(got)
    h.check(len(calls) == 1, "simulates once")
    h.check(h.same(calls[0]["batch"], 1), "exactly one batch")
    h.check(calls[0]["key"] is key and back is calls[0]["out"], "with the given key, handing back the one of the simulation")
    for k in pars:
        h.check(h.same(calls[0]["parameters"][k], pars[k]), "with the given parameters")
    h.check(h.not_(got.isnan), "never NaN")
    out = h.any(*[h.not_(inside(e)) for e in energies])
    h.check(h.implies(out, got == -float("inf")), "minus infinity outside the band")
    # a yield that is not a number, and an infinite one, have no density
    nan = h.any(*[h.Sc(y).isnan for y in yields])
    h.check(h.implies(nan, got == -float("inf")), "minus infinity when the total is NaN")
    h.check(h.implies(h.any(*[h.all(h.Sc(y).isinf, h.Sc(f) > 0) for y, f in zip(yields, eff)]), got == -float("inf")), "an infinite yield is impossible")
    h.assume(h.not_(h.any(out, *[h.not_(h.Sc(y).finite) for y in yields])))
    want = h.sum(h.Sc(f) * pdf(i, e, y) for i, (e, y, f) in enumerate(zip(energies, yields, eff)))
    h.close(got, want, "efficiency-weighted sum of log densities")


def components(h):
    """Exactly one component."""
    import appletree as apt

    cfg = dict(bins_on=["energy", "light_yield"], variable_type="norm", logpdf_args=[["loc", "scale"], [[1.0], [1.0]]])
    lk = apt.LikelihoodLit("lit", **cfg)
    cls = M.sim_class(h, [], lambda name, i: [[1.0], [1.0], [1.0]])
    h.refuse(lambda: lk.get_log_likelihood(h.key("a"), 1, {}), "no component: refused")
    lk.register_component(cls, "nr")
    n = h.pick("second", ["er", "nr"])
    h.refuse(lambda: lk.register_component(cls, n), "a second component is refused")
    h.check(list(lk.components) == ["nr"], "the first one stays")
    _, v = lk.get_log_likelihood(h.key("b"), 1, {"nr_rate": 1.0})
    h.close(v, -math.log(2 * math.pi) / 2, "value")


def refused(h):
    import appletree as apt

    cfg = dict(bins_on=["energy", "light_yield"], variable_type="norm", logpdf_args=[["loc", "scale"], [[1.0], [1.0]]])
    w = h.pick("what", ["type", "dim1", "dim3"])
    cfg.update({"type": dict(variable_type=h.pick("t", ["halfnorm", "Band", ""])), "dim1": dict(bins_on=["energy"]), "dim3": dict(bins_on=["energy", "light_yield", "charge_yield"])}[w])
    h.refuse(lambda: apt.LikelihoodLit("lit", **cfg), "refused")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for kind in ("twohalfnorm", "norm", "band"):
        for n in (1, 2) + ((3,) if big else ()):
            for m in ((2, 3) + ((4,) if big else ()) if kind == "band" else (0,)):
                if kind == "band" and n * m > 4 and not big:
                    continue
                add(value, f"{kind}_{n}_{m}", kind=kind, n=n, m=m, special=False)
        add(value, f"{kind}_special", kind=kind, n=1, m=2, special=True)
        if kind != "band" or big:
            add(value, f"{kind}_order", kind=kind, n=1, m=2, special=False, shuffle=True)
    add(components, "components")
    add(refused, "refused")
    return out
