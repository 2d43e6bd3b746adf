"""P31: two-half-normal density and sampler are consistent."""
import math
import numpy as np

BOUNDS = "all values and centres in [-100, 100], widths in [1/16, 100] (and refused ones in [-100, 0]); scalar calls, size n and size (n, m) requests, arrays of up to 3 values; array widths for the density and for the jitted sampler"
ASSUMPTIONS = ["a uniform draw below p happens with probability p"]
FUNCTIONS = ["randgen.TwoHalfNorm.rvs", "randgen.TwoHalfNorm.logpdf", "randgen.twohalfnorm"]
W = dict(lo=-100, hi=100)
S = dict(lo=0.0625, hi=100)


def density(h, x, mu, sp, sn):
    x, mu, sp, sn = map(h.Sc, (x, mu, sp, sn))
    return h.ite(x < mu, -(x - mu) * (x - mu) / (2 * sn * sn), -(x - mu) * (x - mu) / (2 * sp * sp)) + h.log(2 / (sp + sn) / math.sqrt(2 * math.pi))


def logpdf(h, form):
    from appletree.randgen import TwoHalfNorm

    n = 1 if form in ("scalar", "default") else 2
    x = h.reals("x", n, **W)
    if form == "default":
        out = TwoHalfNorm.logpdf(x[0])
        h.close(h.S(out), density(h, x[0], 0, 1, 1), "log density")
        return
    k = n if form == "arrays" else 1
    mu, sp, sn = h.reals("mu", k, **W), h.reals("sp", k, **S), h.reals("sn", k, **S)
    if form == "scalar":
        out = TwoHalfNorm.logpdf(x=x[0], mu=mu[0], sigma_pos=sp[0], sigma_neg=sn[0])
        h.check(h.shape(out) == (), "shape")
        h.close(h.S(out), density(h, x[0], mu[0], sp[0], sn[0]), "log density")
        return
    if form == "array":
        out = TwoHalfNorm.logpdf(x=h.np_array(x), mu=mu[0], sigma_pos=sp[0], sigma_neg=sn[0])
    else:
        out = TwoHalfNorm.logpdf(x=h.np_array(x), mu=h.np_array(mu), sigma_pos=h.np_array(sp), sigma_neg=h.np_array(sn))
    h.eq_list(out, [density(h, x[i], mu[i % k], sp[i % k], sn[i % k]) for i in range(n)], "log density")


def peak(h):
    """Continuous at the centre, where it is largest; decreasing on both sides."""
    from appletree.randgen import TwoHalfNorm

    mu, sp, sn = h.real("mu", **W), h.real("sp", **S), h.real("sn", **S)
    x = h.reals("x", 2, **W)
    v = [h.S(TwoHalfNorm.logpdf(x=y, mu=mu, sigma_pos=sp, sigma_neg=sn)) for y in (mu, *x)]
    h.le(v[1], v[0], "largest at the centre")
    a, b = h.Sc(x[0]) - mu, h.Sc(x[1]) - mu
    h.assume(h.any(h.all(a >= 0, b >= a), h.all(a <= 0, b <= a)))
    h.le(v[2], v[1], "falls away from the centre")


def widths(h, which):
    """Non-positive widths are refused, positive ones accepted."""
    from appletree.randgen import TwoHalfNorm

    sp, sn = h.real("sp", **W), h.real("sn", **W)
    bad = h.path(h.any(h.Sc(sp) <= 0, h.Sc(sn) <= 0))
    if which == "logpdf":
        r = h.attempt(TwoHalfNorm.logpdf, x=1.0, mu=0.0, sigma_pos=sp, sigma_neg=sn)
    elif which == "logpdf_array":
        i = h.pick("where", [0, 1])
        s = [h.np_array([s, 1.0] if i == 0 else [1.0, s]) for s in (sp, sn)]
        r = h.attempt(TwoHalfNorm.logpdf, x=h.np_array([1.0, 2.0]), mu=0.0, sigma_pos=s[0], sigma_neg=s[1])
    else:
        r = h.attempt(TwoHalfNorm.rvs, mu=0.0, sigma_pos=sp, sigma_neg=sn, size=h.pick("size", [None, 2]))
    h.check(r.raised == bad, "refused exactly when a width is not positive")


def consistent(h, o, u, z, mu, sp, sn):
    mu, sp, sn = map(h.Sc, (mu, sp, sn))
    p = sp / (sp + sn)
    up, down = mu + h.abs(z) * sp, mu - h.abs(z) * sn

    def ok(eps):
        eq = (lambda a, b: h.same(a, b)) if not eps else (lambda a, b: h.abs(a - b) <= eps * (1 + h.abs(b)))
        lo = h.any(h.all(u < p + eps, eq(o, up)), h.all(u >= p - eps, eq(o, down)))
        hi = h.any(h.all(1 - u <= p + eps, eq(o, up)), h.all(1 - u > p - eps, eq(o, down)))
        return h.any(lo, hi)

    h.check_margin(ok(0), "above the centre with probability upper / (upper + lower), step scaled by the chosen side", lambda: ok(1e-4))
    h.check(h.implies(o > mu, h.any(h.same(o, up), h.abs(o - up) <= 1e-3 * (1 + h.abs(up)))), "upper width above")
    h.check(h.implies(o < mu, h.any(h.same(o, down), h.abs(o - down) <= 1e-3 * (1 + h.abs(down)))), "lower width below")


def draws(h, n):
    d = {"uniform": [], "normal": []}
    for x in h.draws:
        d[x["name"].replace("np_", "")] += [h.Sc(e) for e in x["elems"]]
    h.check(len(d["uniform"]) == n and len(d["normal"]) == n, "one uniform and one normal draw per value")
    return d["uniform"], d["normal"]


def rvs(h, size, how):
    from appletree.randgen import TwoHalfNorm

    mu, sp, sn = h.real("mu", **W), h.real("sp", **S), h.real("sn", **S)
    if how == "numpy":  # what a root finder returns
        sp, sn = h.np_array([sp, sn])[0], h.np_array([sp, sn])[1]
    kw = {} if size is None and h.flag("default_size") else {"size": size}
    out = TwoHalfNorm.rvs(mu=mu, sigma_pos=sp, sigma_neg=sn, **kw)
    shape = () if size is None else (size if isinstance(size, tuple) else (size,))
    h.check(h.shape(out) == shape, "requested shape")
    n = int(np.prod(shape))
    u, z = draws(h, n)
    for k in range(n):
        o = h.S(out)[np.unravel_index(k, shape)] if shape else h.S(out)
        consistent(h, o, u[k], z[k], mu, sp, sn)


def jitted(h, shapes, shape):
    from appletree import randgen as G

    def par(name, s, **k):
        v = h.reals(name, int(np.prod(s)), **k)
        return v, h.array(v if s else v[0])

    (mu, MU), (sp, SP), (sn, SN) = par("mu", shapes[0], **W), par("sp", shapes[1], **S), par("sn", shapes[2], **S)
    key, out = G.twohalfnorm(h.key(), MU, SP, SN, **({"shape": shape} if shape else {}))
    want = shape or np.broadcast_shapes(*shapes)
    h.check(h.shape(out) == want, "broadcast shape")
    n = int(np.prod(want))
    u, z = draws(h, n)
    for k in range(n):
        o = h.S(out)[k] if want else h.S(out)
        consistent(h, o, u[k], z[k], *[v[k % len(v)] for v in (mu, sp, sn)])


def instances(tier):
    out = [dict(name="logpdf_" + f, func=logpdf, params=dict(form=f)) for f in ("scalar", "array", "arrays", "default")]
    out.append(dict(name="peak", func=peak, opts=dict(fork_ite=True)))
    out += [dict(name="widths_" + w, func=widths, params=dict(which=w)) for w in ("logpdf", "logpdf_array", "rvs")]
    for s in (None, 1, 2, (1, 2), (2, 2)) if tier == "thorough" else (None, 2, (1, 2)):
        for how in ("python", "numpy"):
            out.append(dict(name=f"rvs_{s}_{how}".replace(" ", ""), func=rvs, params=dict(size=s, how=how), opts=dict(fork_ite=True)))
    for i, (sh, s) in enumerate([(((), (), ()), ()), (((2,), (2,), (2,)), ()), (((), (2,), ()), ()), (((), (), (2,)), ()), (((2,), (), ()), ()), (((), (), ()), (2,))]):
        out.append(dict(name=f"twohalfnorm_{i}", func=jitted, params=dict(shapes=sh, shape=s), opts=dict(fork_ite=True)))
    return out
