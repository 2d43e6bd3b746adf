"""P09: sampled parameters respect allowed ranges and configured distributions."""
import itertools

from checks import params as A

BOUNDS = "every mixture of prior types over 1..3 parameters, arbitrary ranges, centres and widths (|x| <= 100, widths >= 1/16), arbitrary draws, every order of the configuration, histories of 1..3 samplings"
ASSUMPTIONS = ["numpy.random and jax.random follow their documented support"]
FUNCTIONS = ["parameter.Parameter.sample_prior", "parameter.Parameter.sample_init", "parameter.Parameter.init_parameter", "randgen.TwoHalfNorm.rvs", "parameter.Parameter.parameter_fit"]
NAMES = ("b", "a", "c")


def candidates(h, p, how, zs, us):
    """What the parameter may be, for some of the draws of its own."""
    if how == "init" or p.kind == "free":
        return [(h.Sc(p.init_mean) + z * p.init_std, (("z", i),)) for i, z in enumerate(zs)]
    if p.kind == "norm":
        return [(h.Sc(p.loc) + z * p.scale, (("z", i),)) for i, z in enumerate(zs)]
    if p.kind == "uniform":
        return [(h.Sc(p.a) + (h.Sc(p.b) - p.a) * u, (("u", i),)) for i, u in enumerate(us)]
    if p.kind == "twohalfnorm":
        sp, sn = p.sigmas
        out = []
        for i, z in enumerate(zs):
            for j, u in enumerate(us):
                a = h.abs(z)
                out.append((h.ite(u < sp / (sp + sn), h.Sc(p.loc) + a * sp, h.Sc(p.loc) - a * sn), (("z", i), ("u", j))))
                out.append((h.ite(1 - u < sp / (sp + sn), h.Sc(p.loc) + a * sp, h.Sc(p.loc) - a * sn), (("z", i), ("u", j))))
        return out


def judge(h, par, ps, how, start):
    """The current values come from the draws made since `start`."""
    zs, us = [], []
    for d in h.draws[start:]:
        kind = d["name"].replace("np_", "")
        h.check(kind in ("normal", "uniform"), "kind of draw")
        (zs if kind == "normal" else us).extend(h.Sc(e) for e in d["elems"])
    fit = [p for p in ps if p.kind != "fixed"]
    h.check(par.parameter_fit == sorted(p.name for p in fit), "fitted parameters, sorted")
    h.check(set(getattr(par, "_parameter_fixed", ())) == {p.name for p in ps if p.kind == "fixed"}, "the other parameters are fixed")
    for p in ps:
        if p.kind == "fixed":
            h.check(h.same(par.get_parameter(p.name), p.val), "fixed value")
    got = {p.name: h.Sc(par.get_parameter(p.name)) for p in fit}
    for p in fit:
        h.check(p.inside(got[p.name]), "inside the allowed range")
    # an assignment of distinct draws to the parameters explains all of them
    options = [candidates(h, p, how, zs, us) for p in fit]

    def ok(eps):
        eq = (lambda a, b: h.same(a, b)) if not eps else (lambda a, b: h.abs(a - b) <= eps)
        alts = []
        for combo in itertools.product(*options):
            used = [x for _, u in combo for x in u]
            if len(set(used)) == len(used):
                alts.append(h.all(*[eq(got[p.name], h.clip(w, p.lo, p.hi)) for p, (w, _) in zip(fit, combo)]))
        return h.any(*alts)

    if fit:
        h.check_margin(ok(0), "clipped draw of the configured distribution, each from its own randomness", lambda: ok(1e-3))


def sampling(h, kinds, ops):
    from appletree import Parameter

    errors = h.pick("errors", A.ERRORS) if "twohalfnorm" in kinds else None
    ps = [A.Par(h, n, k, errors) for n, k in zip(NAMES, kinds)]
    for p in ps:
        if p.kind == "twohalfnorm":
            p.sigmas = A.solved(h, errors)
    cfg = {p.name: p.config for p in ps}
    n = len(h.draws)
    par = Parameter(cfg)
    judge(h, par, ps, "prior", n)
    for op in ops:
        n = len(h.draws)
        if op == "init":
            par.sample_init()
        elif op == "prior":
            par.sample_prior()
        elif op == "reinit":
            par.init_parameter()
        elif op == "seed":
            par.init_parameter(seed=137)
        judge(h, par, ps, "init" if op == "init" else "prior", n)


def from_file(h):
    """A configuration file gives the same parameters as its content."""
    from appletree import Parameter

    ps = [A.Par(h, "b", "norm"), A.Par(h, "a", "fixed"), A.Par(h, "c", "uniform")]
    par = Parameter(h.json_file("par.json", {p.name: p.config for p in ps}))
    judge(h, par, ps, "prior", 0)


def instances(tier):
    big = tier == "thorough"
    out = []
    for k in A.KINDS:
        out.append(dict(name=f"1_{k}", func=sampling, params=dict(kinds=(k,), ops=("init", "prior"))))
        out.append(dict(name=f"1_{k}_again", func=sampling, params=dict(kinds=(k,), ops=("reinit", "seed", "init"))))
    for c in itertools.product(A.KINDS, repeat=2):
        if not big and c not in (("norm", "norm"), ("norm", "uniform"), ("uniform", "uniform"), ("free", "fixed"), ("free", "norm"), ("fixed", "norm")):
            continue
        out.append(dict(name="2_" + "_".join(c), func=sampling, params=dict(kinds=c, ops=("init",))))
    for c in (("norm", "free", "fixed"), ("fixed", "uniform", "norm")) + ((("free", "free", "free"), ("uniform", "twohalfnorm", "fixed")) if big else ()):
        out.append(dict(name="3_" + "_".join(c), func=sampling, params=dict(kinds=c, ops=("init",))))
    out.append(dict(name="file", func=from_file))
    return out
