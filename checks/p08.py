"""P08: log prior: sum of prior terms inside, minus infinity outside, the allowed range."""
import itertools

from checks import params as A

BOUNDS = "every mixture of prior types over 1..3 parameters, every real value, allowed range, centre and width (|x| <= 100, widths >= 1/16), 68% errors from three settings solved by the real root finder plus arbitrary errors and an arbitrary solution"
ASSUMPTIONS = ["the root finder returns a solution of the equations it is given (symbolic errors); for concrete errors its result is checked"]
FUNCTIONS = ["parameter.Parameter.log_prior", "parameter.Parameter.set_parameter", "randgen.TwoHalfNorm.logpdf", "utils.errors_to_two_half_norm_sigmas"]
NAMES = ("b", "a", "c")


def prior(h, kinds, form):
    from appletree import Parameter

    errors = h.pick("errors", A.ERRORS) if "twohalfnorm" in kinds else None
    ps = [A.Par(h, n, k, errors, fixed_range=h.flag("range_" + n) if k == "fixed" else False) for n, k in zip(NAMES, kinds)]
    for p in ps:
        if p.kind == "twohalfnorm":
            p.sigmas = A.solved(h, errors)
    par = Parameter({p.name: p.config for p in ps})
    v = {p.name: h.real("v_" + p.name, lo=-200, hi=200) for p in ps}
    if form == "dict":
        par.set_parameter(v)
    elif form == "list":
        par.set_parameter(list(v), list(v.values()))
    else:
        for k, x in v.items():
            par.set_parameter(k, x)
    judge(h, ps, v, par.log_prior)


def judge(h, ps, v, got):
    fit = [p for p in ps if p.kind != "fixed"]
    if h.path(h.all(*[p.inside(v[p.name]) for p in fit])):
        h.close(h.Sc(got), h.sum([p.term(v[p.name]) for p in fit]), "sum of the prior terms")
    else:
        h.check(h.Sc(got).isninf, "minus infinity outside the allowed range")


def sampled(h, kinds):
    """Right after sampling the prior, without setting anything."""
    from appletree import Parameter

    ps = [A.Par(h, n, k) for n, k in zip(NAMES, kinds)]
    par = Parameter({p.name: p.config for p in ps})
    v = {p.name: par.get_parameter(p.name) for p in ps}
    judge(h, ps, v, par.log_prior)


def unknown_errors(h, side):
    """Arbitrary 68% errors: the widths used solve the percentile conditions."""
    from appletree import Parameter

    sols = A.unknown_solution(h)
    e = [h.real("ep", lo=0.0625, hi=16), h.real("en", lo=0.0625, hi=16)]
    p = A.Par(h, "a", "twohalfnorm", e)
    par = Parameter({"a": p.config})
    del sols[:]
    v = h.real("v", lo=-200, hi=200)
    par.set_parameter("a", v)
    h.assume(h.Sc(v) < p.loc if side else h.Sc(v) >= p.loc)
    got = par.log_prior
    if not h.path(p.inside(v)):
        h.check(h.Sc(got).isninf, "minus infinity outside the allowed range")
        return
    h.check(len(sols) == 1, "the widths are solved for")
    p.sigmas = sols[0]
    h.close(h.Sc(got), p.term(v), "two-half-normal term with the solved widths")
    A.matching(h, e, *sols[0])


def scaled(h):
    """Two widths solved for concrete errors scale with the errors; the shape stays."""
    e = h.pick("errors", A.ERRORS)
    s = A.solved(h, e)
    t = A.solved(h, [3 * x for x in e])
    h.close(t[0], 3 * s[0], "scale of the upper width", rtol=1e-3)
    h.close(t[1], 3 * s[1], "scale of the lower width", rtol=1e-3)


def instances(tier):
    out = [dict(name="1_" + k, func=prior, params=dict(kinds=(k,), form="str")) for k in A.KINDS]
    combos = list(itertools.combinations_with_replacement(A.KINDS, 2))
    out += [dict(name="2_" + "_".join(c), func=prior, params=dict(kinds=c, form="dict")) for c in combos if tier == "thorough" or len(set(c)) == 2 or c[0] in ("norm", "twohalfnorm")]
    three = [("norm", "twohalfnorm", "fixed"), ("uniform", "norm", "free")] + ([("twohalfnorm", "twohalfnorm", "norm"), ("norm", "norm", "norm"), ("free", "fixed", "twohalfnorm")] if tier == "thorough" else [])
    out += [dict(name="3_" + "_".join(c), func=prior, params=dict(kinds=c, form="list")) for c in three]
    out += [dict(name="sampled_" + "_".join(c), func=sampled, params=dict(kinds=c)) for c in (("norm", "fixed"), ("uniform", "norm"), ("free",))]
    out.append(dict(name="errors_above", func=unknown_errors, params=dict(side=0)))
    out.append(dict(name="errors_below", func=unknown_errors, params=dict(side=1)))
    out.append(dict(name="scaled", func=scaled))
    return out
