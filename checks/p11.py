"""P11: log posterior is prior plus all likelihoods, and bypasses simulation off-prior."""
from checks import ctx as X
from checks import params as A

BOUNDS = "1..3 likelihoods returning arbitrary real values or minus infinity, 1..3 repetitions, every mixture of prior types over up to 3 parameters, arbitrary proposals inside and outside the allowed ranges, sequences of 2 evaluations"
ASSUMPTIONS = ["likelihoods are stand-ins that return arbitrary values (their own value is P04 and P05)"]
FUNCTIONS = ["context.Context.__init__", "context.Context.log_posterior", "context.Context.pre_fitting", "parameter.Parameter.set_parameter", "parameter.Parameter.log_prior"]
NAMES = ("b", "a", "c")


def make(h, kinds, llhs, special=True):
    import appletree as apt

    n = [0]
    vals = {}

    def value(name, i):
        k = f"llh_{name}_{n[0]}_{i}"
        v = h.real(k, lo=-1000, hi=1000)
        if special and h.flag(k + "_inf"):
            v = float("-inf")
        return v

    calls = X.install(h, value)
    ps = [A.Par(h, nm, k, (1.0, 0.5)) for nm, k in zip(NAMES, kinds)]
    for p in ps:
        if p.kind == "twohalfnorm":
            p.sigmas = A.solved(h, (1.0, 0.5))
    ctx = apt.Context(X.instruct({l: [] for l in llhs}), par_config={p.name: p.config for p in ps})
    return ctx, ps, calls, n


def judge(h, ctx, ps, calls, v, out, llhs, batch, repeat):
    post, prior = out
    fit = [p for p in ps if p.kind != "fixed"]
    full = {p.name: (p.val if p.kind == "fixed" and p.name not in v else v[p.name]) for p in ps}
    if not h.path(h.all(*[p.inside(v[p.name]) for p in fit])):
        h.check(h.Sc(post).isninf, "minus infinity off the prior")
        h.check(h.Sc(prior).isninf, "the log prior is returned")
        h.check(len(calls) == 0, "no simulation off the prior")
        return
    want = h.sum([p.term(v[p.name]) for p in fit])
    h.close(h.Sc(prior), want, "the log prior is returned")
    h.check(len(calls) == repeat * len(llhs) and all(sum(1 for c in calls if c["name"] == l) == repeat for l in llhs), "every likelihood once per repetition")
    for c in calls:
        h.check(c["batch"] == batch, "requested batch size")
        h.check(set(c["parameters"]) == set(full), "all parameters are passed")
        for k in full:
            h.check(h.same(c["parameters"][k], full[k]), "proposed and fixed values")
    h.check(h.not_(h.Sc(post).isnan), "never NaN")
    if repeat > 1 or any(isinstance(c["value"], float) for c in calls):
        if any(isinstance(c["value"], float) and c["value"] == float("-inf") for c in calls):
            h.check(h.Sc(post).isninf, "minus infinity when a likelihood is")
            return
    h.close(h.Sc(post), want + h.sum([c["value"] for c in calls]) / repeat, "log prior plus the (mean) sum of the log likelihoods")


def posterior(h, kinds, llhs, repeat, steps=1):
    ctx, ps, calls, n = make(h, kinds, llhs)
    for i in range(steps):
        n[0] = i
        del calls[:]
        v = {p.name: h.real(f"v{i}_{p.name}", lo=-200, hi=200) for p in ps if p.kind != "fixed"}
        kw = {} if repeat == 1 and i == 0 else {"repeat_times": repeat}
        batch = [1000, 7][i % 2]
        out = ctx.log_posterior(v, batch_size=batch, **kw)
        judge(h, ctx, ps, calls, v, out, llhs, batch, repeat)


def nan_prior(h):
    """A prior that is not a finite number bypasses the likelihoods."""
    ctx, ps, calls, n = make(h, ("norm", "free"), ("l1",))
    v = {p.name: h.real("v_" + p.name, lo=-200, hi=200, special=True) for p in ps}
    post, prior = ctx.log_posterior(v, batch_size=10)
    if h.path(h.Sc(prior).finite):
        h.check(len(calls) == 1, "simulated when the prior is finite")
    else:
        h.check(h.Sc(post).isninf and len(calls) == 0, "bypassed")
        h.check(h.Sc(post).isninf, "minus infinity")


def sampler(h, llhs):
    """What the ensemble sampler is given evaluates the posterior with the requested settings."""
    import emcee

    got = {}

    class Sampler:
        def __init__(self, nwalkers, ndim, log_prob_fn, *a, **k):
            got.update(nwalkers=nwalkers, ndim=ndim, fn=log_prob_fn, args=k.get("args") or [], kw=k.get("kwargs") or {}, names=k.get("parameter_names"))

    h.patch(emcee, "EnsembleSampler", Sampler)
    kinds = ("norm", "fixed", "free")
    ctx, ps, calls, n = make(h, kinds, llhs)
    repeat, batch = h.pick("repeat", [1, 2]), h.pick("batch", [10, 1000])
    ctx.pre_fitting(nwalkers=12, batch_size=batch, repeat_times=repeat)
    h.check(got["nwalkers"] == 12 and got["ndim"] == 2, "walkers and dimensions")
    names = got["names"]
    names = list(names) if isinstance(names, (list, tuple)) else [k for k, _ in sorted(names.items(), key=lambda t: t[1])]
    h.check(names == ["b", "c"], "fitted parameters in sorted order")
    v = {k: h.real("v_" + k, lo=-200, hi=200) for k in names}
    out = got["fn"](dict(v), *got["args"], **got["kw"])
    judge(h, ctx, ps, calls, v, out, llhs, batch, repeat)


def instances(tier):
    big = tier == "thorough"
    out = []
    o = dict(max_paths=4000)
    for ll in (("l1",), ("l1", "l2"), ("l2", "l1", "l3")):
        for r in (1, 2, 3):
            if len(ll) * r > (9 if big else 4):
                continue
            out.append(dict(name=f"llh{len(ll)}_rep{r}", func=posterior, params=dict(kinds=("norm", "fixed", "free"), llhs=ll, repeat=r), opts=o))
    for k in (("uniform", "twohalfnorm"), ("fixed", "norm"), ("norm", "norm", "norm"), ("twohalfnorm",)):
        out.append(dict(name="priors_" + "_".join(k), func=posterior, params=dict(kinds=k, llhs=("l1", "l2"), repeat=1), opts=o))
    out.append(dict(name="sequence", func=posterior, params=dict(kinds=("norm", "fixed", "free"), llhs=("l1", "l2"), repeat=1, steps=2), opts=o))
    out.append(dict(name="nan_prior", func=nan_prior, opts=o))
    out.append(dict(name="sampler", func=sampler, params=dict(llhs=("l1", "l2")), opts=o))
    return out
