"""P07: parameter aliases rename exactly the aliased parameters of one likelihood."""
import copy
import os

from checks import comp as M
from checks import ctx as X

BOUNDS = "0..2 aliases per likelihood (sources and targets disjoint), 1..2 likelihoods of either kind with 1..2 components, all parameter values arbitrary, targets also given by the caller or not; every entry point"
ASSUMPTIONS = ["the simulation returns arbitrary columns (its construction is P14)", "the ensemble sampler stores arbitrary samples"]
FUNCTIONS = ["likelihood.Likelihood.replace_alias", "likelihood.need_replacing_alias", "likelihood.Likelihood.register_component", "likelihood.Likelihood.get_log_likelihood", "likelihood.Likelihood.simulate_weighted_data", "likelihood.Likelihood.get_num_events_accepted", "likelihood.LikelihoodLit.get_log_likelihood", "context.Context.get_template", "context.Context.get_num_events_accepted"]
ALIASES = {"none": {}, "one": {"l1_field": "field"}, "two": {"l1_field": "field", "l1_w": "w"}}


def llh_config(h, lit, alias):
    if lit:
        return dict(bins_on=["energy", "light_yield"], variable_type="norm", logpdf_args=[["loc", "scale"], [[1.0], [1.0]]], parameter_alias=dict(alias))
    paths = M.install(h, {"data.csv": {"cs1": [1.0, 2.0]}})
    return dict(data_file_name=paths["data.csv"], bins_type="irreg", bins_on="cs1", bins=[[0.0, 1.5, 4.0]], clip=[0.0, 4.0], parameter_alias=dict(alias))


def columns(lit):
    return lambda name, i: [[1.0], [1.0], [0.5]] if lit else [[1.0, 2.0], [0.5, 0.25]]


def expected(h, pars, alias):
    """What the simulation must see (names that must have a value)."""
    want = {k: v for k, v in pars.items() if k not in alias}
    for a, b in alias.items():
        want[b] = pars[a]
    return want


def judge(h, calls, want, label):
    h.check(len(calls) > 0, label + ": simulates")
    for c in calls:
        for k, v in want.items():
            h.check(k in c["parameters"], label + ": parameter given to the simulation")
            if k in c["parameters"]:
                h.check(h.same(c["parameters"][k], v), label + ": value given to the simulation")


def unchanged(h, pars, before, label):
    h.check(list(pars) == list(before), label + ": the caller's parameters keep their names")
    for k in before:
        if k in pars:
            h.check(h.same(pars[k], before[k]), label + ": the caller's parameters keep their values")


def needs_of(which):
    return {"both": ("field", "w", "g2"), "field": ("field", "g2"), "none": ("g2",)}[which]


def entry(h, lit, alias, ncomp, point):
    import appletree as apt

    al = ALIASES[alias]
    lk = (apt.LikelihoodLit if lit else apt.Likelihood)("l1", **llh_config(h, lit, al))
    calls = []
    which = [h.pick(f"needs{i}", ["both", "none"]) for i in range(ncomp)]
    for i in range(ncomp):
        lk.register_component(M.sim_class(h, calls, columns(lit), norm_type="on_pdf", needs=needs_of(which[i])), f"c{i}")
    needed = {f"c{i}_rate" for i in range(ncomp)}
    for w in which:
        needed |= set(needs_of(w))
    back = {b: a for a, b in al.items()}
    h.check(lk.needed_parameters == {back.get(n, n) for n in needed}, "reports the source instead of the target as needed")
    pars = {f"c{i}_rate": h.real(f"rate{i}", lo=0.125, hi=100) for i in range(ncomp)}
    pars.update({k: h.real(k, lo=-100, hi=100) for k in ("g2", *al)})
    given = h.flag("target_given")
    for b in ("field", "w"):
        if b not in back or given:
            pars[b] = h.real("caller_" + b, lo=-100, hi=100)
    before = dict(pars)
    for rep in range(2):
        del calls[:]
        if point == "llh":
            if h.flag(f"keyword{rep}"):
                lk.get_log_likelihood(key=h.key(f"k{rep}"), parameters=pars, batch_size=1)
            else:
                lk.get_log_likelihood(h.key(f"k{rep}"), 1, pars)
        elif point == "weighted":
            lk.simulate_weighted_data(h.key(f"k{rep}"), 1, pars)
        else:
            lk.get_num_events_accepted(1, pars)
        judge(h, calls, expected(h, before, al), point)
        h.check(len(calls) == ncomp, "each component once")
        unchanged(h, pars, before, point)


def context(h, point, lit, alias, shuffle):
    """Likelihoods of one context: only the aliased one is renamed; post-fit templates and accepted events."""
    import appletree as apt
    import appletree.components as C

    st = X.mcmc(h)
    al = ALIASES[alias]
    calls = []
    h.patch(C, "SimA", M.sim_class(h, calls, columns(lit), norm_type="on_pdf", needs=("field", "w")))
    h.patch(C, "SimB", M.sim_class(h, calls, columns(False), norm_type="on_pdf", needs=("field", "w")))
    one = dict(llh_config(h, lit, al), type="LikelihoodLit" if lit else "Likelihood", components={"a": "SimA"}, copy_parameters={})
    two = dict(llh_config(h, False, {}), type="Likelihood", components={"b": "SimB"}, copy_parameters={})
    two.pop("parameter_alias")
    llhs = {"l1": one, "l2": two}
    if shuffle:
        llhs = {k: llhs[k] for k in h.perm("order", list(llhs))}
    need = ["a_rate", "b_rate", "field", "w", *al]
    free = {"prior_type": "free", "prior_args": {}, "allowed_range": [0.125, 100.0], "init_mean": 1.0, "init_std": 1.0}
    cfg = {}
    for n in need:
        if n in ("a_rate", "w"):
            cfg[n] = dict(free)
        else:
            cfg[n] = {"prior_type": "fixed", "prior_args": {"val": h.real("val_" + n, lo=0.125, hi=100)}}
    ctx = apt.Context({"configs": {}, "likelihoods": llhs}, par_config=cfg)
    h.check(set(ctx.par_manager.get_all_parameter()) == set(need), "needed parameters of the context")
    if point == "template":
        ctx.fitting(nwalkers=1, iteration=1, batch_size=1)
        pars = ctx.get_post_parameters()
    else:
        pars = {n: h.real("p_" + n, lo=0.125, hi=100) for n in need}
    before = dict(pars)
    for name, comp, a in [("l1", "a", al), ("l2", "b", {})]:
        del calls[:]
        if point == "template":
            ctx.get_template(name, comp, batch_size=10, seed=h.pick("seed", [None, 3]))
        elif point == "accepted":
            if lit:
                continue
            ctx.get_num_events_accepted(pars, batch_size=10)
            mine = [c for c in calls if c["comp"].llh_name == name]
            h.check(len(calls) == 2 and len(mine) == 1, "each component once")
            calls[:] = mine
        else:
            ctx[name].get_log_likelihood(h.key("k" + name), 10, pars)
        h.check(all(c["comp"].name == comp for c in calls), "the requested component")
        judge(h, calls, expected(h, before, a), point + " " + name)
        unchanged(h, pars, before, point)
        now = ctx.par_manager.get_all_parameter()
        h.check(set(now) == set(need), "the context's parameters are kept")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for alias in ALIASES:
        for point in ("llh", "weighted", "accepted"):
            for n in (1, 2):
                if n == 2 and alias == "none" and not big:
                    continue
                add(entry, f"{point}_{alias}_{n}", lit=False, alias=alias, ncomp=n, point=point)
        add(entry, f"lit_{alias}", lit=True, alias=alias, ncomp=1, point="llh")
        for lit in (False, True):
            for point in ("template", "llh", "accepted"):
                if lit and point == "accepted":
                    continue
                add(context, f"ctx_{point}_{alias}_{'lit' if lit else 'bin'}", point=point, lit=lit, alias=alias, shuffle=False)
                if big:
                    add(context, f"ctxO_{point}_{alias}_{'lit' if lit else 'bin'}", point=point, lit=lit, alias=alias, shuffle=True)
    return out
