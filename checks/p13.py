"""P13: context bookkeeping of copied parameters and needed parameters."""
import copy
import itertools

import numpy as np

from checks import ctx as X

BOUNDS = "1..2 likelihoods with up to 2 components each and up to 3 copied parameters, every choice of source among rate and ordinary parameters and of the parameters needed by each component, arbitrary numbers in the configuration; the refusal through fitting, continuing and the summary"
ASSUMPTIONS = ["likelihoods are stand-ins that report the parameters their components need (what those are is P14)", "the target of a copy counts as needed"]
FUNCTIONS = ["context.Context.__init__", "context.Context.update_parameter_config", "context.Context.register_all_likelihood", "context.Context.register_component", "context.Context._sanity_check", "context.Context.fitting", "context.Context.print_context_summary"]


def entry(h, name):
    return {"prior_type": "norm", "prior_args": {"mean": h.real(name + "_m", lo=-10, hi=10), "std": h.real(name + "_s", lo=0.0625, hi=10)}, "allowed_range": [-100.0, h.real(name + "_hi", lo=0, hi=100)], "init_mean": 0.0, "init_std": 1.0}


def same_entry(h, a, b, label):
    h.check(set(a) == set(b), label)
    h.check(a["prior_type"] == b["prior_type"], label)
    for k in ("mean", "std"):
        h.check(h.same(a["prior_args"][k], b["prior_args"][k]), label)
    for i in (0, 1):
        h.check(h.same(a["allowed_range"][i], b["allowed_range"][i]), label)


def copies(h, llhs, copied):
    """The configuration after all copies."""
    import appletree as apt

    X.install(h)
    rates = {c + "_rate" for cs in llhs.values() for c in cs}
    targets = {t for ts in copied.values() for t in ts}
    names = ["base", "p", "er_rate"] + [c + "_rate" for cs in llhs.values() for c in cs if c + "_rate" not in targets]
    names = list(dict.fromkeys(names + ["free"]))
    cfg = {n: entry(h, n) for n in names}
    snap = copy.deepcopy(cfg)
    spec = {}
    want = {n: snap[n] for n in names}
    sources = []
    for l, targets in copied.items():
        spec[l] = {}
        for t in targets:
            s = h.pick(f"source_{l}_{t}", names)
            spec[l][t] = s
            sources.append(s)
    ins = X.instruct(llhs, spec)
    keep = copy.deepcopy(ins)
    given = h.pick("given", ["object", "file"])
    ctx = apt.Context(ins, par_config=cfg) if given == "object" else apt.Context(dict(ins, par_config=h.json_file("pars.json", cfg)))
    for l in copied:
        for t, s in spec[l].items():
            want[t] = snap[s]
    for s in sources:
        if s not in rates:
            want.pop(s, None)
    got = ctx.par_manager.par_config
    h.check(set(got) == set(want), "the source disappears unless it is a component's rate")
    h.check(set(ctx.par_manager.get_all_parameter()) == set(want), "parameters of the manager")
    for n in want:
        if n in got:
            same_entry(h, got[n], want[n], "starts with the source's configuration, others unchanged")
    h.check(set(cfg) == set(snap), "the caller's object keeps its parameters")
    for n in snap:
        same_entry(h, cfg[n], snap[n], "the caller's object is as it was")
    h.check(ins["likelihoods"] == keep["likelihoods"], "the instructions are as they were")
    # the copies are configurations of their own
    for l in copied:
        for t in spec[l]:
            if t in got:
                got[t]["allowed_range"][0] = -7.0
                got[t]["prior_type"] = "free"
                for n in want:
                    if n in got and n != t:
                        h.check(h.same(got[n]["allowed_range"][0], -100.0) and got[n]["prior_type"] == "norm", "changing a copy leaves the others alone")
                got[t]["allowed_range"][0] = -100.0
                got[t]["prior_type"] = "norm"
    for n in snap:
        same_entry(h, cfg[n], snap[n], "the caller's object is as it was")


def refused(h, llhs, copied, how, options, fixed=()):
    """Fitting is refused exactly when a configured parameter is needed by no component."""
    import appletree as apt
    import emcee

    class Sampler:
        def __init__(self, nwalkers, ndim, fn, *a, **k):
            self.parameter_names = k["parameter_names"]

        def run_mcmc(self, *a, **k):
            return "ran"

        def get_chain(self, *a, **k):
            return h.np_array([[[0.0] * len(self.parameter_names)]])

    h.patch(emcee, "EnsembleSampler", Sampler)
    comps = [c for cs in llhs.values() for c in cs]
    needs = {c: h.pick("needs_" + c, options) for c in comps}
    X.install(h, needs=needs)
    have = h.pick("configured", [("base", "p"), ("base",), ("p", "q"), ("base", "p", "q")])
    names = list(have) + [c + "_rate" for c in comps]
    drop = h.pick("drop", [None] + [c + "_rate" for c in comps])
    names = [n for n in names if n != drop]
    spec = {}
    targets = set()
    final = set(names)
    for l, t in copied.items():
        s = h.pick("source_" + l, list(have))
        spec[l] = {t: s}
        targets.add(t)
        final.add(t)
    for l in copied:
        final.discard(list(spec[l].values())[0])
    ctx = apt.Context(X.instruct(llhs, spec), par_config={n: {"prior_type": "fixed", "prior_args": {"val": h.real(n + "_v", lo=-10, hi=10)}} if n in fixed else entry(h, n) for n in names})
    needed = {c + "_rate" for c in comps} | {p for c in comps for p in needs[c]} | targets
    h.check(set(ctx.needed_parameters) == needed, "needed parameters of the context")
    if how == "fitting":
        r = h.attempt(ctx.fitting, nwalkers=1, iteration=1)
    else:
        r = h.attempt(ctx.print_context_summary)
    h.check(r.raised == bool(final - needed), "refused exactly when a configured parameter is needed by no component")
    if r.raised and isinstance(r.exc, RuntimeError):
        for n in final - needed:
            h.check(n in str(r.exc), "the refusal names the parameter")


def instances(tier):
    big = tier == "thorough"
    o = dict(max_paths=5000)
    L1, L2, L3 = {"l1": ["er"]}, {"l1": ["er"], "l2": ["ac"]}, {"l1": ["ac", "nr"], "l2": ["er"]}
    out = []
    for i, (l, c) in enumerate([(L1, {"l1": ["t"]}), (L1, {"l1": ["t", "u"]}), (L2, {"l1": ["t"], "l2": ["u"]}), (L2, {"l2": ["ac_rate"]}), (L3, {"l1": ["ac_rate", "nr_rate"], "l2": ["t"]})]):
        if i < 4 or big:
            out.append(dict(name=f"copies_{i}", func=copies, params=dict(llhs=l, copied=c), opts=o))
    out.append(dict(name="no_copies", func=copies, params=dict(llhs=L2, copied={}), opts=o))
    opts = [(), ("p",), ("p", "base"), ("q",)]
    for how in ("fitting", "summary"):
        out.append(dict(name=f"refused_{how}_1", func=refused, params=dict(llhs=L1, copied={}, how=how, options=opts), opts=o))
        out.append(dict(name=f"refused_{how}_fixed", func=refused, params=dict(llhs=L1, copied={}, how=how, options=opts, fixed=("base", "q")), opts=o))
        out.append(dict(name=f"refused_{how}_2", func=refused, params=dict(llhs=L2, copied={}, how=how, options=opts), opts=o))
        out.append(dict(name=f"refused_{how}_copy", func=refused, params=dict(llhs=L2, copied={"l2": "t"}, how=how, options=opts[:3]), opts=o))
    return out
