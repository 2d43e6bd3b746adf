"""P36: a context restored from its chain file equals the one that wrote it."""
import copy
import os

from checks import ctx as X
from checks import params as A
from checks.p12 import judge as judge_post

BOUNDS = "contexts with 1..2 likelihoods, 1..2 fitted and 1 fixed parameters with arbitrary configurations, instructions with every kind of JSON value, chains of 1..4 steps of 2..3 walkers with arbitrary samples, fitted once, again or continued; followed by queries and continued fits"
ASSUMPTIONS = ["the chain file returns what was stored in it (stand-in with the interface of emcee and h5py)", "the parameter configuration is the one the instructions name"]
FUNCTIONS = ["context.Context.from_backend", "context.Context._dump_meta", "context.Context.pre_fitting", "context.Context._set_backend", "context.Context.get_post_parameters", "share.set_global_config"]


def restore(h, kinds, llhs, steps, then, plain=False, before=()):
    import appletree as apt
    from appletree.share import _cached_configs

    st = X.mcmc(h)
    X.install(h, needs={"er": ["b", "a", "c"]})
    ps = [A.Par(h, n, k) for n, k in zip(("b", "a", "c"), kinds)]
    path = os.path.join(h.tmp, "chain.h5")
    open(path, "w").close()
    ins = X.instruct(llhs, backend_h5=path, par_config=h.json_file("pars.json", {p.name: p.config for p in ps}))
    x, y = (1.5, -2.0) if plain else (h.real("cfg_x", lo=-100, hi=100), h.real("cfg_y", lo=-100, hi=100))
    ins["configs"] = {"some_value": x, "per_likelihood": {l: y for l in llhs}}
    extra = "none" if before else h.pick("extra", ["none", "null", "true", "false", "text", "list"])
    if extra != "none":
        ins["remark"] = {"null": None, "true": True, "false": False, "text": "it's \"quoted\" \\ text", "list": [1, [2.5, None], {"k": True}]}[extra]
    keep = copy.deepcopy(ins)
    ctx = apt.Context(ins)
    batch, walkers = h.pick("batch", [1, 250]), 2
    ctx.fitting(nwalkers=walkers, iteration=steps, batch_size=batch)
    for i, op in enumerate(before):
        # the file describes the latest fit
        batch = h.pick(f"batch{i}", [7, 30])
        if op == "continue":
            ctx.continue_fitting(iteration=1, batch_size=batch)
            steps += 1
        else:
            walkers = 3
            ctx.fitting(nwalkers=walkers, iteration=1, batch_size=batch)
            steps = 1
    first = st.samplers[-1]
    _cached_configs.clear()
    new = apt.Context.from_backend(path)
    second = st.samplers[-1]
    h.check(set(new.instruct) == set(keep), "same instructions")
    for k in keep:
        if k != "configs":
            h.check(new.instruct.get(k) == keep[k], "same instructions")
    h.check(h.same(_cached_configs["some_value"], x), "global configurations are set again")
    for l in llhs:
        h.check(h.same(_cached_configs["per_likelihood"][l], y), "per-likelihood configurations are set again")
    h.check(new.backend_h5 == path, "the chain file given")
    h.check(list(new.likelihoods) == sorted(llhs), "the same likelihoods")
    h.check(second is not first and second.backend is first.backend, "the stored chain")
    h.check(second.nwalkers == walkers and second.kwargs.get("batch_size") == batch, "walkers and batch size of the fit")
    fit = sorted(p.name for p in ps if p.kind != "fixed")
    h.check(sorted(second.parameter_names, key=second.parameter_names.get) == fit, "names in the order of the chain's columns")
    for p in ps:
        c = new.par_manager.par_config[p.name]
        h.check(c["prior_type"] == p.kind, "prior type")
        if p.kind != "fixed":
            h.check(h.all(h.same(c["allowed_range"][0], p.lo), h.same(c["allowed_range"][1], p.hi)), "allowed range")
    now = {k: h.Sc(v) for k, v in new.par_manager.get_all_parameter().items()}
    judge_post(h, new.get_post_parameters(), "mpe", fit, now, st, tuple(p.name for p in ps))
    if then == "continue":
        new.continue_fitting(iteration=1, batch_size=batch)
        h.check(len(st.samplers[-1].backend.rows) == steps + 1, "continued on top of the stored chain")
        now = {k: h.Sc(v) for k, v in new.par_manager.get_all_parameter().items()}
        judge_post(h, new.get_post_parameters(which="median" if steps == 1 and not before else "mpe"), "median" if steps == 1 and not before else "mpe", fit, now, st, tuple(p.name for p in ps))


def renamed(h):
    """A renamed chain file is restored under its new name."""
    import appletree as apt

    st = X.mcmc(h)
    X.install(h)
    path, moved = os.path.join(h.tmp, "chain.h5"), os.path.join(h.tmp, "moved.h5")
    open(moved, "w").close()
    ps = [A.Par(h, "er_rate", "norm")]
    ctx = apt.Context(X.instruct({"l1": ["er"]}, backend_h5=path, par_config=h.json_file("pars.json", {p.name: p.config for p in ps})))
    ctx.fitting(nwalkers=1, iteration=1, batch_size=5)
    st.files[moved] = st.files.pop(path)
    new = apt.Context.from_backend(moved)
    h.check(new.backend_h5 == moved, "the file given")
    new.continue_fitting(iteration=1, batch_size=5)
    h.check(path not in st.files and len(st.files[moved].rows) == 2, "continued in the renamed file")


def instances(tier):
    big = tier == "thorough"
    out = []
    for i, (k, l) in enumerate([(("norm", "fixed", "free"), {"l1": ["er"]}), (("uniform", "fixed"), {"l1": ["er"], "l2": ["ac"]})]):
        for steps in (1, 2) if big else (1,):
            for then in ("query", "continue"):
                out.append(dict(name=f"restore_{i}_{steps}_{then}", func=restore, params=dict(kinds=k, llhs=l, steps=steps, then=then), opts=dict(max_paths=3000)))
    out.append(dict(name="restore_plain", func=restore, params=dict(kinds=("norm", "fixed", "free"), llhs={"l1": ["er"]}, steps=1, then="query", plain=True)))
    for then in ("query", "continue"):
        for b in (("continue",), ("fit",)) + ((("fit", "continue"), ("continue", "fit")) if big else ()):
            out.append(dict(name=f"restore_{'_'.join(b)}_{then}", func=restore, params=dict(kinds=("norm", "fixed"), llhs={"l1": ["er"]}, steps=1, then=then, before=b), opts=dict(max_paths=3000)))
    out.append(dict(name="renamed", func=renamed))
    return out
