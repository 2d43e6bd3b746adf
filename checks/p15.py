"""P15: no draw shares its generator state with another draw or with a key handed on."""
import types

from checks import comp as M
from checks import ctx as X

BOUNDS = "every sampler on scalars and vectors of 2; every shipped plugin and every shipped component's full simulation at 1..2 events (maps answer a constant, parameters at fixed values in the full simulations), generalised Poisson up to 3 generations; likelihoods with 1..3 components, contexts with 1..3 likelihoods and 1..3 repetitions, 1..3 repeated simulations; all initial keys"
ASSUMPTIONS = [
    "split/fold_in/PRNGKey produce distinct states for distinct arguments (the generator itself is not analysed)",
    "the clock advances by at least 3 microseconds between two readings",
]
FUNCTIONS = ["randgen (every sampler)", "every Plugin.simulate of appletree.plugins", "generated simulation code of every shipped component", "component.Component.multiple_simulations", "likelihood.Likelihood._simulate_model_hist", "likelihood.Likelihood.simulate_weighted_data", "likelihood.LikelihoodLit.get_log_likelihood", "context.Context.log_posterior", "context.Context.get_template"]

SAMPLERS = {
    "uniform": [("f", -10, 10), ("f", -10, 10)],
    "poisson": [("f", 0, 10)],
    "gamma": [("f", 0.125, 10), ("f", 0.125, 10)],
    "normal": [("f", -10, 10), ("f", 0, 10)],
    "truncate_normal": [("f", -10, 10), ("f", 0, 10), ("f", -5, 0), ("f", 1, 5)],
    "skewnormal": [("f", -10, 10), ("f", -10, 10), ("f", 0, 10)],
    "bernoulli": [("f", 0, 1)],
    "binomial": [("f", 0, 1), ("i", 0, 10)],
    "binomial_hybrid": [("f", 0, 1), ("i", 0, 10)],
    "negative_binomial": [("f", 0.125, 0.875), ("f", 0.125, 10)],
    "generalized_poisson": [("f", 0, 10), ("f", 0, 0.875)],
    "twohalfnorm": [("f", -10, 10), ("f", 0.125, 10), ("f", 0.125, 10)],
}


def sampler(h, name, calls):
    from appletree import randgen as G

    key = h.key()
    vec = h.flag("vector")
    explicit = vec and h.flag("shape_given")
    handed = []
    for c in range(calls):
        args = []
        for j, (k, lo, hi) in enumerate(SAMPLERS[name]):
            n = 2 if vec and not explicit else 1
            if k == "i":
                v = h.ints(f"a{c}_{j}_", n, lo, hi)
            else:
                v = h.reals(f"a{c}_{j}_", n, lo=lo, hi=hi)
            args.append(h.array(v if n > 1 else v[0], "int32" if k == "i" else "float32"))
        kw = {"shape": (2,)} if explicit else {}
        if name == "binomial_hybrid":
            kw["threshold"] = 2
        key, out = getattr(G, name)(key, *args, **kw)
        handed.append(key)
    h.check(len(h.draws) >= calls, "draws something")
    h.fresh_keys("states of one sampler", handed=handed[-1:])


def vectorized(h, n):
    from appletree import randgen as G
    import jax

    keys = jax.random.split(h.key(), n)
    out = G.uniform_key_vectorized(keys)
    h.check(tuple(h.shape(out)) == (n,), "one value per key")
    h.fresh_keys("one draw per key")


def map_stub(h, plugin, value):
    """Maps of a built plugin answer an arbitrary value."""
    from appletree.config import Map, SigmaMap

    def answer(pos, *a):
        import jax.numpy as jnp

        pos = jnp.asarray(pos)
        return jnp.zeros(pos.shape[:1]) + value

    for n in plugin.takes_config:
        c = getattr(plugin, n)
        if isinstance(c, (Map, SigmaMap)):
            h.patch(c, "apply", answer)


INTS = {"num_photon", "num_electron", "num_s1_phd", "num_electron_drifted", "num_ion", "num_quanta", "num_exciton", "num_s1_pe", "num_s2_pe"}


def plugin_cases():
    import inspect

    import appletree.plugins as P
    from appletree.plugin import Plugin

    out = []
    for n in sorted(dir(P)):
        c = getattr(P, n)
        if inspect.isclass(c) and issubclass(c, Plugin) and c is not Plugin and c.__module__.startswith("appletree.plugins"):
            out.append(n)
    return out


def parameters(h, names):
    return {n: h.real("par_" + n, lo=0.125, hi=0.5) for n in sorted(names)}


def need(h, plugin):
    from appletree.config import SigmaMap

    out = set(plugin.parameters)
    for c in plugin.takes_config.values():
        r = c.required_parameter(plugin.llh_name)
        if r:
            out.add(r)
    return out


GROUPS = 14


def plugin(h, group):
    import appletree as apt
    import appletree.plugins as P

    name = h.pick("plugin", plugin_cases()[group::GROUPS])
    p = getattr(P, name)("llh")
    map_stub(h, p, 0.5)
    pars = parameters(h, need(h, p))
    key = h.key()
    cols = []
    n = 2
    if list(p.depends_on) == ["batch_size"]:
        cols = [n]
    else:
        for d in p.depends_on:
            if d in INTS:
                cols.append(h.array(h.ints("in_" + d, n, 0, 20), "int32"))
            else:
                cols.append(h.array(h.reals("in_" + d, n, lo=0.125, hi=0.75)))
    r = p(key, pars, *cols)
    h.check(len(r) == 1 + len(p.provides), "outputs")
    h.fresh_keys("states of one plugin", handed=[r[0]])
    # the key handed on serves the next simulation
    mid = len(h.draws)
    r = p(r[0], pars, *cols)
    h.check(len(h.draws) == 2 * mid, "draws again")
    h.fresh_keys("states of two calls of one plugin", handed=[r[0]])


def full(h, name, n, times):
    """The compiled simulation of a shipped component."""
    import appletree as apt
    import appletree.components as C
    from appletree.share import _cached_functions

    comp = getattr(C, name)(name="c", llh_name="llh")
    if name == "MonoEnergiesYields":
        comp.deduce(data_names=["energy", h.pick("quantity", ["light_yield", "charge_yield"])], nodep_data_name="batch_size")
    elif name == "BandEnergiesYields":
        comp.deduce(data_names=["energy", h.pick("quantity", ["light_yield", "charge_yield"])], nodep_data_name="batch_size")
    else:
        comp.deduce(data_names=["cs1", "cs2"])
    comp.compile()
    for i in comp.instances:
        map_stub(h, _cached_functions["llh"][i], 0.5)
    pars = {n: 0.25 for n in comp.needed_parameters}
    key = h.key()
    if times == 1:
        key, out = comp.simulate(key, n, pars)
    else:
        key, out = comp.multiple_simulations(key, n, pars, times)
    h.check(len(h.draws) >= times, "draws something")
    h.fresh_keys("states of one simulation", handed=[key])


# ------------------------------------------------ compositions
def clock(h):
    """The clock advances by 3 microseconds between two readings."""
    from appletree import randgen as G

    last = [0]

    def now():
        last[0] += 1
        return 1700000000.5 + 3e-6 * last[0]

    if isinstance(getattr(G, "time", None), types.ModuleType):
        h.patch(G, "time", types.SimpleNamespace(time=now, time_ns=lambda: int(now() * 1e9), monotonic=now, perf_counter=now))
    else:
        h.patch(G, "time", now)


def drawing(h, lit=False, base=None):
    """A component class whose simulation draws."""
    import appletree as apt

    calls = []

    class Sim(base or apt.ComponentSim):
        norm_type = "on_pdf"
        add_eps_to_hist = True

        def deduce(self, data_names=None, func_name="simulate", **k):
            self.needed_parameters = {self.rate_name}

        def compile(self):
            pass

        def simulate(self, key, batch_size, parameters):
            from appletree import randgen

            calls.append(self)
            if lit:
                key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
                return key, [u, u, u]
            key, u = randgen.uniform(key, 0.5, 3.5, shape=(batch_size,))
            key, e = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
            return key, [u, e]

    return Sim, calls


def lit_config():
    return dict(bins_on=["energy", "light_yield"], variable_type="norm", logpdf_args=[["loc", "scale"], [[1.0], [1.0]]])


def bin_config(h, files):
    return dict(data_file_name=files["data.csv"], bins_type="irreg", bins_on="cs1", bins=[[0.0, 2.0, 4.0]], clip=[0.0, 4.0])


def llh(h, entry, ncomp, fixed):
    import appletree as apt

    clock(h)
    files = M.install(h, {"data.csv": {"cs1": [1.0, 3.0]}})
    lit = entry == "lit"
    cls, calls = drawing(h, lit)
    lk = apt.LikelihoodLit("l", **lit_config()) if lit else apt.Likelihood("l", **bin_config(h, files))
    pars = {}
    for i in range(ncomp):
        if fixed and i == 1:
            lk.register_component(type("Fix", (apt.ComponentFixed,), {"norm_type": "on_pdf"}), f"c{i}", file_name=files["data.csv"])
        else:
            lk.register_component(cls, f"c{i}")
        pars[f"c{i}_rate"] = h.real(f"rate{i}", lo=0.5, hi=10)
    key = h.key()
    handed = []
    for rep in range(2):
        if entry == "accepted":
            lk.get_num_events_accepted(1, pars)
            continue
        if entry in ("llh", "lit"):
            key, v = lk.get_log_likelihood(key, 1, pars)
        else:
            key, v = lk.simulate_weighted_data(key, 1, pars)
        handed.append(key)
    h.check(len(calls) == 2 * (ncomp - (1 if fixed else 0)), "every component simulated")
    h.fresh_keys("states of the components of a likelihood", handed=handed[-1:])


def posterior(h, nllh, repeat, evaluations):
    import appletree as apt
    import appletree.components as C

    clock(h)
    files = M.install(h, {"data.csv": {"cs1": [1.0, 3.0]}})
    sim, calls = drawing(h)
    simlit, calls2 = drawing(h, lit=True)
    h.patch(C, "DrawSim", sim)
    h.patch(C, "DrawLit", simlit)
    llhs, cfg = {}, {}
    for i in range(nllh):
        lit = i == 1
        d = lit_config() if lit else bin_config(h, files)
        llhs[f"l{i}"] = dict(d, type="LikelihoodLit" if lit else "Likelihood", components={f"c{i}": "DrawLit" if lit else "DrawSim"}, copy_parameters={})
        cfg[f"c{i}_rate"] = {"prior_type": "uniform", "prior_args": {"lower": 0.5, "upper": 10.0}, "allowed_range": [0.5, 10.0], "init_mean": 1.0, "init_std": 1.0}
    ctx = apt.Context({"configs": {}, "likelihoods": llhs}, par_config=cfg)
    for e in range(evaluations):
        theta = {f"c{i}_rate": h.real(f"rate{e}_{i}", lo=1, hi=9) for i in range(nllh)}
        ctx.log_posterior(theta, batch_size=1, **({"repeat_times": repeat} if repeat > 1 else {}))
    h.check(len(calls) + len(calls2) == nllh * repeat * evaluations, "every likelihood simulated")
    h.fresh_keys("states of the likelihoods of a context")


def repeated(h, times, recompile):
    import appletree as apt

    cls, calls = drawing(h)
    c = cls(name="c", llh_name="llh")
    if recompile:
        from appletree.share import _cached_configs

        _cached_configs["g4"] = ["file", 1, 1]
    key = h.key()
    f = c.multiple_simulations_compile if recompile else c.multiple_simulations
    key, out = f(key, 2, {}, times, apply_eff=h.flag("apply_eff"))
    h.check(len(calls) == times, "batches")
    h.fresh_keys("states of the batches", handed=[key])


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, opts=None, **p):
        out.append(dict(name=nm, func=f, params=p, opts=opts or {}))

    for n in SAMPLERS:
        for c in (1, 2):
            if c == 2 and n in ("generalized_poisson", "binomial_hybrid") and not big:
                continue
            add(sampler, f"{n}_{c}", dict(max_unroll=4), name=n, calls=c)
    add(vectorized, "vectorized", n=3)
    for g in range(GROUPS):
        add(plugin, f"plugins_{g}", group=g)
    for n in ("ERBand", "ERPeak", "ERBandNestV2", "ERPeakNestV2", "NR", "MonoEnergiesYields", "BandEnergiesYields"):
        add(full, f"full_{n}", name=n, n=1, times=1)
        if big:
            add(full, f"full_{n}_twice", name=n, n=1, times=2)
            add(full, f"full_{n}_two", name=n, n=2, times=2)
    for e in ("llh", "weighted", "accepted"):
        for n, fx in ((1, False), (2, False), (3, True)) if big else ((2, False), (3, True)):
            add(llh, f"{e}_{n}{'_fixed' if fx else ''}", entry=e, ncomp=n, fixed=fx)
    add(llh, "lit", entry="lit", ncomp=1, fixed=False)
    for n, r, e in [(1, 1, 2), (2, 1, 1), (2, 2, 1)] + ([(3, 1, 2), (3, 2, 1), (1, 3, 2)] if big else []):
        add(posterior, f"posterior_{n}_{r}_{e}", nllh=n, repeat=r, evaluations=e)
    for t in (1, 2, 3):
        for rc in (False, True):
            add(repeated, f"repeat_{t}{'_compile' if rc else ''}", times=t, recompile=rc)
    return out
