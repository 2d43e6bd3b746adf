"""P16: repeated simulation concatenates batches and thins consistently."""
from checks import comp as M
from checks import p14

BOUNDS = "1..3 repetitions, 1..3 events per batch, 1..3 observables, any values, any efficiency (also infinite or not a number), with and without recompilation, simulations with and without efficiency, components rebuilt with the other setting"
ASSUMPTIONS = ["the simulation returns arbitrary columns (its construction is P14)"]
FUNCTIONS = ["component.Component.multiple_simulations", "component.Component.multiple_simulations_compile", "component.ComponentSim.deduce"]


def expected(h, batches, thin):
    """Columns: concatenation of the batches, without the events whose efficiency is not positive if thin."""
    out = [[] for _ in batches[0]]
    for b in batches:
        for e in range(len(b[0])):
            if thin and not h.path(h.Sc(b[-1][e]) > 0):
                continue
            for o, c in zip(out, b):
                o.append(c[e])
    return out


def judge(h, got, want, label):
    h.check(len(got) == len(want), label + ": number of observables")
    for g, w in zip(got, want):
        v = list(h.S(g).ravel())
        h.check(len(v) == len(w), label + ": number of events")
        for x, y in zip(v, w):
            h.check(h.same(x, y), label + ": event values in order")


def stub(h, nobs, n, times, special, noeff):
    k = nobs + (0 if noeff else 1)
    return [[[h.real(f"v{t}_{o}_{e}", lo=-100, hi=100, special=special and o == k - 1) for e in range(n)] for o in range(k)] for t in range(times)]


def check_calls(h, calls, key, key2, n, pars, times):
    h.check(len(calls) == times, "one simulation per repetition")
    prev = key
    for c in calls:
        h.check(h.same_key(c["key"], prev), "successive keys")
        h.check(c["batch"] == n, "the batch size is the requested one")
        h.check(set(c["parameters"]) == set(pars) and all(h.path(h.same(c["parameters"][k], v)) for k, v in pars.items()), "the given parameters")
        prev = c["out"]
    h.check(h.same_key(key2, prev), "the returned key is the last one")


def repeat(h, nobs, n, times, recompile, special, g4=None):
    from appletree.share import _cached_configs

    batches = stub(h, nobs, n, times, special, False)
    calls = []
    cls = M.sim_class(h, calls, lambda name, i: batches[i])
    c = cls(name="er", llh_name="l")
    if g4:
        c._plugin_class_registry["energy"] = type("EnergyBootstrap", (), {})
        _cached_configs["g4"] = {"dict": {"l": ["f.csv", 3, 1], "m": ["g.csv", 4, 2]}, "list": ["f.csv", 3, 1]}[g4]
    key = h.key()
    pars = {"x": h.real("x", lo=-5, hi=5)}
    thin = h.flag("apply_eff")
    f = c.multiple_simulations_compile if recompile else c.multiple_simulations
    kw = {"apply_eff": True} if thin else {}
    key2, got = f(key, n, pars, times, **kw)
    check_calls(h, calls, key, key2, n, pars, times)
    judge(h, got, expected(h, batches, thin), "repeated")
    if g4 == "dict":
        h.check(isinstance(_cached_configs["g4"], dict) and _cached_configs["g4"].get("m") == ["g.csv", 4, 2], "inputs of another likelihood")
    if g4:
        v = _cached_configs["g4"]
        v = v["l"] if g4 == "dict" else v
        h.check(v[0] == "f.csv" and v[1] == n, "its own inputs, batch size of the request")


def without(h, nobs, n, times, recompile):
    batches = stub(h, nobs, n, times, False, True)
    calls = []
    cls = M.sim_class(h, calls, lambda name, i: batches[i], force_no_eff=True)
    c = cls(name="er", llh_name="l")
    f = c.multiple_simulations_compile if recompile else c.multiple_simulations
    key = h.key()
    if h.flag("apply_eff"):
        h.refuse(lambda: f(key, n, {}, times, True), "no efficiency to apply")
        return
    key2, got = f(key, n, {}, times)
    check_calls(h, calls, key, key2, n, {}, times)
    judge(h, got, expected(h, batches, False), "repeated")


def zero(h):
    batches = stub(h, 2, 2, 1, False, False)
    calls = []
    cls = M.sim_class(h, calls, lambda name, i: batches[0])
    c = cls(name="er", llh_name="l")
    t = h.int_("times", -3, 0)
    thin = h.flag("apply_eff")
    for k in range(-3, 1):
        if h.path(h.Sc(t) == k):
            t = k
            break
    if h.flag("before"):
        c.multiple_simulations(h.key("k0"), 2, {}, 1)
    h.refuse(lambda: c.multiple_simulations(h.key(), 2, {}, t, thin), "no repetition")


def rebuilt(h, recompile):
    """Built with and without efficiency in any order: what counts is the last time."""
    import appletree.share as share

    w = p14.World(h)
    cl = [w.plugin("A", ["a"], ["batch_size"]), w.plugin("TheEff", ["eff"], ["a"])]
    c = p14.component(h)
    c.register(cl)
    own = p14.owners(cl)
    history = [h.flag(f"noeff{i}") for i in range(h.pick("builds", [1, 2, 3]))]
    for x in history:
        share._cached_functions.clear()
        c.deduce(data_names=["a"], **({"force_no_eff": True} if x else {}))
        c.compile()
    thin = h.flag("apply_eff")
    times = h.pick("times", [1, 2])
    f = c.multiple_simulations_compile if recompile else c.multiple_simulations
    if history[-1] and thin:
        h.refuse(lambda: f(h.key(), p14.N, {}, times, True), "no efficiency to apply")
        return
    key2, got = f(h.key(), p14.N, {}, times, thin)
    cols = [w.value(own, "a", {})] + ([] if history[-1] else [w.value(own, "eff", {})])
    out = expected(h, [cols] * times, thin)
    h.check(len(got) == len(out), "number of observables")
    for g, o in zip(got, out):
        v = list(h.S(g).ravel())
        h.check(len(v) == len(o), "number of events")
        for x, y in zip(v, o):
            h.close(x, y, "event values in order")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts={}))

    for rc in (False, True):
        s = "_compile" if rc else ""
        for nobs, n, t in [(1, 2, 1), (1, 1, 3), (2, 2, 2), (1, 3, 2)] + ([(3, 2, 2), (2, 2, 3), (2, 3, 2), (1, 4, 2)] if big else []):
            add(repeat, f"repeat_{nobs}_{n}_{t}{s}", nobs=nobs, n=n, times=t, recompile=rc, special=False)
        add(repeat, f"special{s}", nobs=1, n=2, times=2, recompile=rc, special=True)
        add(without, f"without{s}", nobs=2, n=2, times=2, recompile=rc)
        add(rebuilt, f"rebuilt{s}", recompile=rc)
    for g in ("dict", "list"):
        add(repeat, f"g4_{g}", nobs=1, n=2, times=2, recompile=True, special=False, g4=g)
    add(zero, "zero")
    return out
