"""P38: profiles time exactly the plugins in use."""
import types

BOUNDS = "0..3 warm-up and 1..7 timed runs with arbitrary durations of calling and of waiting for results; plugins of 1..3 inputs and outputs; components of up to 4 plugins in chains with two-output plugins whose outputs may be overridden, configured per likelihood before or after the component was built; contexts of 1..2 likelihoods with up to 2 components, with aliases"
ASSUMPTIONS = ["time passes only in the calls and while waiting for their results (the clock is a stand-in)", "what is printed is not decided"]
FUNCTIONS = ["profiler.profile_plugin", "profiler.profile_component", "profiler.profile_context", "profiler.profile_full_simulation", "likelihood.Likelihood.replace_alias"]


class Clock:
    """Time advances by arbitrary amounts in calls and in waiting."""

    def __init__(self, h):
        import time

        self.h, self.now, self.n, self.spent = h, h.real("start", lo=0, hi=1e6), 0, []
        h.patch(time, "perf_counter", lambda: self.now)

    def tick(self, what):
        d = self.h.real(f"{what}{self.n}", lo=0, hi=100)
        self.n += 1
        self.now = self.now + d
        self.spent.append(d)
        return d


class Out:
    """A result that may still be computing."""

    def __init__(self, clock, tag):
        self.clock, self.tag, self.ready = clock, tag, False

    def block_until_ready(self):
        if not self.ready:
            self.ready = True
            self.clock.tick("wait")
        return self


def statistics(h, label, got_mean, got_std, times):
    """Mean and standard deviation in milliseconds."""
    t = [h.sum([h.Sc(x) for x in ts]) * 1000 for ts in times]
    m = h.sum(t) / len(t)
    h.close(h.Sc(got_mean), m, label + "mean time")
    h.check(h.Sc(got_std) >= 0, label + "spread")
    v = h.sum([(x - m) * (x - m) for x in t]) / len(t)
    h.check_margin(h.same(h.Sc(got_std) * h.Sc(got_std), v), label + "spread", lambda: h.abs(h.Sc(got_std) * h.Sc(got_std) - v) <= 1e-3 * (1 + v))


def single(h, n_in, n_out, warm, runs):
    from appletree import profiler

    clock = Clock(h)
    calls = []

    class P:
        depends_on = [f"i{k}" for k in range(n_in)]
        provides = [f"o{k}" for k in range(n_out)]

        def simulate(self, key, parameters, *args):
            n = len(calls)
            at = clock.n
            clock.tick("call")
            outs = [Out(clock, (n, p)) for p in self.provides]
            calls.append((key, parameters, args, at, outs))
            return (f"key{n}", *outs)

    pars = {"p": h.real("p", lo=-1, hi=1)}
    data = {d: object() for d in h.perm("data", ["i2", "i1", "i0", "other"][-(n_in + 1) :])}
    kept = dict(data)
    key, out, mean, std = profiler.profile_plugin(P(), "first", pars, data, n_warmup=warm, n_runs=runs)
    h.check(len(calls) == warm + runs, "as many runs as asked for")
    for n, (k, p, a, at, outs) in enumerate(calls):
        h.check(k == ("first" if n == 0 else f"key{n - 1}"), "every run continues the generator of the one before")
        h.check(p is pars, "the given parameters")
        h.check(len(a) == n_in and all(x is data[f"i{i}"] for i, x in enumerate(a)), "every input in its place")
        h.check(all(o.ready for o in outs), "every run is waited for")
    h.check(key == f"key{warm + runs - 1}", "the generator is handed on")
    h.check(list(out) == P.provides and all(out[o].tag == (warm + runs - 1, o) for o in out), "every output under its name")
    h.check(data == kept, "the inputs are left alone")
    per = 1 + n_out
    statistics(h, "", mean, std, [clock.spent[n * per : (n + 1) * per] for n in range(warm, warm + runs)])


def world(h, clock):
    """Plugins that record how they are run."""
    import appletree as apt
    import appletree.plugins as P

    calls = []

    def plugin(name, provides, depends, conf=None, parameters=()):
        def body(self, key, pars, *args):
            n = len(calls)
            clock.tick("call")
            outs = [Out(clock, (name, p, n)) for p in provides]
            calls.append(dict(name=name, key=key, pars=pars, args=args, outs=outs, conf=getattr(self, conf.name).value if conf else None, llh=self.llh_name))
            return (n, *outs)

        ns = {"body": body}
        exec(f"def simulate(self, key, parameters, {', '.join(depends)}):\n    return body(self, key, parameters, {', '.join(depends)})\n", ns)
        cls = type(name, (apt.Plugin,), {"depends_on": list(depends), "provides": list(provides), "parameters": tuple(parameters), "simulate": ns["simulate"]})
        if conf is not None:
            cls = apt.takes_config(conf)(cls)
        h.patch(P, name, cls)
        return cls

    return plugin, calls


def ran(h, label, comp, results, calls, spec, value, pars, warm, runs, batch, owner):
    """One component's profile against what ran."""
    work = [w[0] for w in comp.worksheet]
    h.check([r["plugin"] for r in results] == work, label + "the plugins in the order of execution")
    h.check([c["name"] for c in calls] == [n for n in work for _ in range(warm + runs)], label + "every plugin as often as asked for, in order")
    if [c["name"] for c in calls] != [n for n in work for _ in range(warm + runs)]:
        return
    last = {}
    for i, n in enumerate(work):
        mine = calls[i * (warm + runs) : (i + 1) * (warm + runs)]
        provides, depends = spec[n]
        h.check(list(results[i]["provides"]) == provides and list(results[i]["depends_on"]) == depends, label + "described as they are")
        for c in mine:
            h.check(c["llh"] == comp.llh_name, label + "of the component's likelihood")
            h.check(set(c["pars"]) == set(pars) and all(c["pars"][k] is pars[k] for k in pars), label + "with the parameters of the likelihood")
            for d, a in zip(depends, c["args"]):
                if d == "batch_size":
                    h.check(a == batch, label + "batch size")
                else:
                    h.check(a is last[d], label + "fed with the outputs in use")
            if c["conf"] is not None:
                h.check(h.same(c["conf"], value), label + "with the values of the simulation")
        for o, p in zip(mine[-1]["outs"], provides):
            if owner[p] == n:
                last[p] = o


SPEC = {
    "Qa": (["x", "y"], ["batch_size"]),
    "Qb": (["z"], ["y", "x"]),
    "Qx": (["x"], ["batch_size"]),
    "Qy": (["y"], ["x"]),
    "Qe": (["eff"], ["z"]),
}


def build(h, plugin, chain, llh, name):
    import appletree as apt

    comp = apt.ComponentSim(name=name, llh_name=llh)
    comp.register(chain)
    comp.deduce(data_names=["x", "z"], func_name="simulate_" + name)
    comp.compile()
    return comp


def component(h, override, when, warm, runs):
    import appletree as apt
    from appletree import profiler

    clock = Clock(h)
    plugin, calls = world(h, clock)
    default, other = h.real("default", lo=-5, hi=5), h.real("other", lo=-5, hi=5)
    conf = apt.Constant(name="conf", default=default)
    value = default
    names = ["Qa", "Qb", "Qe"]
    if override == "first":
        names.insert(1, "Qx")
    elif override == "second":
        names.insert(1, "Qy")
    chain = [plugin(n, *SPEC[n], conf=conf if n == "Qb" else None) for n in names]
    if when == "before":
        apt.set_global_config({"conf": {"lk": other, "else": 0.25}})
        value = other
    comp = build(h, plugin, chain, "lk", "er")
    owner = {p: n for n in names for p in SPEC[n][0]}
    if when == "after":
        # not in the component until it is deduced and compiled again
        apt.set_global_config({"conf": {"lk": other, "else": 0.25}})
    if when == "other":
        # another likelihood is built later
        apt.share._cached_configs["conf"] = {"l2": other, "lk": default}
        build(h, plugin, chain, "l2", "nr")
    pars = {"p": 1.0}
    res = profiler.profile_component(comp, pars, batch_size=7, n_warmup=warm, n_runs=runs, verbose=False)
    ran(h, "", comp, res, calls, SPEC, value, pars, warm, runs, 7, owner)
    if len(res) != len(comp.worksheet):
        return
    at = 0
    for r in res:
        per = 1 + len(r["provides"])
        rows = []
        for n in range(warm + runs):
            rows.append(clock.spent[at : at + per])
            at += per
        statistics(h, "", r["mean_time_ms"], r["std_time_ms"], rows[warm:])


def contexts(h, which, nllh, given):
    """Every simulated component of every likelihood, with the parameters under their own names."""
    import appletree as apt
    from appletree import profiler

    clock = Clock(h)
    plugin, calls = world(h, clock)
    chain = [plugin(n, *SPEC[n]) for n in ("Qa", "Qb", "Qe")]
    owner = {p: n for n in ("Qa", "Qb", "Qe") for p in SPEC[n][0]}
    context = types.SimpleNamespace(likelihoods={})
    shared = {"g1": h.real("g1", lo=-1, hi=1), "g1_second": h.real("g1_second", lo=-1, hi=1)}
    sampled = []

    class Manager:
        def sample_init(self):
            sampled.append(1)

        def get_all_parameter(self):
            h.check(len(sampled) == 1, "parameters are sampled once")
            return dict(shared)

    context.par_manager = Manager()
    expect, sims = [], []
    for i in range(nllh):
        ln = "l" + "ab"[i]
        alias = h.flag("alias_" + ln)
        lk = object.__new__(apt.Likelihood)
        lk.__dict__.update(_parameter_alias={"g1_second": "g1"} if alias else {}, components={})
        want = {"g1": shared["g1_second"] if alias else shared["g1"]}
        for cn in ("c1", "c2")[: h.pick("n_" + ln, [1, 2])]:
            if h.flag(f"fixed_{ln}_{cn}"):
                lk.components[cn] = object.__new__(apt.ComponentFixed)
                continue
            comp = build(h, plugin, chain, ln, cn)
            if which == "full":

                def simulate(key, batch, pars, _i=f"{ln}/{cn}"):
                    n = len(sims)
                    clock.tick("call")
                    sims.append((_i, key, batch, pars))
                    return n, [Out(clock, n), Out(clock, n)]

                comp.simulate = simulate
            lk.components[cn] = comp
            expect.append((f"{ln}/{cn}", comp, want))
        context.likelihoods[ln] = lk
    pars = dict(shared) if given else None
    f = profiler.profile_context if which == "plugins" else profiler.profile_full_simulation
    got = f(context, batch_size=7, n_warmup=1, n_runs=2, parameters=pars, verbose=False)
    h.check(list(got) == [e[0] for e in expect], "every simulated component, no other")
    h.check(len(sampled) == (0 if given else 1), "parameters are sampled only when none are given")
    if given:
        h.check(pars == shared or set(pars) == set(shared), "the given parameters are left alone")
    if list(got) != [e[0] for e in expect]:
        return
    if which == "plugins":
        k = 0
        for name, comp, want in expect:
            n = 3 * len(comp.worksheet)
            mine = calls[k : k + n]
            k += n
            for c in mine:
                h.check(c["llh"] == comp.llh_name, "of the component's likelihood")
                h.check(h.same(c["pars"]["g1"], want["g1"]), "parameters under the names of the likelihood")
            h.check([r["plugin"] for r in got[name]] == [w[0] for w in comp.worksheet], "the plugins in the order of execution")
        h.check(k == len(calls), "nothing else is run")
        return
    h.check(len(sims) == 3 * len(expect), "as many runs as asked for")
    for k, (name, comp, want) in enumerate(expect):
        mine = sims[3 * k : 3 * k + 3]
        for c in mine:
            h.check(c[0] == name and c[2] == 7, "every component with the batch size")
            h.check(h.same(c[3]["g1"], want["g1"]), "parameters under the names of the likelihood")
        rows = [clock.spent[9 * k + 3 * i : 9 * k + 3 * i + 3] for i in range(3)]
        statistics(h, "", got[name]["mean_time_ms"], got[name]["std_time_ms"], rows[1:])


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(name, func, **params):
        out.append(dict(name=name, func=func, params=params, opts=dict(max_paths=20000)))

    for a, b, w, r in ((1, 1, 1, 1), (2, 1, 2, 3), (1, 2, 1, 2), (3, 3, 1, 1), (2, 2, 2, 2), (1, 1, 0, 4), (1, 1, 1, 6)) + (((3, 2, 3, 4), (1, 1, 1, 4), (2, 2, 1, 7)) if big else ()):
        add(f"single_{a}_{b}_{w}_{r}", single, n_in=a, n_out=b, warm=w, runs=r)
    for o in (None, "first", "second"):
        for when in (None, "before", "after", "other"):
            add(f"component_{o}_{when}", component, override=o, when=when, warm=1, runs=2 if when is None else 1)
            if big:
                add(f"component_{o}_{when}_long", component, override=o, when=when, warm=2, runs=3)
    for which in ("plugins", "full"):
        for n in (1, 2):
            for g in (False, True):
                add(f"context_{which}_{n}_{'given' if g else 'sampled'}", contexts, which=which, nllh=n, given=g)
    return out
