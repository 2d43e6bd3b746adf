"""P04: the binned log likelihood is the Poisson value of the summed template."""
import itertools

from checks import comp as M

BOUNDS = "1 or 2 axes with 1..3 bins, up to 2 data rows, 1..3 simulated and fixed components in any order, every template bin any number, NaN or infinite"
ASSUMPTIONS = ["the components' templates are arbitrary (what they are is P02)"]
FUNCTIONS = ["likelihood.Likelihood.get_log_likelihood", "likelihood.Likelihood._simulate_model_hist", "likelihood.Likelihood.get_num_events_accepted"]


def make(h, kinds, case, special, calls, lo, hi):
    """A likelihood whose components return unknown templates; returns it and the templates."""
    import appletree as apt

    names = [f"c{i}" for i in range(len(kinds))]
    if case == "one":
        rows = {"cs1": [0.5, 2.25]}
        cfg = dict(bins_type="irreg", bins_on="cs1", bins=[[0.0, 1.0, 2.5, 4.0]], clip=[0.0, 4.0])
        shape, data = (3,), [1.0, 1.0, 0.0]
    elif case == "two":
        rows = {"cs1": [0.5, 2.0], "cs2": [0.5, 1.5]}
        cfg = dict(bins_type="meshgrid", bins_on=["cs1", "cs2"], bins=[2, 2], x_clip=[0.0, 4.0], y_clip=[0.0, 2.0])
        shape, data = (2, 2), [1.0, 0.0, 0.0, 1.0]
    else:
        rows = {"cs1": [0.5, 0.75]}
        cfg = dict(bins_type="irreg", bins_on="cs1", bins=[1], clip=[0.0, 4.0])
        cfg = dict(bins_type="irreg", bins_on="cs1", bins=[[0.0, 4.0]], clip=[0.0, 4.0])
        shape, data = (1,), [2.0]
    m = len(data)
    templ = {}

    def template(name):
        if name not in templ:
            v = [h.real(f"t_{name}_{i}", lo=lo, hi=hi, special=special) for i in range(m)]
            templ[name] = v
        v = templ[name]
        return h.array([v[i * shape[1] : (i + 1) * shape[1]] for i in range(shape[0])] if len(shape) > 1 else v)

    paths = M.install(h, {"data.csv": rows, "f.csv": {k: [1.0] for k in rows}})

    class Sim(apt.ComponentSim):
        def deduce(self, **k):
            self.needed_parameters = {self.rate_name}

        def compile(self):
            pass

        def simulate_hist(self, key, batch_size, parameters):
            out = h.key(f"k{len(calls)}")
            calls.append((self.name, key, batch_size, dict(parameters), out))
            return out, template(self.name)

    class Fixed(apt.ComponentFixed):
        def deduce(self, **k):
            self.needed_parameters = {self.rate_name}

        def simulate_hist(self, parameters, *a, **k):
            calls.append((self.name, None, None, dict(parameters), None))
            return template(self.name)

    lk = apt.Likelihood("l", data_file_name=paths["data.csv"], **cfg)
    order = h.perm("order", names)
    for n in order:
        if kinds[names.index(n)] == "sim":
            lk.register_component(Sim, n)
        else:
            lk.register_component(Fixed, n, paths["f.csv"])
    for n in names:
        template(n)
    return lk, templ, data, order


def evaluate(h, kinds, case, special, what, lo=-100, hi=100):
    calls = []
    lk, templ, data, order = make(h, kinds, case, special, calls, lo, hi)
    pars = {f"c{i}_rate": h.real(f"r{i}", lo=0, hi=100) for i in range(len(kinds))}
    pars["w"] = h.real("w", lo=-10, hi=10)
    model = [h.sum(templ[n][i] for n in templ) for i in range(len(data))]
    batch = h.int_("batch", 1, 10**6)
    bad = [h.any(h.not_(x.finite), x <= 0) for x in model]
    if what == "accepted":
        got = lk.get_num_events_accepted(batch, pars)
        fin = h.all(*[x.finite for x in model])
        h.assume(fin)
        h.close(got, h.sum(model), "accepted events: total of the summed template")
    else:
        key = h.key("k")
        back, got = lk.get_log_likelihood(key, batch, pars)
        got = h.Sc(got)
        h.check(h.not_(got.isnan), "never NaN")
        isbad = h.any(*bad)
        h.check(h.implies(isbad, got == -float("inf")), "minus infinity when a model bin is zero, negative, NaN or infinite")
        safe = [h.ite(isbad, 1, x) for x in model]
        want = h.sum(d * h.log(x) - x for d, x in zip(data, safe))
        h.close(h.ite(isbad, want, got), want, "Poisson log likelihood")
        keys = [k for n, k, *_ in calls if k is not None]
        outs = [c[-1] for c in calls if c[-1] is not None]
        want_in = [key] + outs
        for a, b in zip(keys, want_in):
            h.check(a is b, "each component continues with the key of the one before")
        h.check(back is want_in[len(keys)], "the last key is handed back")
    h.check(sorted(c[0] for c in calls) == sorted(templ), "each component once")
    for c in calls:
        if c[2] is not None:
            h.check(h.same(c[2], batch), "the requested number of simulated events")
        h.check(set(c[3]) == set(pars), "the given parameters")
        for k in pars:
            if k in c[3]:
                h.check(h.same(c[3][k], pars[k]), "the given parameters")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(nm, **p):
        out.append(dict(name=nm, func=evaluate, params=p))

    for what in ("llh", "accepted"):
        for kinds in [("sim",), ("sim", "fix"), ("sim", "sim", "fix")] + ([("fix",), ("fix", "fix", "sim"), ("sim", "sim", "sim")] if big else []):
            for case in ("none", "one", "two"):
                if len(kinds) == 3 and case == "two" and not big:
                    continue
                for sp in (True, False):
                    add(f"{what}_{'_'.join(kinds)}_{case}{'_special' if sp else ''}", kinds=kinds, case=case, special=sp, what=what)
                    if what == "llh" and not sp:
                        add(f"{what}_{'_'.join(kinds)}_{case}_pos", kinds=kinds, case=case, special=sp, what=what, lo=1e-6, hi=1e6)
    return out
