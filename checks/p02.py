"""P02: templates are normalised to the rate parameter."""
from checks import comp as M

BOUNDS = "1 or 2 axes with 2..3 bins (irregular and mesh), symbolic edges or (cheaper instances) fixed ones; 1..3 events anywhere with any weight in [0, 1]; any rate in [-1000, 1000]; any batch size up to 10^6; both normalisations, with and without the floor, simulated and fixed components, bootstrapped energies"
ASSUMPTIONS = ["the simulation returns arbitrary columns (its construction is P14)", "a template normalised on itself has positive content"]
FUNCTIONS = ["component.Component.implement_binning", "component.Component.get_normalization", "component.ComponentSim.simulate_hist", "component.ComponentFixed.simulate_hist", "component.ComponentFixed.deduce"]


def judge(h, out, cells, norm, rate, denom, label="template"):
    got = list(h.S(out).ravel())
    h.check(len(got) == len(cells), label + ": one value per bin")
    if norm == "on_pdf":
        tot = h.sum(cells)
        h.close(h.sum(got), rate, label + ": content equals the rate")
        for g, c in zip(got, cells):
            h.close(g * tot, h.Sc(c) * rate, label + ": proportional to the weighted counts")
    else:
        for g, c in zip(got, cells):
            h.close(g * denom, h.Sc(c) * rate, label + ": rate per simulated event")


def simulated(h, case, n, norm, floor, symbolic, registry="none", noeff=False):
    import appletree as apt
    from appletree.share import _cached_functions

    kind, bins = M.bins_of(h, case, symbolic)
    nd = len(bins)
    rows = [[h.real(f"v{i}_{d}", lo=-200, hi=200) for d in range(nd)] for i in range(n)]
    w = h.reals("w", n, lo=0, hi=1)
    calls = []
    cols = [[r[d] for r in rows] for d in range(nd)] + ([] if noeff else [w])
    cls = M.sim_class(h, calls, lambda name, i: cols, norm_type=norm, add_eps_to_hist=floor, force_no_eff=noeff)
    c = cls(name="er", llh_name="l", bins=M.arrays(h, bins), bins_type=kind)
    c.rate_name = "er_rate"
    batch = h.int_("batch", 1, 10**6)
    denom = batch
    if registry == "plain":
        c._plugin_class_registry["energy"] = type("FixedEnergy", (), {})
    elif registry == "boot":
        c._plugin_class_registry["energy"] = type("BootstrapEnergy", (), {})
        sel = h.int_("selected", 1, 10**6)
        g4 = type("G", (), {"n_events_selected": sel})()
        # where the functions and instances of the component are kept
        c._namespace = _cached_functions["l"] = {"BootstrapEnergy_er": type("P", (), {"g4": g4})()}
        denom = sel
    rate = h.real("rate", lo=-1000, hi=1000)
    key = h.key("key")
    if noeff:
        w = [1.0] * n
    cells = M.template(h, kind, bins, rows, w, floor)
    if norm == "on_pdf":
        h.assume(h.sum(cells) > 1e-3)
    pars = {"er_rate": rate, "other": 5.0}
    k2, out = c.simulate_hist(key, batch, pars)
    judge(h, out, cells, norm, h.Sc(rate), h.Sc(denom))
    h.check(len(calls) == 1, "one simulation")
    h.check(h.same(calls[0]["batch"], batch), "of the requested size")


def bootstrap(h, later, floor):
    """The number of selected events is that of the component's own input, whatever is built later."""
    import warnings

    import numpy as np
    import appletree as apt
    import appletree.plugins as P

    sel = {}

    class G4(apt.Config):
        def build(self, llh_name=None):
            self.llh_name = llh_name
            self.value = self._resolve_cached_config(llh_name)
            self.n_events_selected = sel[self.value[0]]

        lineage = property(lambda self: {"value": self.value})

    n = 2
    rows = [[h.real(f"v{i}", lo=-200, hi=200)] for i in range(n)]
    w = h.reals("w", n, lo=0, hi=1)
    xs, ws = h.array([r[0] for r in rows]), h.array(w)

    def plugin(name, provides, depends, values, conf=None):
        ns = {"values": values}
        exec(f"def simulate(self, key, parameters, {depends}):\n    return key, values\n", ns)
        cls = type(name, (apt.Plugin,), {"depends_on": [depends], "provides": [provides], "parameters": (), "simulate": ns["simulate"]})
        if conf is not None:
            cls = apt.takes_config(conf)(cls)
        h.patch(P, name, cls)
        return cls

    chain = [
        plugin("BootstrapEnergy", "energy", "batch_size", xs, G4(name="g4", default=["none.csv", 1, 1])),
        plugin("Qa", "cs1", "energy", xs),
        plugin("Qe", "eff", "cs1", ws),
    ]
    bins = ([-10.0, 0.5, 20.0],)
    cls = type("Sim", (apt.ComponentSim,), dict(norm_type="on_sim", add_eps_to_hist=floor))

    def build(llh, file):
        sel[file] = h.int_("selected_" + file[0], 1, 10**6)
        apt.set_global_config({"g4": [file, 10, 1]})
        c = cls(name="er", llh_name=llh, bins=(np.array(bins[0]),), bins_type="irreg")
        c.rate_name = "er_rate"
        c.register(chain)
        c.deduce(data_names=["cs1"], func_name="er_simulation")
        c.compile()
        return c, sel[file]

    made = [build("l", "a.csv")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if later == "rebuilt":
            apt.clear_cache()
            made.append(build("l", "b.csv"))
        elif later == "other":
            made.append(build("m", "b.csv"))
    rate = h.real("rate", lo=-1000, hi=1000)
    cells = M.template(h, "irreg", bins, rows, w, floor)
    for i, (c, s) in enumerate(made if h.flag("in_order") else made[::-1]):
        k, out = c.simulate_hist(h.key(f"key{i}"), 3, {"er_rate": rate})
        judge(h, out, cells, "on_sim", h.Sc(rate), h.Sc(s), "bootstrapped template")


def fixed(h, case, n, norm, floor, symbolic):
    import appletree as apt

    kind, bins = M.bins_of(h, case, symbolic)
    nd = len(bins)
    names = ["cs1", "cs2"][:nd]
    rows = [[h.real(f"v{i}_{d}", lo=-200, hi=200) for d in range(nd)] for i in range(n)]
    order = h.perm("order", range(nd))
    cols = {"junk": [7.0] * n}
    for d in order:
        cols[names[d]] = [r[d] for r in rows]
    paths = M.install(h, {"ac.csv": cols})
    cls = type("Fixed", (apt.ComponentFixed,), dict(norm_type=norm, add_eps_to_hist=floor))
    c = cls(name="ac", llh_name="l", bins=M.arrays(h, bins), bins_type=kind, file_name=paths["ac.csv"])
    c.rate_name = "ac_rate"
    c.deduce(data_names=names)
    c.compile()
    rate = h.real("rate", lo=-1000, hi=1000)
    cells = M.template(h, kind, bins, rows, [1.0] * n, floor)
    if norm == "on_pdf":
        h.assume(h.sum(cells) > 1e-3)
    h.check(c.needed_parameters == {"ac_rate"}, "needs its rate")
    for _ in range(2):
        out = c.simulate_hist({"ac_rate": rate, "er_rate": 3.0})
        judge(h, out, cells, norm, h.Sc(rate), n)


def refused(h, kind):
    """Unknown normalisations and binnings are refused."""
    import appletree as apt
    import numpy as np

    cls = M.sim_class(h, [], lambda name, i: [[0.5], [1.0]], norm_type="on_pdf" if kind != "norm" else h.pick("norm", ["", "on_data", "pdf"]))
    bins = (np.array([0.0, 1.0]),)
    if kind == "type":
        h.refuse(lambda: cls(name="er", llh_name="l", bins=bins, bins_type=h.pick("t", ["regular", "equiprob", "IRREG"])), "unknown binning refused", ValueError)
        return
    c = cls(name="er", llh_name="l", bins=bins, bins_type="irreg")
    c.rate_name = "er_rate"
    if kind == "axes":
        c.bins = (bins[0], np.array([[0.0, 1.0]]))
        h.refuse(lambda: c.simulate_hist(h.key("k"), 1, {"er_rate": 1.0}), "number of observables and axes must agree")
        return
    h.refuse(lambda: c.simulate_hist(h.key("k"), 1, {"er_rate": 1.0}), "unknown normalisation refused", ValueError)


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for norm in ("on_pdf", "on_sim"):
        for floor in (True, False):
            t = f"{norm}_{'floor' if floor else 'plain'}"
            for case, n, s in [("irreg1", 2, True), ("irreg2", 2, False), ("mesh1", 2, True), ("mesh2", 2, False)]:
                add(simulated, f"sim_{case}_{n}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=s)
                add(fixed, f"fix_{case}_{n}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=s)
            if norm == "on_sim":
                for later in (None, "rebuilt", "other"):
                    add(bootstrap, f"boot_{later}_{floor}", later=later, floor=floor)
            if big:
                for case, n in [("irreg1", 3), ("irreg2", 2), ("mesh1", 3), ("mesh2", 2)]:
                    add(simulated, f"simS_{case}_{n}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=True)
                    add(fixed, f"fixS_{case}_{n}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=True)
                for case, n in [("irreg2", 3), ("mesh2", 3)]:
                    add(simulated, f"sim_{case}_{n}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=False)
            add(simulated, f"noeff_{t}", case="irreg1", n=2, norm=norm, floor=floor, symbolic=False, noeff=True)
        for r in ("plain", "boot"):
            add(simulated, f"{r}_{norm}", case="irreg1", n=1, norm=norm, floor=True, symbolic=True, registry=r)
    for k in ("norm", "type", "axes"):
        add(refused, "refused_" + k, kind=k)
    return out
