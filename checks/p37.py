"""P37: chain plots show the recorded chain."""
import json
import math

from checks.p33 import Rec, by

BOUNDS = "chains of up to 5 recorded iterations, 1..2 walkers and 1..3 fitted parameters, discard 0..2, thin 1..2, every sample and every log posterior and log prior arbitrary, log posteriors also infinite or not a number"
ASSUMPTIONS = ["the chain file returns the recorded samples by emcee's rule (stand-in)", "matplotlib and corner draw what they are given (stand-ins that record)"]
FUNCTIONS = ["plot.Plotter.__init__", "plot.Plotter.plot_burn_in", "plot.Plotter.plot_marginal_posterior", "plot.Plotter.plot_corner", "plot.Plotter.plot_acceptance_fraction", "plot.Plotter._norm_pdf", "plot.Plotter._uniform_pdf", "plot.Plotter._thn_pdf"]

PRIORS = {
    "a": {"prior_type": "norm", "prior_args": {"mean": 1.0, "std": 2.0}},
    "b": {"prior_type": "uniform", "prior_args": {"lower": -200.0, "upper": 300.0}},
    "c": {"prior_type": "twohalfnorm", "prior_args": {"mu": 1.0, "sigma_pos": 0.5, "sigma_neg": 2.0}},
    "d": {"prior_type": "free", "prior_args": {}},
}


class Chain:
    pass


def setup(h, names, steps, walkers, special=False, moving=None):
    """A chain file with arbitrary content."""
    import emcee
    import h5py

    c = Chain()
    c.rows = [[h.reals(f"s{i}_{w}_", len(names), lo=-100, hi=100) for w in range(walkers)] for i in range(steps)]
    if moving:
        for i in range(1, steps):
            for w in range(walkers):
                if not h.flag(f"moved{i}_{w}"):
                    c.rows[i][w] = c.rows[i - 1][w]
                elif len(names) > 1 and moving == "one":
                    c.rows[i][w] = c.rows[i][w][:1] + c.rows[i - 1][w][1:]
    c.logp = [[h.real(f"p{i}_{w}", lo=-1000, hi=1000, special=special) for w in range(walkers)] for i in range(steps)]
    c.prior = [h.reals(f"q{i}_", walkers, lo=-1000, hi=0) for i in range(steps)]
    if moving:
        for i in range(1, steps):
            for w in range(walkers):
                new = c.rows[i][w][0] is not c.rows[i - 1][w][0]
                if new:
                    h.assume(h.abs(h.Sc(c.rows[i][w][0]) - h.Sc(c.rows[i - 1][w][0])) >= 1e-3)

    class Backend:
        def __init__(self, name, read_only=False, **k):
            h.check(name == "chain.h5", "the file asked for")

        def value(self, what, flat, thin, discard):
            v = getattr(c, what)[discard + thin - 1 :: thin]
            return h.np_array([x for s in v for x in s]) if flat else h.np_array(v)

        def get_chain(self, flat=False, thin=1, discard=0):
            return self.value("rows", flat, thin, discard)

        def get_log_prob(self, flat=False, thin=1, discard=0):
            return self.value("logp", flat, thin, discard)

        def get_blobs(self, flat=False, thin=1, discard=0):
            return self.value("prior", flat, thin, discard)

    class Group:
        attrs = {"parameter_fit": list(names), "par_config": json.dumps({n: PRIORS[n] for n in sorted(PRIORS)})}

    class File(dict):
        def __init__(self, name, mode="r"):
            h.check(name == "chain.h5" and mode == "r", "the file is only read")
            dict.__init__(self, mcmc=Group)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        close = __exit__

    h.patch(emcee.backends, "HDFBackend", Backend)
    h.patch(h5py, "File", File)
    return c


def finite(h, p):
    p = h.Sc(p)
    return h.path(p.finite) if hasattr(p, "finite") else h.path(h.all(p > -1e4, p < 1e4))


def kept(h, c, discard, thin):
    """Selected iterations without and samples with a meaningful posterior."""
    idx = list(range(len(c.rows)))[discard + thin - 1 :: thin]
    ok = {i: [finite(h, p) for p in c.logp[i]] for i in idx}
    its = [i for i in idx if all(ok[i])]
    flat = [(i, w) for i in idx for w in range(len(c.logp[i])) if ok[i][w]]
    return its, flat


def content(h, names, steps, walkers, discard, thin, special):
    """What is kept of the chain."""
    import appletree.plot as plot

    c = setup(h, names, steps, walkers, special)
    its, flat = kept(h, c, discard, thin)
    if not its or not flat:
        return
    if discard == 0 and thin == 1 and h.flag("default"):
        p = plot.Plotter("chain.h5")
    else:
        p = plot.Plotter("chain.h5", discard=discard, thin=thin)
    h.eq_list(p.chain, [c.rows[i] for i in its], "iterations whose posteriors are all finite")
    h.eq_list(p.posterior, [c.logp[i] for i in its], "their log posteriors")
    h.eq_list(p.prior, [c.prior[i] for i in its], "their log priors")
    h.eq_list(p.flat_chain, [c.rows[i][w] for i, w in flat], "samples whose posterior is finite")
    h.eq_list(p.flat_posterior, [c.logp[i][w] for i, w in flat], "their log posteriors, flat")
    h.eq_list(p.flat_prior, [c.prior[i][w] for i, w in flat], "their log priors, flat")
    h.check((p.n_iter, p.n_walker, p.n_param) == (len(its), walkers, len(names)), "sizes")
    h.check(set(p.param_mpe) == set(names), "the best sample names the fitted parameters")
    alts = []
    for i, w in flat:
        best = [h.Sc(c.logp[i][w]) >= h.Sc(c.logp[j][v]) for j, v in flat]
        alts.append(h.all(*best, *[h.same(p.param_mpe[n], c.rows[i][w][k]) for k, n in enumerate(names)]))
    h.check(h.any(*alts), "the sample of the largest log posterior")


class Fig:
    """Stand-in figure."""

    def __init__(self, n=0):
        self.panels = [Axes() for _ in range(n)]

    def add_subplot(self, *a, **k):
        x = Axes()
        x.where = a
        self.panels.append(x)
        return x

    def get_axes(self):
        return self.panels

    @property
    def axes(self):
        return self.panels

    def legend(self, *a, **k):
        pass

    def savefig(self, *a, **k):
        pass


class Quiet:
    """Anything done to it is accepted."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Quiet()

    def __call__(self, *a, **k):
        return Quiet()


class Axes(Rec):
    def __init__(self):
        Rec.__init__(self, [])
        self.xaxis = self.yaxis = Quiet()

    def get_xlim(self):
        return (-150.0, 250.0)

    get_xbound = get_xlim

    def get_legend_handles_labels(self):
        return [], []


def figures(h):
    import matplotlib.pyplot as plt

    made = []

    def figure(*a, **k):
        made.append(Fig())
        return made[-1]

    def subplots(n=1, m=1, *a, **k):
        made.append(Fig(n * m))
        return made[-1], made[-1].panels

    h.patch(plt, "figure", figure)
    h.patch(plt, "subplots", subplots)
    h.patch(plt, "tight_layout", lambda *a, **k: None)
    return made


def burn_in(h, names, steps, walkers, discard, thin, special):
    import appletree.plot as plot

    c = setup(h, names, steps, walkers, special)
    its, flat = kept(h, c, discard, thin)
    if not its:
        return
    all_ = list(range(steps))[discard + thin - 1 :: thin]
    made = figures(h)
    fig, axes = plot.Plotter("chain.h5", discard=discard, thin=thin).plot_burn_in()
    h.check(len(axes) == len(names) + 2, "one panel per parameter, one for each of posterior and prior")
    for k, ax in enumerate(axes):
        lines = by(ax.calls, "plot")
        h.check(len(lines) == walkers, "one curve per walker")
        for w, (a, kw) in enumerate(lines):
            # iterations by their number: the first selected one counts as discard
            h.eq_list(a[0], [discard + thin * all_.index(i) for i in its], "at the number of its iteration")
            if k < len(names):
                want = [c.rows[i][w][k] for i in its]
            else:
                want = [(c.logp if k == len(names) else c.prior)[i][w] for i in its]
            h.eq_list(a[1], want, "every value of the walker")
        lim = by(ax.calls, "set_xlim")
        if lim:
            (lo, hi), _ = lim[-1]
            h.check(lo <= discard + thin * all_.index(its[0]) and hi >= discard + thin * all_.index(its[-1]), "the range shown covers every iteration kept")
        label = by(ax.calls, "set_ylabel")
        h.check(label[-1][0][0] == (list(names) + ["log posterior", "log prior"])[k], "labelled by what it shows")


def density(h, x, which, sigmas):
    x = h.Sc(x)
    p = PRIORS[which]
    a = p["prior_args"]
    if p["prior_type"] == "norm":
        return h.exp(-(x - a["mean"]) * (x - a["mean"]) / (2 * a["std"] ** 2)) / (a["std"] * math.sqrt(2 * math.pi))
    if p["prior_type"] == "uniform":
        return h.Sc(1 / (a["upper"] - a["lower"]))
    sp, sn = map(h.Sc, sigmas)
    s = h.ite(x < a["mu"], sn, sp)
    return h.exp(h.log(2 / ((sp + sn) * math.sqrt(2 * math.pi))) - (x - a["mu"]) * (x - a["mu"]) / (2 * s * s))


def prior(h, which):
    """The prior densities drawn are those of the configured priors, normalised."""
    import appletree.plot as plot

    sig = h.reals("sigma", 2, lo=0.25, hi=4)

    def solve(errors):
        a = PRIORS["c"]["prior_args"]
        h.check(tuple(errors) == (a["sigma_pos"], a["sigma_neg"]), "both errors, in order")
        return sig

    h.patch(plot, "errors_to_two_half_norm_sigmas", solve)
    f = {"a": plot.Plotter._norm_pdf, "b": plot.Plotter._uniform_pdf, "c": plot.Plotter._thn_pdf}[which]
    xs = h.reals("x", 2, lo=-5, hi=5)
    got = f(h.np_array(xs), **PRIORS[which]["prior_args"])
    for g, x in zip(h.S(got).ravel(), xs):
        h.close(g, density(h, x, which, sig), "density of the prior")


def patch_curves(h, plot):
    """Curves of priors are recorded by name; their values are decided by 'prior'."""
    for k, n in (("_norm_pdf", "norm"), ("_uniform_pdf", "uniform"), ("_thn_pdf", "twohalfnorm")):
        h.patch(plot.Plotter, k, staticmethod(lambda x, _n=n, **a: (_n, a)))


def marginal(h, names, steps, walkers, special):
    import appletree.plot as plot

    c = setup(h, names, steps, walkers, special)
    its, flat = kept(h, c, 0, 1)
    if not its or not flat:
        return
    made = figures(h)
    patch_curves(h, plot)
    fig, axes = plot.Plotter("chain.h5").plot_marginal_posterior()
    h.check(len(axes) == len(names), "one panel per parameter")
    for k, (n, ax) in enumerate(zip(names, axes)):
        (a, kw) = by(ax.calls, "hist")[0]
        h.eq_list(a[0], [c.rows[i][w][k] for i, w in flat], "every sample of the parameter")
        h.check(kw.get("density") is True, "as a density")
        h.check(by(ax.calls, "set_xlabel")[-1][0][0] == n, "labelled by the parameter")
        lines = by(ax.calls, "plot")
        if PRIORS[n]["prior_type"] == "free":
            h.check(not lines, "no prior drawn")
        else:
            h.check(len(lines) == 1 and lines[0][0][1] == (PRIORS[n]["prior_type"], PRIORS[n]["prior_args"]), "with its own prior")


def corner(h, names, steps, walkers, special):
    import numpy as np
    import appletree.plot as plot

    c = setup(h, names, steps, walkers, special)
    its, flat = kept(h, c, 0, 1)
    if not its or not flat:
        return
    made = figures(h)
    patch_curves(h, plot)
    seen = []
    m = len(names) + 2

    def draw(samples, labels=None, fig=None, **k):
        seen.append((samples, list(labels)))
        fig.panels = [Axes() for _ in range(m * m)]

    h.patch(plot.corner, "corner", draw)
    h.patch(plot.np, "corrcoef", lambda x, rowvar=True: np.zeros((m, m)))
    p = plot.Plotter("chain.h5")
    fig, axes = p.plot_corner()
    (samples, labels) = seen[0]
    h.check(labels == list(names) + ["log posterior", "log prior"], "labelled by what it shows")
    h.eq_list(samples, [list(c.rows[i][w]) + [c.logp[i][w], c.prior[i][w]] for i, w in flat], "every sample with its posterior and prior")
    for k, n in enumerate(names):
        ax = axes[k][k]
        v = by(ax.calls, "axvline")
        h.check(len(v) == 1, "the best value is marked")
        h.close(h.Sc(v[0][0][0]), p.param_mpe[n], "the best value is marked")
        lines = by(ax.calls, "plot")
        if PRIORS[n]["prior_type"] == "free":
            h.check(not lines, "no prior drawn")
        else:
            h.check(len(lines) == 1 and lines[0][0][1] == (PRIORS[n]["prior_type"], PRIORS[n]["prior_args"]), "with its own prior")


def acceptance(h, names, steps, walkers, discard, thin, window, how):
    """Average fraction of accepted steps up to and within the window before every iteration."""
    import warnings
    import appletree.plot as plot

    c = setup(h, names, steps, walkers, moving=how)
    idx = list(range(steps))[discard + thin - 1 :: thin]
    n = len(idx)
    made = figures(h)
    acc = {}
    for k in range(1, n):
        for w in range(walkers):
            acc[k, w] = 1 if any(x is not y for x, y in zip(c.rows[idx[k]][w], c.rows[idx[k - 1]][w])) else 0
            if thin > 1 and acc[k, w]:
                # a walker may come back to where it was
                acc[k, w] = 1 if h.path(h.any(*[h.Sc(x) != h.Sc(y) for x, y in zip(c.rows[idx[k]][w], c.rows[idx[k - 1]][w])])) else 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, axes = plot.Plotter("chain.h5", discard=discard, thin=thin).plot_acceptance_fraction(window_length=window)
    win = min(window, n - 1)
    lines = by(axes[0].calls, "plot")
    h.check(len(lines) == 2, "cumulative and moving average")
    (a, k), (b, l) = lines
    h.eq_list(a[0], [discard + thin * k for k in range(1, n)], "at the number of the iteration")
    h.eq_list(a[1], [sum(acc[j, w] for j in range(1, k + 1) for w in range(walkers)) / (k * walkers) for k in range(1, n)], "fraction of the steps so far that were accepted")
    h.eq_list(b[0], [discard + thin * k for k in range(win, n)], "window at the number of its last iteration")
    h.eq_list(b[1], [sum(acc[j, w] for j in range(k - win + 1, k + 1) for w in range(walkers)) / (win * walkers) for k in range(win, n)], "fraction of the steps in the window that were accepted")
    (d, k) = by(axes[1].calls, "plot")[0]
    h.eq_list(d[0], list(range(walkers)), "one point per walker")
    for w, g in enumerate(h.S(d[1]).ravel()):
        f = [h.Sc(sum(acc[j, w] for j in range(1, k + 1)) / k) for k in range(1, n)]
        h.check(h.all(h.Sc(g) >= h.min(f) - 1e-6, h.Sc(g) <= h.max(f) + 1e-6), "of that walker")


def instances(tier):
    big = tier == "thorough"
    o = dict(max_paths=20000)
    out = []

    def add(name, func, **params):
        out.append(dict(name=name, func=func, params=params, opts=o))

    for names in (("b",), ("c", "a")):
        for w in (1, 2):
            n = len(names)
            for steps, discard, thin in ((3, 0, 1), (4, 1, 1), (4, 0, 2), (5, 1, 2)):
                add(f"content_{n}p{w}w_{steps}_{discard}_{thin}", content, names=names, steps=steps, walkers=w, discard=discard, thin=thin, special=False)
            add(f"content_{n}p{w}w_special", content, names=names, steps=2, walkers=w, discard=0, thin=1, special=True)
            if w == 1 or big:
                add(f"content_{n}p{w}w_special3", content, names=names, steps=3, walkers=w, discard=0, thin=1, special=True)
        add(f"burn_in_{n}p", burn_in, names=names, steps=3, walkers=2, discard=0, thin=1, special=False)
        add(f"burn_in_{n}p_thin", burn_in, names=names, steps=5, walkers=2, discard=1, thin=2, special=False)
        add(f"burn_in_{n}p_special", burn_in, names=names, steps=3, walkers=1, discard=1, thin=1, special=True)
        add(f"acceptance_{n}p", acceptance, names=names, steps=4, walkers=1, discard=0, thin=1, window=2, how="all")
        add(f"acceptance_{n}p2w", acceptance, names=names, steps=3, walkers=2, discard=0, thin=1, window=1, how="one")
        add(f"acceptance_{n}p_long", acceptance, names=names, steps=4, walkers=1, discard=1, thin=1, window=5, how="all")
    add("acceptance_thin", acceptance, names=("c", "a"), steps=6, walkers=1, discard=0, thin=2, window=1, how="all")
    for names in (("c", "a", "d"), ("b",)):
        add(f"marginal_{len(names)}p", marginal, names=names, steps=2, walkers=2, special=False)
        add(f"marginal_{len(names)}p_special", marginal, names=names, steps=2, walkers=1, special=True)
        add(f"corner_{len(names)}p", corner, names=names, steps=2, walkers=2, special=False)
        add(f"corner_{len(names)}p_special", corner, names=names, steps=2, walkers=1, special=True)
    for n in "abc":
        add("prior_" + n, prior, which=n)
    if big:
        for names in (("b", "c"), ("c", "d", "a")):
            n = len(names)
            add(f"content_big_{n}p", content, names=names, steps=4, walkers=2, discard=0, thin=1, special=True)
            add(f"content_big_{n}p_thin", content, names=names, steps=6, walkers=2, discard=1, thin=2, special=True)
            add(f"acceptance_big_{n}p", acceptance, names=names, steps=4, walkers=2, discard=0, thin=1, window=2, how="one")
            add(f"acceptance_big_{n}p5", acceptance, names=names, steps=6, walkers=1, discard=0, thin=1, window=3, how="all")
    return out
