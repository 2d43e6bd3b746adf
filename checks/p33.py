"""P33: plot helpers describe the same grid as the interpolation."""
import itertools
import json
import os

BOUNDS = "axes of 1..6 nodes, all ranges (positive on logarithmic axes), all values; maps of 1..3 axes with shapes up to (2, 3, 2), every subset of axes collapsed, wholly or over any closed range, linear and logarithmic; uncertainty maps whose three parts share a grid; contexts of 1..2 likelihoods with up to 2 components, maps at the default, configured for all or per likelihood, shared, overridden plugins"
ASSUMPTIONS = ["matplotlib draws what it is given (axes are stand-ins that record)"]
FUNCTIONS = ["plot._regbin_edges_centers", "plot._collapse_regbin_map", "plot._collect_maps", "plot._plot_regular_map", "plot._plot_sigma_map", "plot._plot_map_1d_regbin", "plot._plot_map_1d_point", "plot._plot_map_2d_regbin", "plot._plot_sigma_map_1d_regbin", "plot._lookup_collapse"]


def node(h, lo, hi, n, i, log):
    """Position of the i-th interpolation node, in log10 on logarithmic axes."""
    a, b = (h.log(h.Sc(lo)) / h.log(h.Sc(10.0)), h.log(h.Sc(hi)) / h.log(h.Sc(10.0))) if log else (h.Sc(lo), h.Sc(hi))
    if n == 1:
        return a
    from fractions import Fraction

    t = i / (n - 1) if not h.sym else h.Sc(i) / h.Sc(n - 1)
    return a + (b - a) * t


def lg(h, x):
    return h.log(h.Sc(x)) / h.log(h.Sc(10.0))


def axis(h, n, log):
    import appletree.plot as plot

    if log:
        lo = h.real("lo", lo=1e-3, hi=1e3)
        hi = h.real("hi", lo=1e-3, hi=1e4)
    else:
        lo, hi = h.real("lo", lo=-100, hi=100), h.real("hi", lo=-100, hi=100)
    h.assume(h.Sc(hi) - h.Sc(lo) >= 1e-2)
    edges, centers = plot._regbin_edges_centers(lo, hi, n, log)
    h.check(len(centers) == n and len(edges) == n + 1, "one centre per node, one edge more")
    E, C = list(h.S(edges).ravel()), list(h.S(centers).ravel())
    u = (lambda x: lg(h, x)) if log else (lambda x: x)
    for i in range(n):
        h.close(u(C[i]), node(h, lo, hi, n, i, log), "centres are the interpolation nodes")
        h.check(h.all(E[i] < C[i], C[i] < E[i + 1]), "edges interleave with the centres")
    for i in range(n):
        h.check(E[i] < E[i + 1], "edges increase")
    for i in range(1, n):
        h.close(u(E[i]), (u(C[i - 1]) + u(C[i])) / 2, "midway between the centres")
    if n > 1:
        h.close(u(E[0]), u(C[0]) - (u(C[1]) - u(C[0])) / 2, "first edge half a step out")
        h.close(u(E[n]), u(C[-1]) + (u(C[-1]) - u(C[-2])) / 2, "last edge half a step out")


NAMES = ["x", "y", "z"]


def grid(h, shape, logs, tag=""):
    names = NAMES[: len(shape)]
    lo, hi = [], []
    for a, n in zip(names, shape):
        if logs[names.index(a)]:
            lo.append(h.real(f"lo{tag}_{a}", lo=1e-2, hi=100))
            hi.append(h.real(f"hi{tag}_{a}", lo=1e-2, hi=1000))
            h.assume(h.Sc(hi[-1]) >= h.Sc(lo[-1]) * 1.01)
        else:
            lo.append(h.real(f"lo{tag}_{a}", lo=-100, hi=100))
            hi.append(h.real(f"hi{tag}_{a}", lo=-100, hi=100))
            h.assume(h.Sc(hi[-1]) - h.Sc(lo[-1]) >= 1e-2)
    return names, lo, hi


def nested(h, name, shape):
    idx = list(itertools.product(*[range(n) for n in shape]))
    v = {i: h.real(name + "_" + "_".join(map(str, i)), lo=-100, hi=100) for i in idx}

    def build(pre):
        if len(pre) == len(shape):
            return v[pre]
        return [build(pre + (k,)) for k in range(shape[len(pre)])]

    return v, build(())


def ranges(h, names, lo, hi, shape, logs, which):
    """What to collapse: {axis: None or range}, and the nodes selected per axis."""
    collapse, chosen = {}, {}
    for a in names:
        i = names.index(a)
        how = which.get(a, "keep")
        if how == "keep":
            continue
        if how == "all":
            collapse[a] = None
            chosen[a] = [True] * shape[i]
            continue
        b = (1e-3, 1000) if logs[i] else (-200, 200)
        r0, r1 = h.real(f"from_{a}", lo=b[0], hi=b[1]), h.real(f"to_{a}", lo=b[0], hi=b[1])
        collapse[a] = (r0, r1)
        at = [node(h, lo[i], hi[i], shape[i], k, logs[i]) for k in range(shape[i])]
        if logs[i]:
            at = [h.exp(p * h.log(h.Sc(10.0))) for p in at]
        # a range ending at a node up to rounding may go either way (the closed end is decided by 'closed')
        for p in at:
            for r in (r0, r1):
                h.assume(h.any(h.abs(p - r) >= 1e-5 * (1 + h.abs(h.Sc(r)))))
        chosen[a] = (at, r0, r1)
    return collapse, chosen


def expected(h, v, shape, names, chosen):
    """Averages over the selected nodes, by the indices of the remaining axes."""
    keep = [i for i, a in enumerate(names) if a not in chosen]
    for a, c in list(chosen.items()):
        if isinstance(c, tuple):
            at, r0, r1 = c
            inside = [bool(h.path(p >= r0)) and bool(h.path(p <= r1)) for p in at]
            chosen[a] = inside if any(inside) else [True] * len(at)
    out = {}
    for left in itertools.product(*[range(shape[i]) for i in keep]):
        use = [v[idx] for idx in v if tuple(idx[i] for i in keep) == left and all(chosen[a][idx[names.index(a)]] for a in chosen)]
        out[left] = h.sum(use) / len(use)
    return out, keep


def collapse(h, shape, logs, which, scalar=False, limits=None):
    """Averages over exactly the selected nodes; the remaining axes keep their description."""
    import warnings
    import appletree.plot as plot

    if limits:
        names, (lo, hi) = NAMES[: len(shape)], [list(x) for x in zip(*limits)]
    else:
        names, lo, hi = grid(h, shape, logs)
    v, data = nested(h, "v", shape)
    coll, chosen = ranges(h, names, lo, hi, shape, logs, which)
    if h.flag("foreign"):
        coll["other"] = None
    n0, l0, u0 = list(names), list(lo), list(hi)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, gn, gl, gu, glog = plot._collapse_regbin_map(h.np_array(data), names, lo, hi, dict(coll) if coll or h.flag("empty") else None, is_log=logs[0] if scalar else list(logs))
    want, keep = expected(h, v, shape, names, chosen)
    h.check(list(gn) == [n0[i] for i in keep], "names of the remaining axes")
    h.check(list(glog) == [logs[i] for i in keep], "scales of the remaining axes")
    h.check(len(gl) == len(keep) and len(gu) == len(keep), "ranges of the remaining axes")
    for j, i in enumerate(keep):
        h.check(h.all(h.same(gl[j], l0[i]), h.same(gu[j], u0[i])), "ranges of the remaining axes")
    h.check(tuple(h.shape(got)) == tuple(shape[i] for i in keep), "shape")
    arr = h.S(got) if keep else None
    for left, w in want.items():
        h.close(arr[left] if keep else h.Sc(got), w, "average over exactly the selected nodes")
    h.check(names == n0 and lo == l0 and hi == u0, "the caller's description is left alone")


def closed(h, n, end):
    """Both ends of the range belong to it."""
    import appletree.plot as plot

    v = h.reals("v", n, lo=-100, hi=100)
    i = h.pick("i", list(range(n)))
    j = h.pick("j", list(range(n)))
    lo, hi = 4.0, 4.0 + 0.5 * (n - 1)
    r = (4.0 + 0.5 * i, 4.0 + 0.5 * j)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = plot._collapse_regbin_map(h.np_array(v), ["x"], [lo], [hi], {"x": r}, is_log=[False])[0]
    sel = v[i : j + 1] if i <= j else v
    h.close(h.Sc(got), h.sum(sel) / len(sel), "both ends included")


class Rec:
    """Records what is drawn."""

    def __init__(self, calls):
        self.calls = calls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            return Rec(self.calls)

        return f


def recorder(h):
    import matplotlib.pyplot as plt

    figs = []

    def subplots(*a, **k):
        calls = []
        figs.append(calls)
        return Rec([]), Rec(calls)

    h.patch(plt, "subplots", subplots)
    return figs


def by(calls, name):
    return [(a, k) for n, a, k in calls if n == name]


def make_map(h, shape, logs, sigma, tag=""):
    import appletree as apt

    names, lo, hi = grid(h, shape, logs, tag)
    types = ["log_regbin" if l else "regbin" for l in logs]
    vs, files = [], []
    for part in "mlu" if sigma else "m":
        v, data = nested(h, f"v{tag}{part}", shape)
        vs.append(v)
        ct = types if len(set(types)) > 1 else types[0]
        files.append(h.json_file(f"map{tag}{part}.json", {"coordinate_type": ct, "coordinate_name": names, "coordinate_lowers": lo, "coordinate_uppers": hi, "map": data}))
    if sigma:
        c = apt.SigmaMap(name="m" + tag, method="NN", default=files)
        c.taken_by = "P"
        c.build("a")
    else:
        c = apt.Map(name="m" + tag, method="NN", default=files[0])
        c.taken_by = "P"
        c.build("a")
    return c, names, lo, hi, vs


def heat(h, call, label, want, shape, lo, hi, logs, names):
    """The image shows every average at its node."""
    (args, kw) = call
    img = args[0]
    h.check(kw.get("origin") == "lower", label + "upright")
    h.check(tuple(h.shape(img)) == (shape[1], shape[0]), label + "shape of the image")
    img = h.S(img)
    ext = [h.Sc(e) for e in kw["extent"]]
    for d in (0, 1):
        a, b = ext[2 * d], ext[2 * d + 1]
        n = shape[d]
        for i in range(n):
            h.close(a + (b - a) * (h.Sc(2 * i + 1) / h.Sc(2 * n)), node(h, lo[d], hi[d], n, i, logs[d]), label + "pixels lie around their nodes")
    for (i, j), w in want.items():
        h.close(img[j, i], w, label + "every average at its node")


def shown(h, shape, logs, which, sigma):
    """Maps as drawn."""
    import warnings
    import appletree.plot as plot

    figs = recorder(h)
    cfg, names, lo, hi, vs = make_map(h, shape, logs, sigma)
    coll, chosen = ranges(h, names, lo, hi, shape, logs, which)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = plot._plot_config(cfg, coll or None)
    wants = [expected(h, v, shape, names, chosen) for v in vs]
    keep = wants[0][1]
    wants = [w[0] for w in wants]
    kl = dict(lo=[lo[i] for i in keep], hi=[hi[i] for i in keep], logs=[logs[i] for i in keep], names=[names[i] for i in keep], shape=[shape[i] for i in keep])
    if len(keep) not in (1, 2):
        h.check(not out and not figs, "nothing to draw")
        return
    h.check(len(out) == len(figs), "figures")
    if len(keep) == 2:
        # lower, median, upper
        order = [1, 0, 2] if sigma else [0]
        h.check(len(figs) == len(order), "one figure per map")
        for f, o in zip(figs, order):
            heat(h, by(f, "imshow")[0], "", wants[o], **kl)
        return
    h.check(len(figs) == 1, "one figure")
    at = [node(h, kl["lo"][0], kl["hi"][0], kl["shape"][0], i, kl["logs"][0]) for i in range(kl["shape"][0])]
    u = (lambda x: lg(h, x)) if kl["logs"][0] else (lambda x: x)

    def curve(x, y, w, label):
        h.check(tuple(h.shape(x)) == tuple(h.shape(y)) == (len(at),), label + "one point per node")
        for i, (a, b) in enumerate(zip(h.S(x).ravel(), h.S(y).ravel())):
            h.close(u(a), at[i], label + "points at the nodes")
            h.close(b, w[(i,)], label + "values of the nodes")

    if sigma:
        lines = by(figs[0], "plot")
        h.check(len(lines) == 3, "three curves")
        for (a, k), w in zip(lines, wants):
            curve(a[0], a[1], w, "")
        (a, k) = by(figs[0], "fill_between")[0]
        curve(a[0], a[1], wants[1], "band ")
        curve(a[0], a[2], wants[2], "band ")
    else:
        (a, k) = by(figs[0], "bar")[0]
        curve(a[0], a[1], wants[0], "")
    h.check(bool(by(figs[0], "set_xscale")) == kl["logs"][0], "scale")


def point(h, n, sigma):
    """Point maps are drawn at their points."""
    import appletree as apt
    import appletree.plot as plot

    figs = recorder(h)
    parts = []
    for p in "mlu" if sigma else "m":
        xs = h.increasing("x" + p, n, gap=1e-2, lo=-100, hi=100)
        vs = h.reals("v" + p, n, lo=-100, hi=100)
        parts.append((xs, vs, h.json_file(p + ".json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": xs, "map": vs})))
    cls = apt.SigmaMap if sigma else apt.Map
    c = cls(name="m", method="LERP", default=[p[2] for p in parts] if sigma else parts[0][2])
    c.build("a")
    if sigma:
        import numpy as np

        h.patch(plot.np, "interp", lambda x, xp, fp: ("interp", xp, fp))
        h.patch(plot.np, "linspace", lambda a, b, n: ("fine", a, b, n))
    plot._plot_config(c, None)
    lines = by(figs[0], "plot")
    h.check(len(figs) == 1 and len(lines) == len(parts), "one curve per map")
    for (a, k), (xs, vs, f) in zip(lines, parts):
        for got, want in ((a[0], xs), (a[1], vs)):
            g = list(h.S(got).ravel())
            h.check(len(g) == n, "one point per reference point")
            for x, y in zip(g, want):
                h.close(x, y, "the reference points")


def collected(h, nllh, ways, override):
    """The maps of a context are those its components use."""
    import types
    import appletree as apt
    import appletree.plot as plot
    from checks.p18 import w2

    w = w2(h)
    files = {}

    def curve(tag):
        f = h.json_file(tag + ".json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": h.reals(tag, 2, lo=-9, hi=9)})
        return f

    default, sdefault, other = curve("default"), [curve("sm"), curve("sl"), curve("su")], curve("other")
    m = apt.Map(name="conf", method="LERP", default=default)
    s = apt.SigmaMap(name="sig", method="LERP", default=sdefault)
    o = apt.Map(name="over", method="LERP", default=other)
    plain = apt.Constant(name="number", default=1.0)
    same = apt.Map(name="alias", method="LERP", default=default)
    # a plugin of two outputs, the first of which may be overridden
    A = w.plugin("Pa", ["x", "y"], ["batch_size"], configs=[m, s, plain, same])
    B = w.plugin("Pb", ["x"], ["batch_size"], configs=[o])
    U = w.plugin("Pu", ["z"], ["batch_size"], configs=[apt.Map(name="unused", method="LERP", default=other)])
    E = w.plugin("Pe", ["eff"], ["x"])
    llhs = "ab"[:nllh]
    vals = {l: default for l in llhs}
    way = h.pick("way", list(ways))
    if way == "all":
        f = curve("all")
        apt.set_global_config({"conf": f})
        vals = {l: f for l in llhs}
    elif way == "each":
        vals = {l: curve("for_" + l) for l in llhs}
        apt.set_global_config({"conf": vals})
    elif way == "shared":
        vals = {l: default if l == "a" else curve("for_" + l) for l in llhs}
        apt.set_global_config({"conf": vals})
    over = override and h.flag("override")
    want = {}
    context = types.SimpleNamespace(likelihoods={})
    for l in h.perm("order", list(llhs)):
        comps = {}
        for cn in ("c1", "c2")[: h.pick("n_" + l, [1, 2])]:
            c = apt.ComponentSim(name=cn, llh_name=l)
            c.register([A] + ([B] if over else []) + [U, E])
            c.deduce(data_names=["x", "y"], func_name="simulate_" + cn)
            c.compile()
            comps[cn] = c
        comps["fixed"] = object.__new__(apt.ComponentFixed)
        context.likelihoods[l] = types.SimpleNamespace(components=comps)
        want.setdefault(vals[l], set()).add("conf")
        want.setdefault(default, set()).add("alias")
        want[tuple(sdefault)] = {"sig"}
        if over:
            want.setdefault(other, set()).add("over")
    got = {}
    for cfg, names in plot._collect_maps(context).values():
        if hasattr(cfg, "median"):
            k = (cfg.median.file_path, cfg.lower.file_path, cfg.upper.file_path)
        else:
            k = cfg.file_path
        h.check(k not in got, "every map once")
        got[k] = set(names)
    h.check(set(got) == set(want), "the maps in use, no other")
    for k in got:
        h.check(got[k] == want.get(k), "under the names they are used")


def looked_up(h):
    """The collapse requested under any name of a map."""
    import appletree.plot as plot

    names = [n for n in "abc" if h.flag("is_" + n)]
    spec = {n: object() for n in "abc" if h.flag("has_" + n)}
    r = plot._lookup_collapse(dict(spec) if spec or h.flag("dict") else None, set(names))
    ok = [spec[n] for n in names if n in spec]
    h.check(any(r is x for x in ok) if ok else r is None, "the request of one of its names")


def instances(tier):
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts=dict(max_paths=6000)))

    for n in (1, 2, 3, 4, 5, 6):
        for log in (False, True):
            add(axis, f"axis_{'log' if log else 'lin'}_{n}", n=n, log=log)
    sel = ("keep", "all", "range")
    for shape in [(3,), (2, 3), (3, 2, 2)] + ([(2, 3, 2)] if tier == "thorough" else []):
        names = NAMES[: len(shape)]
        for which in itertools.product(sel, repeat=len(shape)):
            if which.count("range") > (1 if len(shape) > 2 else 2):
                continue
            for logs in [(False,) * len(shape), tuple(i == len(shape) - 1 for i in range(len(shape)))] + ([(True,) * len(shape)] if tier == "thorough" else []):
                nm = "x".join(map(str, shape)) + "_" + "".join(w[0] for w in which) + "_" + "".join("L" if l else "-" for l in logs)
                if tier == "quick" and len(shape) == 3 and any(logs) and "range" not in which:
                    continue
                add(collapse, "collapse_" + nm, shape=list(shape), logs=list(logs), which=dict(zip(names, which)))
    add(collapse, "collapse_scalar_log", shape=[2, 2], logs=[True, True], which={"y": "all"}, scalar=True)
    # given limits: the nodes are numbers
    for shape, lims, logs in [([3], [(1.0, 100.0)], [True]), ([2, 3], [(-1.0, 5.0), (1.0, 100.0)], [False, True]), ([3, 2], [(0.5, 8.0), (2.0, 3.0)], [True, False]), ([3, 2, 3], [(1.0, 4.0), (1.0, 9.0), (-2.0, 2.0)], [True, True, False])]:
        for i in range(len(shape)):
            which = {a: ("range" if j == i else "all") for j, a in enumerate(NAMES[: len(shape)]) if j == i or len(shape) == 3 and j == (i + 1) % 3}
            add(collapse, f"limits_{'x'.join(map(str, shape))}_{i}", shape=shape, logs=logs, which=which, limits=lims)
    for n in (3, 5):
        add(closed, f"closed_{n}", n=n, end=0)
    for sigma in (False, True):
        t = "sigma" if sigma else "map"
        for nm, shape, logs, which in [
            ("1", [3], [False], {}),
            ("1log", [3], [True], {}),
            ("1range", [3], [False], {"x": "range"}),
            ("2", [2, 3], [False, False], {}),
            ("2log", [2, 3], [False, True], {}),
            ("2to1", [2, 3], [False, True], {"x": "all"}),
            ("2to1r", [3, 2], [False, False], {"x": "range"}),
            ("3", [2, 2, 2], [False, False, False], {}),
            ("3to2", [2, 3, 2], [True, False, False], {"y": "all"}),
            ("3to1", [2, 3, 2], [False, False, True], {"x": "all", "y": "all"}),
        ]:
            add(shown, f"shown_{t}_{nm}", shape=shape, logs=logs, which=which, sigma=sigma)
        add(point, f"point_{t}", n=2, sigma=sigma)
    add(collected, "collected_1", nllh=1, ways=["absent", "all", "each"], override=True)
    add(collected, "collected_2", nllh=2, ways=["absent", "all", "each", "shared"], override=True)
    add(looked_up, "looked_up")
    return out
