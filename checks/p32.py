"""P32: equiprobable binning uses only selected data and stays in the clip range."""
import inspect
import sys

import numpy as np

from checks import comp as M

BOUNDS = "1 or 2 observables, 1..3 data rows (thorough: 4) anywhere in [-200, 200] (also exactly on clip bounds), clip ranges in [-100, 100], one-sided, infinite or left out, 1..3 partitions per axis, both axis orders, every integer flag and side; partitioner edges of any value (outer ones finite or infinite)"
ASSUMPTIONS = ["the partitioner (GOFevaluation) is an unknown function of what it is given: it returns one edge more than partitions along the first axis of the order and as many rows of edges along the second as there are partitions along the first"]
FUNCTIONS = ["utils.get_equiprob_bins_1d", "utils.get_equiprob_bins_2d", "likelihood.Likelihood.set_binning"]
L = dict(lo=-100, hi=100)
W = dict(lo=-200, hi=200)
INF = float("inf")


class Partitioner:
    """Stand-in of GOFevaluation.utils.get_equiprobable_binning: unknown edges."""

    def __init__(self, h, ends="inf"):
        import GOFevaluation

        self.h, self.ends, self.calls = h, ends, []
        old = GOFevaluation.utils.get_equiprobable_binning
        sig = inspect.signature(old)

        def fake(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            call = dict(b.arguments)
            self.calls.append(call)
            n = call["n_partitions"]
            t = len(self.calls)
            if isinstance(n, (list, tuple)):
                o = list(call["order"] or [0, 1])
                call["first"] = self.edges(f"g{t}f", n[o[0]])
                call["second"] = [self.edges(f"g{t}s{i}", n[o[1]]) for i in range(n[o[0]])]
                return [h.np_array(call["first"]), h.np_array(call["second"])]
            call["first"] = self.edges(f"g{t}", n)
            return h.np_array(call["first"])

        for name, m in list(sys.modules.items()):
            if name.split(".")[0] in ("appletree", "GOFevaluation") and getattr(m, "get_equiprobable_binning", None) is old:
                h.patch(m, "get_equiprobable_binning", fake)

    def edges(self, name, n):
        if self.ends == "inf":
            return [-INF] + list(self.h.increasing(name, n - 1, **W) if n > 1 else []) + [INF]
        return list(self.h.increasing(name, n + 1, **W))


def clip_of(h, name, form):
    """What is given, and the range it stands for."""
    if form == "none":
        return None, (-INF, INF)
    a, b = h.increasing(name, 2, gap=1, **L)
    if form == "low":
        b = INF
    if form == "high":
        a = -INF
    return ([a, b] if form == "list" else (a, b)), (a, b)


def inside(h, rows, clips):
    out = []
    for r in rows:
        c = []
        for v, (a, b) in zip(r, clips):
            if a != -INF:
                c.append(h.Sc(v) > a)
            if b != INF:
                c.append(h.Sc(v) < b)
        if not c or h.path(h.all(*c)):
            out.append(r)
    return out


def clipped(h, e, clip):
    """Everything outside the range is replaced by its bounds."""
    a, b = clip
    if isinstance(e, float) and e == -INF:
        return a
    if isinstance(e, float) and e == INF:
        return b
    v = h.Sc(e)
    if a != -INF:
        v = h.ite(v < a, a, v)
    if b != INF:
        v = h.ite(v > b, b, v)
    return v


def edge(h, got, want, msg):
    if isinstance(want, float) and want in (INF, -INF):
        h.check(h.same(got, want), msg)
    else:
        h.check(h.same(got, want), msg)


def passed(h, call, want, dim):
    """The partitioner sees exactly the selected rows, in their order."""
    data = call["reference_sample"]
    h.check(tuple(h.shape(data)) == ((len(want),) if dim == 1 else (len(want), 2)), "exactly the rows strictly inside the clip ranges are partitioned")
    if h.shape(data)[0] != len(want):
        return
    for k, r in enumerate(want):
        for d in range(dim):
            h.check(h.same(h.S(data)[k] if dim == 1 else h.S(data)[k, d], r[d]), "the selected rows, unchanged")
    h.check(call["reference_sample_weights"] is None, "no weights")


def args(h, which):
    left, form = h.pick(which, [(None, None), (False, "jnp"), (True, "np")])
    kw = {}
    if left is not None:
        kw["left"] = left
    if form is not None:
        import jax.numpy as jnp

        kw["which_np"] = {"np": np, "jnp": jnp}[form]
    return kw, True if left is None else left


def one(h, n, bins, ends, form):
    from appletree.utils import get_equiprob_bins_1d

    p = Partitioner(h, ends)
    rows = [[h.real(f"v{i}", **W)] for i in range(n)]
    given, rng = clip_of(h, "c", form)
    kw, left = args(h, "1d")
    integer = h.pick("int", [True, False, None])
    if integer is not None:
        kw["integer"] = integer
    if given is not None:
        kw["clip"] = given
    out = get_equiprob_bins_1d(h.np_array([r[0] for r in rows]), bins, **kw)
    want = inside(h, rows, [rng])
    h.check(len(p.calls) == 1, "partitioned once")
    c = p.calls[0]
    passed(h, c, want, 1)
    h.check(c["n_partitions"] == bins and bool(c["integer"]) == bool(integer) and c["left"] is left, "number of partitions, integer flag and side are those requested")
    h.check(tuple(h.shape(out)) == (bins + 1,), "one edge more than bins")
    for g, e in zip(h.S(out), c["first"]):
        edge(h, g, clipped(h, e, rng), "edges are those of the partitioner within the clip range")


def two(h, n, bins, ends, forms):
    from appletree.utils import get_equiprob_bins_2d

    p = Partitioner(h, ends)
    rows = [[h.real(f"v{i}_{d}", **W) for d in range(2)] for i in range(n)]
    kw, left = args(h, "2d")
    ranges = []
    for d, (nm, form) in enumerate(zip(("x_clip", "y_clip"), forms)):
        given, rng = clip_of(h, f"c{d}", form)
        ranges.append(rng)
        if given is not None:
            kw[nm] = given
    order = h.pick("order", [None, (0, 1), [1, 0]])
    if order is not None:
        kw["order"] = order
    integer = h.pick("int", [None, [False, True], [True, False]])
    if integer is not None:
        kw["integer"] = integer
    out = get_equiprob_bins_2d(h.np_array(rows), bins, **kw)
    want = inside(h, rows, ranges)
    h.check(len(p.calls) == 1, "partitioned once")
    c = p.calls[0]
    passed(h, c, want, 2)
    o = list(order or (0, 1))
    h.check(list(c["n_partitions"]) == list(bins) and [bool(i) for i in c["integer"] or [0, 0]] == [bool(i) for i in integer or [0, 0]] and c["left"] is left and list(c["order"] or (0, 1)) == o, "numbers of partitions, order, integer flags and side are those requested")
    axes2(h, out, c, [bins[i] for i in o], [ranges[i] for i in o])


def axes2(h, out, c, bins, ranges):
    h.check(len(out) == 2 and tuple(h.shape(out[0])) == (bins[0] + 1,) and tuple(h.shape(out[1])) == (bins[0], bins[1] + 1), "edges along the first axis, and along the second for each bin of the first")
    for g, e in zip(h.S(out[0]), c["first"]):
        edge(h, g, clipped(h, e, ranges[0]), "edges are those of the partitioner within the clip range of their axis")
    for gs, es in zip(h.S(out[1]), c["second"]):
        for g, e in zip(gs, es):
            edge(h, g, clipped(h, e, ranges[1]), "edges are those of the partitioner within the clip range of their axis")


def llh(h, dim, n, bins):
    """A likelihood partitions its selected data with its own options."""
    import appletree as apt

    p = Partitioner(h, "inf")
    names = ["cs1", "cs2"][:dim]
    rows = [[h.real(f"v{i}_{d}", **W) for d in range(dim)] for i in range(n)]
    gr = [clip_of(h, f"c{d}", h.pick(f"form{d}", ["list", "tuple"]) if d == 0 else "list") for d in range(dim)]
    perm = h.perm("order", range(dim))
    paths = M.install(h, {"data.csv": {names[d]: [r[d] for r in rows] for d in perm}})
    plain = dim == 1 and h.flag("plain")
    cfg = dict(data_file_name=paths["data.csv"], bins_type="equiprob", bins_on="cs1" if plain else names, bins=bins[0] if plain else list(bins))
    if dim == 1:
        cfg["clip"] = gr[0][0]
        integer = h.pick("int", [None, True, False])
    else:
        cfg.update(x_clip=gr[0][0], y_clip=gr[1][0])
        integer = h.pick("int", [None, [True, False], [False, True]])
    left = h.pick("left", [None, True, False])
    if integer is not None:
        cfg["integer"] = integer
    if left is not None:
        cfg["left"] = left
    lk = apt.Likelihood("l", **cfg)
    ranges = [g[1] for g in gr]
    want = inside(h, rows, ranges)
    h.check(len(p.calls) == 1, "partitioned once")
    c = p.calls[0]
    passed(h, c, want, dim)
    h.check(c["left"] is (left is not False), "side")
    if dim == 1:
        h.check(c["n_partitions"] == bins[0] and bool(c["integer"]) == bool(integer), "number of partitions and integer flag")
        out = lk._bins
        h.check(len(out) == 1 and tuple(h.shape(out[0])) == (bins[0] + 1,), "edges")
        for g, e in zip(h.S(out[0]), c["first"]):
            edge(h, g, clipped(h, e, ranges[0]), "edges within the clip range")
        edges = [[clipped(h, e, ranges[0]) for e in c["first"]]]
    else:
        h.check(list(c["n_partitions"]) == list(bins) and [bool(i) for i in c["integer"] or [0, 0]] == [bool(i) for i in integer or [0, 0]] and list(c["order"] or (0, 1)) == [0, 1], "numbers of partitions, order and integer flags")
        axes2(h, lk._bins, c, bins, ranges)
        edges = [[clipped(h, e, ranges[0]) for e in c["first"]], [[clipped(h, e, ranges[1]) for e in es] for es in c["second"]]]
    content = M.content(h, "irreg", edges, want, [1.0] * len(want)) if want else [0] * M.ncell(edges)
    got = list(h.S(lk.data_hist).ravel())
    h.check(len(got) == len(content), "one value per bin")
    for a, b in zip(got, content):
        h.close(a, b, "selected rows counted in the equiprobable bins")
    lk.register_component(M.sim_class(h, [], None), "er")
    k = lk["er"]
    h.check(k.bins_type == "irreg", "components use the equiprobable bins")
    for d in range(dim):
        for g, e in zip(np.ravel(h.S(k.bins[d])), flat(edges[d])):
            h.check(h.same(g, e), "components use the equiprobable bins")


def flat(x):
    return [v for e in x for v in (e if isinstance(e, list) else [e])]


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for form in ("tuple", "list", "low", "high", "none"):
        add(one, f"one_{form}", n=2, bins=2, ends="inf", form=form)
    add(one, "one_finite", n=1, bins=3, ends="finite", form="tuple")
    add(one, "one_one", n=3, bins=1, ends="inf", form="tuple")
    for i, forms in enumerate((("tuple", "list"), ("none", "tuple"), ("list", "none"), ("low", "high"), ("none", "none"))):
        add(two, f"two_{i}", n=1, bins=[2, 3], ends="inf", forms=forms)
    add(two, "two_rows", n=2, bins=[1, 2], ends="inf", forms=("tuple", "tuple"))
    add(two, "two_finite", n=1, bins=[2, 1], ends="finite", forms=("tuple", "tuple"))
    add(llh, "llh1", dim=1, n=2, bins=[2])
    add(llh, "llh2", dim=2, n=1, bins=[2, 2])
    if big:
        add(one, "one_4", n=4, bins=3, ends="finite", form="tuple")
        add(two, "two_3rows", n=3, bins=[2, 2], ends="inf", forms=("tuple", "low"))
        add(two, "two_33", n=1, bins=[3, 3], ends="finite", forms=("tuple", "high"))
        add(llh, "llh1b", dim=1, n=3, bins=[3])
        add(llh, "llh2b", dim=2, n=2, bins=[2, 3])
    return out
