"""P06: only data strictly inside the region of interest enter the data histogram."""
from checks import comp as M

BOUNDS = "1 or 2 observables, 1..3 data rows anywhere in [-200, 200] (also exactly on clip bounds), symbolic clip ranges, 1..3 bins per axis with symbolic explicit edges (narrower, wider or shifted with respect to the clip range) or integer specifications, file columns in any order"
ASSUMPTIONS = ["the data file is read by pandas into the columns it contains"]
FUNCTIONS = ["likelihood.Likelihood.__init__", "likelihood.Likelihood.set_binning", "likelihood.Likelihood._resolve_bin_edges", "likelihood.Likelihood._resolve_explicit_bins", "likelihood.Likelihood._make_data_hist", "likelihood.Likelihood._validate_irreg_bins_2d", "likelihood.Likelihood._sanity_check", "utils.load_data"]
L = dict(lo=-100, hi=100)


def clip(h, name, form):
    if form == "fixed":
        return [0.0, 4.0]
    a, b = h.increasing(name, 2, gap=1, **L)
    return (a, b) if form == "tuple" else [a, b]


def build(h, dim, kind, n, integer, symbolic, listed=False, suffix="csv"):
    import appletree as apt

    names = ["cs1", "cs2"][:dim]
    rows = [[h.real(f"v{i}_{d}", lo=-200, hi=200) for d in range(dim)] for i in range(n)]
    cl = [clip(h, f"clip{d}_", h.pick("form", ["list", "tuple"]) if symbolic else "fixed") for d in range(dim)]
    if integer:
        counts = [h.pick(f"bins{d}", [1, 2, 3]) if d == 0 else 2 for d in range(dim)]
        bins = counts if dim == 2 or listed else h.pick("plain", [counts[0], counts])
        edges = [[h.Sc(c[0]) + (h.Sc(c[1]) - c[0]) * j / m for j in range(m + 1)] for c, m in zip(cl, counts)]
    else:
        case = ("irreg" if kind == "irreg" else "mesh") + str(dim)
        _, edges = M.bins_of(h, case, symbolic)
        bins = edges
    order = h.perm("order", range(dim))
    cols = {}
    for d in order:
        cols[names[d]] = [r[d] for r in rows]
        cols[f"junk{d}"] = [1.0] * n
    paths = M.install(h, {f"data.{suffix}": cols})
    cfg = dict(data_file_name=paths[f"data.{suffix}"], bins_type=kind, bins_on=names if dim > 1 or listed else "cs1", bins=bins)
    if dim == 1:
        cfg["clip"] = cl[0]
    else:
        cfg.update(x_clip=cl[0], y_clip=cl[1])
    return apt.Likelihood("l", **cfg), rows, cl, edges


def select(h, dim, kind, n, integer, symbolic, listed=False, suffix="csv"):
    lk, rows, cl, edges = build(h, dim, kind, n, integer, symbolic, listed, suffix)
    if integer:  # the rounding of computed edges is not judged
        for r in rows:
            for d in range(dim):
                for e in edges[d][1:-1]:
                    h.assume(h.abs(h.Sc(r[d]) - e) >= 1e-3)
    inside = []
    for i, r in enumerate(rows):
        if h.path(h.all(*[h.all(h.Sc(x) > c[0], h.Sc(x) < c[1]) for x, c in zip(r, cl)])):
            inside.append(i)
    h.check(tuple(h.shape(lk.data)) == (len(inside), dim), "the rows strictly inside, and only those")
    if len(lk.data) == len(inside):
        for k, i in enumerate(inside):
            for d in range(dim):
                h.check(h.same(h.S(lk.data)[k, d], rows[i][d]), "data rows unchanged and in order")
    want = M.content(h, kind, edges, [rows[i] for i in inside], [1.0] * len(inside)) if inside else [0] * M.ncell(edges)
    got = list(h.S(lk.data_hist).ravel())
    h.check(len(got) == len(want), "one value per bin")
    if len(got) == len(want):
        for a, b in zip(got, want):
            h.close(a, b, "number of selected rows in the bin")
    # components simulate in the same bins
    lk.register_component(M.sim_class(h, [], None), "er")
    c = lk["er"]
    h.check(c.bins_type == kind and len(c.bins) == dim, "components get the binning")
    for d in range(dim):
        h.eq_list(c.bins[d], edges[d], "bin edges")


def refused(h):
    import appletree as apt

    paths = M.install(h, {"data.csv": {k: [1.0, 2.0] for k in ("cs1", "cs2", "cs3")}})
    e = [0.0, 1.0, 2.0]
    two = ["cs1", "cs2"]

    def rows():
        nx, ny = h.pick("nx", [2, 3, 4]), h.pick("ny", [1, 2, 3, 4, 5])
        return dict(bins_type="irreg", bins_on=two, bins=[[float(i) for i in range(nx + 1)], [e] * (ny if ny != nx else 6)])

    def ragged():
        nx = h.pick("nx", [2, 3, 4])
        odd = h.pick("odd", list(range(nx)))
        return dict(bins_type="irreg", bins_on=two, bins=[[float(i) for i in range(nx + 1)], [e + [3.0] if i == odd else e for i in range(nx)]])

    kinds = lambda: h.pick("kind", ["irreg", "meshgrid"])
    cases = {
        "axes1": lambda: dict(bins_type=kinds(), bins_on=two, bins=[e]),
        "axes3": lambda: dict(bins_type=kinds(), bins_on=two, bins=[e, [e, e], e]),
        "axis2": lambda: dict(bins_type=kinds(), bins_on="cs1", bins=[e, e]),
        "three": lambda: dict(bins_type=kinds(), bins_on=["cs1", "cs2", "cs3"], bins=[e, e, e]),
        "unknown": lambda: dict(bins_on="cs1", bins=[e], bins_type=h.pick("type", ["regular", "", "IRREG", "mesh", None])),
        "on": lambda: dict(bins_type=kinds(), bins_on=("cs1", "cs2"), bins=[e, [e, e]]),
        "equiprob": lambda: dict(bins_on="cs1", bins=[e], bins_type="equiprob"),
        "equiprob2": lambda: dict(bins_on=two, bins=h.pick("eq", [[2, e], [e, 2], [e, [e, e]], [2]]), bins_type="equiprob"),
        "rows": rows,
        "ragged": ragged,
    }
    cfg = dict(data_file_name=paths["data.csv"], clip=[0.0, 4.0], x_clip=[0.0, 4.0], y_clip=[0.0, 4.0])
    which = h.pick("which", sorted(cases))
    cfg.update(cases[which]())
    h.refuse(lambda: apt.Likelihood("l", **cfg), "inconsistent binning refused: " + which)


def good(h):
    """Consistent binnings of all sizes are accepted."""
    import appletree as apt

    paths = M.install(h, {"data.csv": {k: [1.0, 2.0] for k in ("cs1", "cs2")}})
    nx, ny = h.pick("nx", [1, 2, 3, 4]), h.pick("ny", [1, 2, 3, 4])
    x = [float(i) for i in range(nx + 1)]
    y = [float(i) for i in range(ny + 1)]
    lk = apt.Likelihood("l", data_file_name=paths["data.csv"], bins_type="irreg", bins_on=["cs1", "cs2"], bins=[x, [y] * nx], x_clip=[0.0, 4.0], y_clip=[0.0, 4.0])
    h.check(tuple(h.shape(lk.data_hist)) == (nx, ny), "shape")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for kind in ("irreg", "meshgrid"):
        for n in (1, 2) + ((3,) if big else ()):
            add(select, f"{kind}_1d_{n}", dim=1, kind=kind, n=n, integer=False, symbolic=True)
            add(select, f"{kind}_2d_{n}", dim=2, kind=kind, n=n, integer=False, symbolic=False)
        add(select, f"{kind}_list", dim=1, kind=kind, n=1, integer=False, symbolic=True, listed=True)
        add(select, f"{kind}_2dS", dim=2, kind=kind, n=1, integer=False, symbolic=True)
        add(select, f"{kind}_pkl", dim=1, kind=kind, n=1, integer=False, symbolic=False, suffix="pkl")
        if big:
            add(select, f"{kind}_2dS2", dim=2, kind=kind, n=2, integer=False, symbolic=True)
    add(select, "int_1d", dim=1, kind="meshgrid", n=1, integer=True, symbolic=True)
    add(select, "int_1d2", dim=1, kind="meshgrid", n=2, integer=True, symbolic=False)
    add(select, "int_2d", dim=2, kind="meshgrid", n=1, integer=True, symbolic=True)
    add(refused, "refused")
    add(good, "good")
    return out
