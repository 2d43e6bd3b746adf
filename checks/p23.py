"""P23: inverse-distance grid maps and scattered points."""
import itertools

BOUNDS = "2D grids 2x3 and 3x2, 3D grid 2x2x2 (thorough 2x2x3) with fixed unequal axis limits (2D also symbolic limits on a 2x2 grid, thorough), arbitrary node values in [-1000, 1000], arbitrary queries in [-500, 500]^d; interior queries at least 1e-3 from every node, and every node exactly; scattered points: 3..4 symbolic points in 1..2 dimensions, k = 1..3"
FUNCTIONS = ["interpolation.map_interpolator_regular_binning_2d", "interpolation.map_interpolator_regular_binning_3d", "interpolation.map_interpolator_knn", "interpolation._L2_dist2"]
ASSUMPTIONS = ["real arithmetic with float32 overflow to infinity; a query closer than 1e-3 to a node but not on it is only required to give a bounded value by the statement and is left out of the mean comparison"]
FORK = dict(fork_index=True)
LO = [-2.0, 1.0, 10.0]
BIN = [0.5, 2.0, 8.0]


def fn_of(d):
    import appletree.interpolation as I

    return {2: I.map_interpolator_regular_binning_2d, 3: I.map_interpolator_regular_binning_3d}[d]


def values(h, shape, lo=-1000, hi=1000):
    def rec(pre, rest):
        if not rest:
            return h.real("v" + "_".join(map(str, pre)), lo=lo, hi=hi)
        return [rec(pre + (i,), rest[1:]) for i in range(rest[0])]

    return rec((), shape)


def at(v, idx):
    for i in idx:
        v = v[i]
    return v


def inside(h, shape, symbolic):
    d = len(shape)
    if symbolic:
        lo = [h.real(f"lo{i}", lo=-100, hi=100) for i in range(d)]
        hi = [h.real(f"hi{i}", lo=-100, hi=100) for i in range(d)]
        for a, b in zip(lo, hi):
            h.assume(h.Sc(b) - a >= 0.125)
    else:
        lo, hi = LO[:d], [LO[i] + BIN[i] * (m - 1) for i, m in enumerate(shape)]
    v = values(h, shape)
    q = [h.real(f"q{i}", lo=-500, hi=500) for i in range(d)]
    bins = [(h.Sc(hi[i]) - lo[i]) / (m - 1) for i, m in enumerate(shape)]
    cell = []
    for i, m in enumerate(shape):
        h.assume(h.all(h.Sc(q[i]) >= lo[i], h.Sc(q[i]) < hi[i]))
        c = m - 2
        for k in range(m - 2):
            if h.path(h.Sc(q[i]) < bins[i] * (k + 1) + lo[i]):
                c = k
                break
        cell.append(c)
    corners = list(itertools.product((0, 1), repeat=d))
    dist = []
    for b in corners:
        s = h.sum([(h.Sc(q[i]) - (h.Sc(lo[i]) + bins[i] * (cell[i] + b[i]))) ** 2 for i in range(d)])
        h.assume(s >= 1e-6)
        dist.append(h.sqrt(s))
    out = fn_of(d)(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    h.check(h.shape(out) == (1,), "shape")
    o = h.S(out)[0]
    w = [1 / x for x in dist]
    vs = [at(v, [cell[i] + b[i] for i in range(d)]) for b in corners]
    h.check(o.finite, "finite")
    h.close(o, h.sum([a * b for a, b in zip(w, vs)]) / h.sum(w), "inverse-distance mean of the cell's corners")


def node(h, shape):
    d = len(shape)
    lo, hi = LO[:d], [LO[i] + BIN[i] * (m - 1) for i, m in enumerate(shape)]
    v = values(h, shape)
    k = h.pick("node", list(itertools.product(*[range(m) for m in shape])))
    q = [LO[i] + BIN[i] * k[i] for i in range(d)]
    out = fn_of(d)(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    o = h.S(out)[0]
    h.check(o.finite, "finite at node")
    h.close(o, at(v, k), "node value at node")


def bounded(h, shape, where, side):
    """Within the range of the values, wherever the query is."""
    d = len(shape)
    lo, hi = LO[:d], [LO[i] + BIN[i] * (m - 1) for i, m in enumerate(shape)]
    B = h.real("B", lo=-1000, hi=1000)
    v = values(h, shape, 0, 2000)  # distances of the values from the bound
    sg = 1 if side == "lower" else -1

    def shift(x):
        return [shift(y) for y in x] if isinstance(x, list) else B + sg * x

    v = shift(v)
    q = [h.real(f"q{i}", lo=-500, hi=500) for i in range(d)]
    if where == "outside":
        h.assume(h.any([h.any(h.Sc(q[i]) < lo[i], h.Sc(q[i]) >= hi[i]) for i in range(d)]))
    # exactly on the last corner or clearly away from every (also continued) node
    out = fn_of(d)(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    o = h.S(out)[0]
    h.check(o.finite, "finite " + where)
    if side == "lower":
        h.le(B, o, "not below the smallest value")
    else:
        h.le(o, B, "not above the largest value")


def knn(h, m, d, k):
    import appletree.interpolation as I

    pts = [[h.real(f"p{j}_{i}", lo=-100, hi=100) for i in range(d)] for j in range(m)]
    v = h.reals("v", m, lo=-1000, hi=1000)
    q = [h.real(f"q{i}", lo=-100, hi=100) for i in range(d)]
    d2 = [h.sum([(h.Sc(q[i]) - pts[j][i]) ** 2 for i in range(d)]) for j in range(m)]
    order = h.perm("order", range(m))  # distance order of the points
    for a, b in zip(order, order[1:]):
        h.assume(d2[b] - d2[a] >= 1e-3)
    h.assume(d2[order[0]] >= 1e-4)
    out = I.map_interpolator_knn(h.array([q]), h.array(pts), h.array(v), k)
    h.check(h.shape(out) == (1,), "shape")
    o = h.S(out)[0]
    h.check(o.finite, "finite")
    w = [1 / h.sqrt(d2[j]) for j in order[:k]]
    h.close(o, h.sum([a * h.Sc(v[j]) for a, j in zip(w, order)]) / h.sum(w), "inverse-distance mean of the k nearest points")


def knn_node(h, m, d, k):
    import appletree.interpolation as I

    pts = [[float((3 * j + 5 * i * j) % 7) for i in range(d)] for j in range(m)]
    v = h.reals("v", m, lo=-100, hi=100)
    n = h.pick("node", list(range(m)))
    out = I.map_interpolator_knn(h.array([pts[n]]), h.array(pts), h.array(v), k)
    o = h.S(out)[0]
    h.check(o.finite, "finite at reference point")
    h.close(o, v[n], "reference value at reference point", rtol=1e-3, atol=2e-3)


def instances(tier):
    big = tier == "thorough"
    out = []
    OV = dict(FORK, overflow=True)
    for s, sy in [((2, 3), False), ((3, 2), False), ((2, 2, 2), False)] + ([((2, 2), True), ((2, 2, 3), False)] if big else []):
        out.append(dict(name="inside_" + "x".join(map(str, s)) + ("s" if sy else ""), func=inside, params=dict(shape=s, symbolic=sy), opts=FORK))
    for s in ((2, 3), (3, 2), (2, 2, 3)):
        out.append(dict(name="node_" + "x".join(map(str, s)), func=node, params=dict(shape=s), opts=OV))
    for s in ((2, 3), (2, 2, 2)):
        for sd in ("lower", "upper"):
            out.append(dict(name="outside_" + "x".join(map(str, s)) + "_" + sd, func=bounded, params=dict(shape=s, where="outside", side=sd), opts=FORK))
    for m, d, k in [(3, 1, 2), (3, 2, 3), (3, 2, 1)] + ([(4, 2, 3), (4, 1, 3)] if big else []):
        out.append(dict(name=f"knn_{m}_{d}_{k}", func=knn, params=dict(m=m, d=d, k=k), opts=FORK))
    for m, d, k in [(4, 2, 3), (4, 3, 2)]:
        out.append(dict(name=f"knn_node_{m}_{d}_{k}", func=knn_node, params=dict(m=m, d=d, k=k), opts=FORK))
    return out
