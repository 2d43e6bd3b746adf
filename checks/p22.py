"""P22: linear and nearest-neighbour grid maps are exact, local and bounded."""
import itertools
from fractions import Fraction

BOUNDS = "2D grids up to 4x3, 3D grids up to 2x3x4 nodes, arbitrary node values in [-1000, 1000], arbitrary queries in [-500, 500]^d (inside and outside); grid limits symbolic (span in [1/8, 200]) on the 2D 2x3, 3x2 and 3D 2x2x2 grids, fixed unequal limits on the larger ones"
FUNCTIONS = ["interpolation.map_interpolator_regular_binning_bilinear_2d", "interpolation.map_interpolator_regular_binning_trilinear_3d", "interpolation.map_interpolator_regular_binning_nearest_neighbor_2d", "interpolation.map_interpolator_regular_binning_nearest_neighbor_3d"]
FORK = dict(fork_ite=True, fork_index=True)
FIX_LO = [-2.0, 1.0, 10.0]
FIX_BIN = [0.5, 2.0, 8.0]


def grid(h, shape, symbolic):
    """limits, node positions, nested node values"""
    lo, hi, nodes = [], [], []
    for d, m in enumerate(shape):
        if symbolic:
            a = h.real(f"lo{d}", lo=-100, hi=100)
            b = h.real(f"hi{d}", lo=-100, hi=100)
            h.assume(h.Sc(b) - a >= 0.125)
        else:
            a, b = FIX_LO[d], FIX_LO[d] + FIX_BIN[d] * (m - 1)
        lo.append(a)
        hi.append(b)
        nodes.append([h.Sc(a) + (h.Sc(b) - a) * i / (m - 1) for i in range(m)])

    def rec(pre, rest):
        if not rest:
            return h.real("v" + "_".join(map(str, pre)), lo=-1000, hi=1000)
        return [rec(pre + (i,), rest[1:]) for i in range(rest[0])]

    return lo, hi, nodes, rec((), shape)


def at(v, idx):
    for i in idx:
        v = v[i]
    return v


def query(h, lo, hi, nodes, lim=500):
    return [h.real(f"q{d}", lo=-lim, hi=lim) for d in range(len(lo))]


def lerp(h, shape, symbolic):
    import appletree.interpolation as I

    fn = {2: I.map_interpolator_regular_binning_bilinear_2d, 3: I.map_interpolator_regular_binning_trilinear_3d}[len(shape)]
    lo, hi, nodes, v = grid(h, shape, symbolic)
    q = query(h, lo, hi, nodes)
    out = fn(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    h.check(h.shape(out) == (1,), "shape")
    o = h.S(out)[0]
    h.check(o.finite, "finite")
    # weights of every node along every axis
    W = []
    for d, m in enumerate(shape):
        p = h.clip(q[d], lo[d], hi[d])
        t = (p - lo[d]) / (h.Sc(hi[d]) - lo[d]) * (m - 1)
        # split into cells: each path knows its cell
        c = m - 2
        for i in range(m - 2):
            if h.path(t < i + 1):
                c = i
                break
        f = t - c
        W.append((c, [1 - f, f]))
    want = h.sum(
        h.prod([W[d][1][b[d]] for d in range(len(shape))]) * at(v, [W[d][0] + b[d] for d in range(len(shape))])
        for b in itertools.product((0, 1), repeat=len(shape))
    )
    h.close(o, want, "multilinear blend of the cell's corners")
    for _, ws in W:  # with the blend this bounds the result by the corner values
        h.check(h.all(ws[0] >= 0, ws[0] <= 1, h.same(ws[0] + ws[1], 1)), "weights in [0, 1] summing to one")


def nodes_exact(h, shape):
    """At every node the node's value is returned."""
    import appletree.interpolation as I

    fn = {2: I.map_interpolator_regular_binning_bilinear_2d, 3: I.map_interpolator_regular_binning_trilinear_3d}[len(shape)]
    lo, hi, nodes, v = grid(h, shape, False)
    idx = list(itertools.product(*[range(m) for m in shape]))
    k = h.pick("node", idx)
    q = [FIX_LO[d] + FIX_BIN[d] * k[d] for d in range(len(shape))]
    out = fn(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    h.close(h.S(out)[0], at(v, k), "node value at node")


def nearest(h, shape, symbolic):
    import appletree.interpolation as I

    fn = {2: I.map_interpolator_regular_binning_nearest_neighbor_2d, 3: I.map_interpolator_regular_binning_nearest_neighbor_3d}[len(shape)]
    lo, hi, nodes, v = grid(h, shape, symbolic)
    q = query(h, lo, hi, nodes)
    out = fn(h.array([q]), h.array(lo), h.array(hi), h.array(v))
    h.check(h.shape(out) == (1,), "shape")
    o = h.S(out)[0]

    def tol(eps):
        near = []
        for d, m in enumerate(shape):
            ds = [h.abs(h.Sc(q[d]) - n) for n in nodes[d]]
            near.append([h.all(*[di <= dj + eps for dj in ds]) for di in ds])
        return h.any(
            *[h.all(h.same(o, at(v, k)), *[near[d][k[d]] for d in range(len(shape))]) for k in itertools.product(*[range(m) for m in shape])]
        )

    h.check_margin(tol(0), "value of the nearest node along every axis", lambda: tol(Fraction(1, 1000)))


def instances(tier):
    big = tier == "thorough"
    out = []
    S = [((2, 3), True), ((3, 2), True), ((4, 3), False), ((2, 3, 4), False)] + ([((2, 2, 2), True), ((3, 4, 2), False), ((4, 4), False)] if big else [])
    for s, sy in S:
        n = "x".join(map(str, s)) + ("s" if sy else "")
        out.append(dict(name="lerp_" + n, func=lerp, params=dict(shape=s, symbolic=sy), opts=FORK))
        out.append(dict(name="nn_" + n, func=nearest, params=dict(shape=s, symbolic=sy)))
    for s in ((3, 2), (2, 3, 2)):
        out.append(dict(name="nodes_" + "x".join(map(str, s)), func=nodes_exact, params=dict(shape=s)))
    return out
