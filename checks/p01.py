"""P01: every weighted event is counted in exactly the bin that contains it."""

BOUNDS = "1D: up to 3 events x 3 bins, 2D irregular: up to 2 events x (2..3 x 2..3) bins, mesh: up to 2 events, 1-2 axes with 1..3 bins; edges increasing by >= 1/1000, |values| <= 1000; 2D edges differ per x column"
FUNCTIONS = ["hist.make_hist_irreg_bin_1d", "hist.make_hist_irreg_bin_2d", "hist.make_hist_mesh_grid"]
LIM = dict(lo=-1000, hi=1000)


def irreg1d(h, n, m):
    import appletree as apt

    edges = h.increasing("e", m + 1, **LIM)
    xs = h.reals("x", n, lo=-2000, hi=2000)
    ws = h.reals("w", n, **LIM)
    out = apt.hist.make_hist_irreg_bin_1d(h.array(xs), bins=h.array(edges), weights=h.array(ws))
    want = [h.sum(h.ite(h.all(h.Sc(e0) < x, h.Sc(x) <= e1), w, 0) for x, w in zip(xs, ws)) for e0, e1 in zip(edges, edges[1:])]
    h.eq_list(out, want, "bin content")


def irreg2d(h, n, mx, my):
    import appletree as apt

    ex = h.increasing("ex", mx + 1, **LIM)
    ey = [h.increasing(f"ey{i}_", my + 1, **LIM) for i in range(mx)]
    xs = h.reals("x", n, lo=-2000, hi=2000)
    ys = h.reals("y", n, lo=-2000, hi=2000)
    ws = h.reals("w", n, **LIM)
    s = h.array([[x, y] for x, y in zip(xs, ys)])
    out = apt.hist.make_hist_irreg_bin_2d(s, bins_x=h.array(ex), bins_y=h.array(ey), weights=h.array(ws))
    want = [
        [
            h.sum(
                h.ite(h.all(h.Sc(ex[i]) < x, h.Sc(x) <= ex[i + 1], h.Sc(ey[i][j]) < y, h.Sc(y) <= ey[i][j + 1]), w, 0)
                for x, y, w in zip(xs, ys, ws)
            )
            for j in range(my)
        ]
        for i in range(mx)
    ]
    h.eq_list(out, want, "bin content")


def mesh(h, n, ms):
    import appletree as apt
    import itertools

    es = [h.increasing(f"e{d}_", m + 1, **LIM) for d, m in enumerate(ms)]
    vs = [h.reals(f"v{d}_", n, lo=-2000, hi=2000) for d in range(len(ms))]
    ws = h.reals("w", n, **LIM)
    s = h.array([[v[i] for v in vs] for i in range(n)])
    out = apt.hist.make_hist_mesh_grid(s, bins=tuple(h.array(e) for e in es), weights=h.array(ws))
    h.check(tuple(h.shape(out)) == tuple(ms), "shape")
    for b in itertools.product(*[range(m) for m in ms]):
        t = []
        for i in range(n):
            c = []
            for d, j in enumerate(b):
                v, lo, hi = h.Sc(vs[d][i]), es[d][j], es[d][j + 1]
                c.append(h.all(v >= lo, v <= hi if j == ms[d] - 1 else v < hi))
            t.append(h.ite(h.all(*c), ws[i], 0))
        h.close(h.S(out)[b], h.sum(t), "bin content")


def instances(tier):
    big = tier == "thorough"
    out = []
    for n, m in [(1, 1), (2, 2), (3, 3)] + ([(4, 4), (3, 6)] if big else []):
        out.append(dict(name=f"irreg1d_{n}_{m}", func=irreg1d, params=dict(n=n, m=m)))
    for n, mx, my in [(1, 2, 3), (2, 3, 2), (2, 2, 2)] + ([(3, 3, 3), (2, 4, 3)] if big else []):
        out.append(dict(name=f"irreg2d_{n}_{mx}_{my}", func=irreg2d, params=dict(n=n, mx=mx, my=my)))
    for n, ms in [(1, (1,)), (2, (3,)), (1, (2, 3)), (2, (2, 2))] + ([(2, (3, 3)), (3, (2, 3))] if big else []):
        out.append(dict(name=f"mesh_{n}_{'x'.join(map(str, ms))}", func=mesh, params=dict(n=n, ms=ms)))
    return out
