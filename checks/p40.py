"""P40: irregular histograms are drawn bin by bin."""

BOUNDS = "1..3 columns of 1..3 bins each, every increasing edge, every content, as counts or densities, colour range given or not"
ASSUMPTIONS = ["matplotlib draws what it is given (stand-ins that record)"]
FUNCTIONS = ["utils.plot_irreg_histogram_2d"]


class Rect:
    def __init__(self, xy, width, height, **k):
        self.xy, self.width, self.height, self.k = xy, width, height, k


class Colour:
    def __init__(self, norm, value):
        self.norm, self.value = norm, value


class Norm:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax

    def __call__(self, v):
        return Colour(self, v)


class Mappable:
    def __init__(self, norm=None, cmap=None):
        self.norm, self.cmap = norm, cmap


class Canvas:
    """Axes and figure in one."""

    def __init__(self):
        self.patches, self.bars, self.x, self.y = [], [], None, None

    def add_patch(self, p):
        self.patches.append(p)

    def add_collection(self, c):
        self.patches.extend(c.patches)

    def colorbar(self, m, ax=None, label=None, **k):
        bar = Bar(m, label)
        self.bars.append(bar)
        return bar

    def set_xlim(self, lo, hi=None):
        self.x = (lo, hi) if hi is not None else tuple(lo)

    def set_ylim(self, lo, hi=None):
        self.y = (lo, hi) if hi is not None else tuple(lo)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Bar:
    def __init__(self, m, label):
        self.m, self.label = m, label

    def set_label(self, label):
        self.label = label


def stand_ins(h):
    import matplotlib as mpl
    import matplotlib.patches
    import matplotlib.pyplot as plt
    import appletree.utils as U

    c = Canvas()
    maps = []

    def cmap(v, **k):
        maps.append(v)
        return v

    h.patch(mpl.patches, "Rectangle", Rect)
    h.patch(U, "Rectangle", Rect)
    h.patch(mpl.colors, "Normalize", Norm)
    h.patch(plt, "Normalize", Norm)
    h.patch(mpl.cm, "ScalarMappable", Mappable)
    h.patch(mpl.cm, "RdBu_r", cmap)
    h.patch(plt, "subplot", lambda *a, **k: c)
    h.patch(plt, "gca", lambda *a, **k: c)
    h.patch(plt, "gcf", lambda *a, **k: c)
    h.patch(plt, "subplots", lambda *a, **k: (c, c))
    h.patch(plt, "colorbar", c.colorbar)
    return c


def drawn(h, nx, ny, density, limits, aslist):
    from appletree.utils import plot_irreg_histogram_2d

    c = stand_ins(h)
    bx = h.increasing("x", nx + 1, lo=-50, hi=50, gap=0.125)
    by = [h.increasing(f"y{i}_", ny + 1, lo=-50, hi=50, gap=0.125) for i in range(nx)]
    n = [h.reals(f"n{i}_", ny, lo=0, hi=1000) for i in range(nx)]
    k = {}
    if density is not None:
        k["density"] = density
    if "vmin" in limits:
        k["vmin"] = h.real("vmin", lo=-1, hi=1)
    if "vmax" in limits:
        k["vmax"] = h.real("vmax", lo=100, hi=2000)
    if aslist:
        ax = plot_irreg_histogram_2d(bx, by, n, **k)
    else:
        ax = plot_irreg_histogram_2d(h.np_array(bx), h.np_array(by), h.np_array(n), **k)
    h.check(ax is c, "the axes are returned")
    rects = c.patches
    h.check(len(rects) == nx * ny, "one rectangle per bin")
    if len(rects) != nx * ny:
        return
    shown = []
    where = []
    for i in range(nx):
        for j in range(ny):
            w, t = h.Sc(bx[i + 1]) - bx[i], h.Sc(by[i][j + 1]) - by[i][j]
            v = h.Sc(n[i][j]) / (w * t) if density else h.Sc(n[i][j])
            shown.append(v)
            where.append((bx[i], by[i][j], w, t, v))
    for r, (x, y, w, t, v) in zip(rects, where):
        got = list(h.S(r.xy).ravel()) if not isinstance(r.xy, tuple) else [h.Sc(q) for q in r.xy]
        h.check(len(got) == 2, "a corner")
        h.check(h.all(h.same(got[0], x), h.same(got[1], y)), "at the lower corner of its bin")
        h.close(h.Sc(r.width), w, "as wide as its bin")
        h.close(h.Sc(r.height), t, "as high as its bin")
        col = r.k.get("facecolor", r.k.get("fc", r.k.get("color")))
        h.check(isinstance(col, Colour), "coloured by its content")
        h.close(h.Sc(col.value), v, "coloured by its content")
    norms = {id(r.k.get("facecolor", r.k.get("fc", r.k.get("color"))).norm) for r in rects}
    h.check(len(norms) == 1 and len(c.bars) == 1 and id(c.bars[0].m.norm) in norms, "one colour scale, shown beside")
    nm = c.bars[0].m.norm
    h.close(h.Sc(nm.vmin), k["vmin"] if "vmin" in k else h.min(shown), "scale from the smallest value or as given")
    h.close(h.Sc(nm.vmax), k["vmax"] if "vmax" in k else h.max(shown), "scale to the largest value or as given")
    h.check(("bin size" in str(c.bars[0].label)) == bool(density), "described as what it shows")
    h.close(h.Sc(c.x[0]), bx[0], "the range covers all bins")
    h.close(h.Sc(c.x[1]), bx[-1], "the range covers all bins")
    h.close(h.Sc(c.y[0]), h.min([h.Sc(b[0]) for b in by]), "the range covers all bins")
    h.close(h.Sc(c.y[1]), h.max([h.Sc(b[-1]) for b in by]), "the range covers all bins")


def instances(tier):
    big = tier == "thorough"
    out = []
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2)] + ([(3, 2), (2, 3), (3, 3)] if big else [])
    for nx, ny in sizes:
        for d in (None, False, True):
            for lim in ((), ("vmin",), ("vmax",), ("vmin", "vmax")):
                if not big and (lim in (("vmin",), ("vmax",)) and (nx, ny) != (2, 1)):
                    continue
                nm = f"n{nx}x{ny}_{ {None: 'default', False: 'counts', True: 'density'}[d]}_{'_'.join(lim) or 'auto'}"
                out.append(dict(name=nm, func=drawn, params=dict(nx=nx, ny=ny, density=d, limits=lim, aslist=False), opts=dict(max_paths=5000)))
    for d in (False, True):
        out.append(dict(name=f"lists_{'density' if d else 'counts'}", func=drawn, params=dict(nx=2, ny=2, density=d, limits=(), aslist=True), opts=dict(max_paths=5000)))
    return out
