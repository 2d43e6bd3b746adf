"""Components whose simulation and loaded data are unknown columns."""
import itertools

import numpy as np


class Frame:
    """Stand-in of the data frame read from a file: unknown columns."""

    def __init__(self, h, cols):
        self.h, self.cols = h, cols

    def __getitem__(self, names):
        if isinstance(names, str):
            return self.h.np_array(self.cols[names])
        return Frame(self.h, {n: self.cols[n] for n in names})

    @property
    def columns(self):
        return list(self.cols)

    def __len__(self):
        return len(next(iter(self.cols.values())))

    def to_numpy(self):
        return self.h.np_array([list(r) for r in zip(*self.cols.values())])

    values = property(to_numpy)


def install(h, frames):
    """pandas reads the given unknown columns; frames: {path: {column: values}}."""
    import os

    import pandas as pd

    paths = {}
    for name, cols in frames.items():
        p = os.path.join(h.tmp, name)
        with open(p, "w") as f:
            f.write("stand-in\n")
        paths[name] = p

    def read(path, *a, **k):
        return Frame(h, frames[os.path.basename(path)])

    h.patch(pd, "read_csv", read)
    h.patch(pd, "read_pickle", read)
    return paths


def sim_class(h, calls, columns, base=None, **attrs):
    """A ComponentSim whose simulation returns columns(call index) and the next key."""
    import appletree as apt

    count = [0]

    class Sim(base or apt.ComponentSim):
        def deduce(self, data_names=None, func_name="simulate", **k):
            self.deduced = dict(data_names=list(data_names), func_name=func_name)
            self.needed_parameters = {self.rate_name} | set(attrs.get("needs", ()))

        def compile(self):
            pass

        def simulate(self, key, batch_size, parameters):
            count[0] += 1
            out = h.key(f"{self.llh_name}_{self.name}_{count[0]}")
            cols = columns(self.name, len(calls))
            calls.append(dict(comp=self, key=key, batch=batch_size, parameters=dict(parameters), out=out, cols=cols))
            return out, [h.array(c) for c in cols]

    for k, v in attrs.items():
        if k != "needs":
            setattr(Sim, k, v)
    return Sim


def outer(h, bins):
    """Outer limits per axis."""
    out = []
    for b in bins:
        if isinstance(b[0], (list, tuple)):
            out.append((h.min(*[c[0] for c in b]), h.max(*[c[-1] for c in b])))
        else:
            out.append((h.Sc(b[0]), h.Sc(b[-1])))
    return out


def content(h, kind, bins, rows, weights):
    """Weighted counts per bin: what P01 establishes for the histogram functions. Nested lists of axes."""
    if kind == "irreg" and len(bins) == 1:
        e = bins[0]
        return [h.sum(h.ite(h.all(h.Sc(a) < r[0], h.Sc(r[0]) <= b), w, 0) for r, w in zip(rows, weights)) for a, b in zip(e, e[1:])]
    if kind == "irreg":
        ex, ey = bins
        return [
            h.sum(h.ite(h.all(h.Sc(ex[i]) < r[0], h.Sc(r[0]) <= ex[i + 1], h.Sc(ey[i][j]) < r[1], h.Sc(r[1]) <= ey[i][j + 1]), w, 0) for r, w in zip(rows, weights))
            for i in range(len(ex) - 1)
            for j in range(len(ey[i]) - 1)
        ]
    out = []
    for ix in itertools.product(*[range(len(e) - 1) for e in bins]):
        t = []
        for r, w in zip(rows, weights):
            c = []
            for d, j in enumerate(ix):
                v, e = h.Sc(r[d]), bins[d]
                c.append(h.all(v >= e[j], v <= e[j + 1] if j == len(e) - 2 else v < e[j + 1]))
            t.append(h.ite(h.all(*c), w, 0))
        out.append(h.sum(t))
    return out


BIN_CASES = {
    "irreg1": ("irreg", (3,)),
    "irreg2": ("irreg", (2, 2)),
    "mesh1": ("meshgrid", (2,)),
    "mesh2": ("meshgrid", (2, 2)),
}


def bins_of(h, case, symbolic=True):
    """(bins_type, nested lists of edges)"""
    kind, sizes = BIN_CASES[case]
    lim = dict(lo=-100, hi=100)
    if not symbolic:
        if case == "irreg2":
            return kind, [[0.0, 1.0, 2.5], [[0.0, 1.0, 3.0], [-1.0, 0.5, 2.0]]]
        return kind, [[0.0, 1.0, 2.5, 4.0][: m + 1] for m in sizes]
    if case == "irreg2":
        return kind, [h.increasing("ex", 3, **lim), [h.increasing(f"ey{i}_", 3, **lim) for i in range(2)]]
    return kind, [h.increasing(f"e{d}_", m + 1, **lim) for d, m in enumerate(sizes)]


def arrays(h, bins):
    return tuple(h.np_array(b) for b in bins)


def ncell(bins):
    if isinstance(bins[-1][0], (list, tuple)):
        return sum(len(b) - 1 for b in bins[1])
    return int(np.prod([len(b) - 1 for b in bins]))


def floor_of(h, weights):
    return h.sum(weights) / len(weights) + 1e-10


def template(h, kind, bins, rows, weights, floor):
    c = content(h, kind, bins, rows, weights)
    if floor:
        f = floor_of(h, weights)
        c = [h.max(x, f) for x in c]
    return c
