"""P18: the lineage identifies what a simulation actually uses."""
import hashlib
import os

from checks.p14 import World
from checks.p17 import Kind, Const, Sets, Maps, Sigmas, give

BOUNDS = "1..3 likelihoods built in every order, values left at the default, given once for all or per likelihood, all numbers in constants and sets of constants, maps and uncertainty maps in every form; components that differ in one aspect at a time (any number of a constant or set, map file or content, scaler, bin edges and numbers of bins on 1..2 axes, kind of binning, rate name, normalisation, plugins, quantities, data file), built in the same or a fresh session; files up to 3 blocks"
ASSUMPTIONS = ["the hash function of strax is an injective function of the canonical record (the replay uses the real one)", "map files are not modified between building and recording"]
FUNCTIONS = ["component.ComponentSim.lineage", "component.ComponentFixed.lineage", "component.Component.lineage_hash", "component.ComponentSim.flush_source_code", "plugin.Plugin.lineage", "config.Constant.lineage", "config.ConstantSet.lineage", "config.Map.lineage", "config.SigmaMap.lineage", "likelihood.Likelihood.lineage", "likelihood.LikelihoodLit.lineage", "utils.calculate_sha256"]


class Record:
    """Stand-in of a hash: the canonical record itself."""

    def __init__(self, thing):
        self.c = self.conv(thing)

    @classmethod
    def conv(cls, x):
        from collections.abc import Mapping

        if isinstance(x, Record):
            return x.c
        if isinstance(x, Mapping):
            return ("map", tuple((str(k), cls.conv(v)) for k, v in sorted(x.items())))
        if isinstance(x, (str, bytes, bool, int, type(None))):
            return x
        if hasattr(x, "tolist") and getattr(x, "shape", None) not in (None, ()):
            return cls.conv(x.tolist())
        if isinstance(x, (list, tuple, set, frozenset)):
            return ("seq", tuple(cls.conv(v) for v in x))
        return x


def equal(h, a, b):
    if isinstance(a, Record):
        a, b = a.c, b.c
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return h.all(*[equal(h, x, y) for x, y in zip(a, b)])
    plain = (str, bytes, type(None))
    if isinstance(a, plain) or isinstance(b, plain):
        return type(a) is type(b) and a == b
    return h.same(a, b)


def stub(h):
    if not h.sym:
        return
    import sys
    import strax

    old = strax.deterministic_hash
    fake = lambda thing, length=10: Record(thing)
    h.patch(strax, "deterministic_hash", fake)
    h.patch(strax.utils, "deterministic_hash", fake)
    for n, m in list(sys.modules.items()):
        if n.startswith("appletree") and getattr(m, "deterministic_hash", None) is old:
            h.patch(m, "deterministic_hash", fake)


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def find(tree, key):
    """All entries of a name, anywhere in the record."""
    out = []
    if isinstance(tree, dict):
        for k, v in tree.items():
            if k == key:
                out.append(v)
            else:
                out += find(v, key)
    return out


def fresh():
    import appletree as apt

    apt.share.clear_cache()


def component(llh, classes, wanted=("x",), name="c", rate="", norm="", bins=None, bins_type=None):
    import appletree as apt

    kw = {} if bins_type is None else dict(bins=bins, bins_type=bins_type)
    c = apt.ComponentSim(name=name, llh_name=llh, **kw)
    c.rate_name, c.norm_type = rate, norm
    c.register(list(classes))
    c.deduce(data_names=list(wanted), func_name="simulate_" + name)
    c.compile()
    return c


def classes(w, *configs, first="Px", mid=False):
    a = w.plugin(first, ["x"], ["batch_size"], configs=configs)
    e = w.plugin("Pe", ["eff"], ["x"])
    return [a, e]


def judge(h, k, lin, v, label):
    if isinstance(k, Const):
        h.check(h.same(lin["value"], v), label)
    elif isinstance(k, Sets):
        h.check(isinstance(lin["value"], dict), label + ": names")
        if not isinstance(lin["value"], dict):
            return
        h.check(set(lin["value"]) == set(v[0]), label + ": names")
        for n, xs in zip(*v):
            got = list(h.S(lin["value"][n]).ravel())
            h.check(len(got) == len(xs), label + ": number of values")
            for a, b in zip(got, xs):
                h.check(h.same(a, b), label)
    elif isinstance(k, Sigmas):
        for part, f in zip(("median", "lower", "upper"), [v] * 3 if isinstance(v, str) else v[:3]):
            h.check(lin[part]["file_path"] == os.path.basename(f), label + ": file")
            h.check(lin[part]["sha256"] == sha(f), label + ": file hash")
    else:
        h.check(lin["file_path"] == os.path.basename(v), label + ": file")
        h.check(lin["sha256"] == sha(v), label + ": file hash")


KINDS = {"const": Const, "set": Sets, "map": Maps, "sigma": Sigmas}


def values(h, kind, nllh, way):
    """Every component reports the values it simulates with, whatever is built before and after it."""
    stub(h)
    k = KINDS[kind](h)
    k.forms = ("single", "four")
    default = k.make("default")
    w = World(h)
    cls = classes(w, k.config("conf", default))
    vals = give(h, k, "conf", way, "abc"[:nllh], "set")
    built = []
    for l in h.perm("order", list("abc"[:nllh])):
        c = component(l, cls)
        want = vals[l] if vals[l] is not None else default
        # the hash of a component alone in its session
        built.append((c, want, c.lineage_hash))
        for b, v, hs in built:
            got = find(b.lineage, "conf")
            h.check(len(got) == 1, "the configuration is recorded")
            judge(h, k, got[0], v, "its own value")
            h.check(equal(h, b.lineage_hash, hs), "other likelihoods do not change the hash")


def sessions(h, kind):
    """The same likelihood configured anew in a fresh session: the first component still reports what it uses."""
    stub(h)
    k = KINDS[kind](h)
    k.forms = ("single", "four")
    default = k.make("default")
    w = World(h)
    cls = classes(w, k.config("conf", default))
    v1 = give(h, k, "conf", h.pick("first", ["absent", "all", "each"]), "a", "set")["a"]
    c1 = component("a", cls)
    h1 = c1.lineage_hash
    fresh()
    v2 = give(h, k, "conf", h.pick("second", ["absent", "all"]), "a", "set")["a"]
    c2 = component("a", cls)
    for c, v in ((c1, v1), (c2, v2)):
        v = default if v is None else v
        got = find(c.lineage, "conf")
        h.check(len(got) == 1, "the configuration is recorded")
        judge(h, k, got[0], v, "its own value")
    h.check(equal(h, c1.lineage_hash, h1), "a later session does not change the hash")


def contents(h, k, v):
    """What identifies a value, as a record."""
    if isinstance(k, (Const, Sets)):
        return v
    if isinstance(v, str):
        return [[os.path.basename(v), sha(v)]] * 3 + [""] if isinstance(k, Sigmas) else [os.path.basename(v), sha(v)]
    return [[os.path.basename(f), sha(f)] for f in v[:3]] + [v[3] if len(v) == 4 else k.name + "_sigma"]


def differ_value(h, kind, where):
    """Two components alike but for one configuration value; equal hashes exactly for equal values."""
    stub(h)
    k = KINDS[kind](h)
    name = {"default": None}.get(where, "conf")
    w = World(h)
    va = k.make("va")
    if kind in ("map", "sigma"):
        vb = variant(h, k, va)
    else:
        vb = k.make("vb")
    hs = []
    import appletree as apt

    k.name = "conf"
    for i, v in enumerate((va, vb, va)):
        fresh()
        if where == "default":
            conf = k.config("conf", v)
        else:
            conf = k.config("conf", va)
            apt.set_global_config({"conf": v if where == "all" else {"a": v, "b": va}})
        cls = classes(w2(h), conf)
        hs.append((component("a", cls).lineage_hash, contents(h, k, v)))
    h.check(equal(h, hs[0][0], hs[2][0]), "the same component has the same hash")
    same = equal(h, Record(hs[0][1]), Record(hs[1][1]))
    h.check(h.implies(same, equal(h, hs[0][0], hs[1][0])), "equal values, equal hash")
    h.check(h.implies(h.not_(same), h.not_(equal(h, hs[0][0], hs[1][0]))), "different values, different hashes")


class w2(World):
    """Plugins without numbers of their own."""

    def plugin(self, name, provides, depends, parameters=(), configs=(), uses=()):
        import appletree as apt
        import appletree.plugins as P

        ns = {}
        exec(f"def simulate(self, key, parameters, {', '.join(depends)}):\n    return (key, {', '.join('0.0' for p in provides)})\n", ns)
        cls = type(name, (apt.Plugin,), {"depends_on": list(depends), "provides": list(provides), "parameters": tuple(parameters), "simulate": ns["simulate"]})
        if configs:
            cls = apt.takes_config(*configs)(cls)
        self.h.patch(P, name, cls)
        return cls


def variant(h, k, v):
    """The same value, or one that differs in one file name, one content, or the scaler."""
    h_ = h
    if isinstance(v, str):
        how = h.pick("variant", ["same", "content", "name"] + (["list"] if isinstance(k, Sigmas) else []))
        if how == "same":
            return v
        if how == "list":
            return [v, v, v]
        return other(h, k, v, how)
    how = h.pick("variant", ["same", "content", "name", "scaler", "default_scaler"])
    if how == "same":
        return list(v)
    if how in ("content", "name"):
        i = h.pick("part", [0, 1, 2])
        out = list(v)
        out[i] = other(h, k, v[i], how)
        return out
    return list(v[:3]) + (["another"] if how == "scaler" else [])


def other(h, k, f, how):
    import shutil

    if how == "content":
        d = os.path.join(h.tmp, "second")
        os.makedirs(d, exist_ok=True)
        new = os.path.join(d, os.path.basename(f))
        with open(f) as src, open(new, "w") as dst:
            dst.write(src.read() + " ")
        return new
    new = os.path.join(h.tmp, "renamed_" + os.path.basename(f))
    shutil.copy(f, new)
    return new


def binning(h, dims, counts):
    """Bin edges; hashes agree exactly when all edges do."""
    stub(h)
    hs, edges = [], []
    kind = h.pick("kinds", ["same", "other"])
    for j, ns in enumerate(counts):
        fresh()
        e = [[h.real(f"e{j}_{d}_{i}", lo=-100, hi=100) for i in range(n)] for d, n in enumerate(ns)]
        edges.append(e)
        cls = classes(w2(h))
        c = component("a", cls, bins=tuple(h.np_array(x) for x in e), bins_type=["irreg", "meshgrid"][j and kind == "other"])
        hs.append(c.lineage_hash)
    same = h.all(kind == "same", equal(h, Record(edges[0]), Record(edges[1])))
    h.check(h.implies(same, equal(h, hs[0], hs[1])), "equal binning, equal hash")
    h.check(h.implies(h.not_(same), h.not_(equal(h, hs[0], hs[1]))), "different binning, different hashes")


def jagged(h, n):
    """Two-dimensional irregular edges: one row of edges per column."""
    stub(h)
    hs, edges = [], []
    for j in range(2):
        fresh()
        x = [h.real(f"x{j}_{i}", lo=-9, hi=9) for i in range(n + 1)]
        y = [[h.real(f"y{j}_{i}_{m}", lo=-9, hi=9) for m in range(3)] for i in range(n)]
        edges.append([x, y])
        c = component("a", classes(w2(h)), bins=(h.np_array(x), h.np_array(y)), bins_type="irreg")
        hs.append(c.lineage_hash)
    same = equal(h, Record(edges[0]), Record(edges[1]))
    h.check(h.implies(same, equal(h, hs[0], hs[1])), "equal binning, equal hash")
    h.check(h.implies(h.not_(same), h.not_(equal(h, hs[0], hs[1]))), "different binning, different hashes")


def aspects(h):
    """Names, normalisation, plugins, quantities."""
    stub(h)
    hs, what = [], []
    for j in range(2):
        fresh()
        rate = h.pick(f"rate{j}", ["", "r1", "r2"])
        norm = h.pick(f"norm{j}", ["", "on_sim", "on_pdf"])
        hs.append(component("a", classes(w2(h)), rate=rate, norm=norm).lineage_hash)
        what.append((rate, norm))
    h.check(equal(h, hs[0], hs[1]) if what[0] == what[1] else h.not_(equal(h, hs[0], hs[1])), "rate name and normalisation are told apart")


def chains(h):
    """Plugin chains."""
    stub(h)
    import appletree as apt

    hs, what = [], []
    for j in range(2):
        fresh()
        w = w2(h)
        v = h.pick(f"chain{j}", ["plain", "renamed", "parameter", "longer", "two", "config", "depends"])
        conf = [apt.Constant(name="cf", default=1.0)] if v == "config" else []
        a = w.plugin("Py" if v == "renamed" else "Px", ["x", "y"] if v == "two" else ["x"], ["z"] if v == "longer" else ["batch_size"], parameters=["p"] if v == "parameter" else [], configs=conf)
        e = w.plugin("Pe", ["eff"], ["batch_size"] if v == "depends" else ["x"])
        cls = [a, e]
        if v == "longer":
            cls.append(w.plugin("Pz", ["z"], ["batch_size"]))
        hs.append(component("a", cls).lineage_hash)
        what.append(v)
    h.check(equal(h, hs[0], hs[1]) if what[0] == what[1] else h.not_(equal(h, hs[0], hs[1])), "plugin chains are told apart")


def fixed(h, full):
    """Components read from a file."""
    stub(h)
    import appletree as apt

    if full:
        h.patch(apt.utils, "FULL_PATH_LINEAGE", True)
    made = {}
    for n, text in (("d1.csv", "x,y\n1.0,2.0\n"), ("d2.csv", "x,y\n1.0,2.0\n"), ("sub/d1.csv", "x,y\n1.0,3.0\n"), ("sub2/d1.csv", "x,y\n1.0,2.0\n")):
        p = os.path.join(h.tmp, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        made[n] = p
    hs, what = [], []
    for j in range(2):
        f = made[h.pick(f"file{j}", list(made))]
        rate = h.pick(f"rate{j}", ["r1", "r2"])
        norm = "on_pdf"
        e = [h.real(f"e{j}_{i}", lo=-9, hi=9) for i in range(2)]
        kind = h.pick(f"kind{j}", ["irreg", "meshgrid"])
        c = apt.ComponentFixed(name="c", llh_name="a", file_name=f, bins=(h.np_array(e),), bins_type=kind)
        c.rate_name, c.norm_type = rate, norm
        lin = c.lineage
        h.check(lin["sha256"] == sha(f), "its file hash")
        h.check(lin["file_path"] == (f if full else os.path.basename(f)), "its file")
        hs.append(c.lineage_hash)
        what.append([f if full else os.path.basename(f), sha(f), rate, kind, e])
    same = equal(h, Record(what[0]), Record(what[1]))
    h.check(h.implies(same, equal(h, hs[0], hs[1])), "the same component, the same hash")
    h.check(h.implies(h.not_(same), h.not_(equal(h, hs[0], hs[1]))), "different components, different hashes")


def digest(h):
    """The file hash covers every byte, whatever the size."""
    import appletree as apt

    n = h.pick("size", [0, 1, 4095, 4096, 4097, 8192, 9000])
    p = os.path.join(h.tmp, "f.bin")
    data = bytearray(i % 251 for i in range(n))
    with open(p, "wb") as f:
        f.write(data)
    h.check(apt.utils.calculate_sha256(p) == hashlib.sha256(data).hexdigest(), "the hash of the whole file")


def likelihoods(h, lit, others):
    """Likelihoods that differ in one component's value, the data, or the configuration."""
    stub(h)
    import appletree as apt

    va, vb = h.real("va", lo=-5, hi=5), h.real("vb", lo=-5, hi=5)
    data = {}
    for n, text in (("d1.csv", "x\n1.0\n3.0\n"), ("d2.csv", "x\n1.0\n3.0\n"), ("sub/d1.csv", "x\n1.0\n2.0\n")):
        f = os.path.join(h.tmp, n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as o:
            o.write(text)
        data[n] = f
    hs, what, kept = [], [], []
    for j in range(2):
        fresh()
        w = w2(h)
        v = [va, vb][j]
        apt.set_global_config({"conf": {"lk": v, "other": 0.5}})
        qs = ["energy", "light_yield"] if lit else ["x"]
        cls = [w.plugin("Px", qs, ["batch_size"], configs=[apt.Constant(name="conf")]), w.plugin("Pe", ["eff"], [qs[0]])]

        def init(self, *a, **k):
            apt.ComponentSim.__init__(self, *a, **k)
            self.register(cls)

        Sim = type("Sim", (apt.ComponentSim,), {"norm_type": "on_pdf", "__init__": init})

        def build(name, f=None, edge=2.0):
            if lit:
                lk = apt.LikelihoodLit(name, bins_on=qs, variable_type="norm", logpdf_args=[["loc", "scale"], [[0.0, edge], [1.0, 2.0]]])
            else:
                lk = apt.Likelihood(name, data_file_name=f, bins_type="irreg", bins_on="x", bins=[[0.0, edge, 4.0]], clip=[0.0, 4.0])
            lk.register_component(Sim, "er")
            return lk

        edge = h.pick(f"edge{j}", [2.0, 2.5])
        f = data[h.pick(f"data{j}", list(data))] if not lit else None
        if others and h.flag(f"before{j}"):
            kept.append(build("other", data["d1.csv"]))
        lk = build("lk", f, edge)
        hs.append(lk.lineage_hash)
        if others and "other" not in apt.share._cached_functions:
            kept.append(build("other", data["d1.csv"]))
        h.check(equal(h, lk.lineage_hash, hs[-1]), "other likelihoods do not change the hash")
        got = find(lk["er"].lineage, "conf")
        h.check(len(got) == 1 and h.same(got[0]["value"], v), "its own value")
        if not lit:
            h.check(find(lk.lineage, "conf") and h.same(find(lk.lineage, "conf")[0]["value"], v), "recorded by the likelihood")
            h.check(lk.lineage["sha256"] == sha(f) and lk.lineage["file_path"] == os.path.basename(f), "its data")
        what.append([v, edge] + ([] if lit else [os.path.basename(f), sha(f)]))
    same = equal(h, Record(what[0]), Record(what[1]))
    h.check(h.implies(same, equal(h, hs[0], hs[1])), "the same likelihood, the same hash")
    h.check(h.implies(h.not_(same), h.not_(equal(h, hs[0], hs[1]))), "different likelihoods, different hashes")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts=dict(max_paths=6000)))

    for kd in KINDS:
        for way in ("absent", "all", "each"):
            add(values, f"values_{kd}_{way}_2", kind=kd, nllh=2, way=way)
            if big and (kd != "sigma" or way != "each"):
                add(values, f"values_{kd}_{way}_3", kind=kd, nllh=3, way=way)
        add(sessions, f"sessions_{kd}", kind=kd)
        for where in ("default", "all", "each"):
            add(differ_value, f"differ_{kd}_{where}", kind=kd, where=where)
    add(binning, "binning_1", dims=1, counts=[[3], [3]])
    add(binning, "binning_2", dims=2, counts=[[3, 2], [3, 2]])
    add(binning, "binning_shapes", dims=2, counts=[[3, 2], [2, 3]])
    add(binning, "binning_sizes", dims=1, counts=[[3], [4]])
    add(jagged, "jagged_2", n=2)
    add(aspects, "aspects")
    add(chains, "chains")
    add(fixed, "fixed", full=False)
    add(fixed, "fixed_full", full=True)
    add(digest, "digest")
    add(likelihoods, "likelihood", lit=False, others=False)
    add(likelihoods, "literature", lit=True, others=False)
    if big:
        add(likelihoods, "likelihood_others", lit=False, others=True)
    add(likelihoods, "literature_others", lit=True, others=True)
    return out
