"""P42: a dumped lineage reads back as the lineage."""
import json
import os

from checks.p14 import World
from checks.p17 import Const, Sets, Maps, Sigmas, give
from checks.p18 import component, classes, find, fresh, sha

BOUNDS = "plugins, components, likelihoods (counts and literature) and contexts with options of every kind, at the default, given once or per likelihood, sets of up to 3 names and values; 1..2 axes with irregular, mesh or equiprobable bins; all values and edges; file names in full or not"
ASSUMPTIONS = ["the hash function returns some text"]
FUNCTIONS = ["utils.dump_lineage", "plugin.Plugin.lineage", "component.ComponentSim.lineage", "component.ComponentFixed.lineage", "likelihood.Likelihood.lineage", "likelihood.LikelihoodLit.lineage", "context.Context.lineage", "config.Constant.lineage", "config.ConstantSet.lineage", "config.Map.lineage", "config.SigmaMap.lineage"]
KINDS = {"const": Const, "set": Sets, "map": Maps, "sigma": Sigmas}


def reads_back(h, entity, label):
    from appletree.utils import dump_lineage

    path = os.path.join(h.tmp, "lineage.json")
    dump_lineage(path, entity)
    with open(path) as f:
        got = json.load(f)
    agree(h, got, entity.lineage, label)
    return got


def agree(h, a, b, label):
    """a: read from the file, b: the lineage."""
    if isinstance(b, dict) or hasattr(b, "keys"):
        h.check(isinstance(a, dict) and set(a) == {str(k) for k in b}, label + ": entries")
        for k in b:
            agree(h, a[str(k)], b[k], label)
    elif isinstance(b, (list, tuple)) or getattr(b, "shape", ()) != ():
        b = list(b)
        h.check(isinstance(a, list) and len(a) == len(b), label + ": lengths")
        for x, y in zip(a, b):
            agree(h, x, y, label)
    elif isinstance(b, (str, bool, type(None))):
        h.check(type(a) is type(b) and a == b, label)
    else:
        h.check(not isinstance(a, (str, list, dict, type(None))), label)
        h.check(h.same(a, b), label)


def given_value(h, k, got, v, label):
    if isinstance(k, Const):
        h.check(h.same(got["value"], v), label)
    elif isinstance(k, Sets):
        h.check(set(got["value"]) == set(v[0]), label + ": names")
        for n, xs in zip(*v):
            h.check(len(got["value"][n]) == len(xs), label + ": number")
            for a, b in zip(got["value"][n], xs):
                h.check(h.same(a, b), label)
    elif isinstance(k, Sigmas):
        for part, f in zip(("median", "lower", "upper"), [v] * 3 if isinstance(v, str) else v[:3]):
            h.check(got[part]["sha256"] == sha(f), label)
    else:
        h.check(got["sha256"] == sha(v), label)


def hashes(h):
    import sys
    import strax

    old = strax.deterministic_hash
    fake = lambda thing, length=10: "digest"
    h.patch(strax, "deterministic_hash", fake)
    h.patch(strax.utils, "deterministic_hash", fake)
    for n, m in list(sys.modules.items()):
        if n.startswith("appletree") and getattr(m, "deterministic_hash", None) is old:
            h.patch(m, "deterministic_hash", fake)


def simulated(h, kind, way, full, dims=None, size=None):
    """Plugins and simulated components."""
    import appletree as apt

    if full:
        h.patch(apt.utils, "FULL_PATH_LINEAGE", True)
    k = KINDS[kind](h)
    k.forms = ("single", "three", "four")
    if size:
        k.m, k.n_ = size
    default = k.make("default")
    w = World(h)
    cls = classes(w, k.config("conf", default))
    v = give(h, k, "conf", way, "ab", "set")["a"]
    v = default if v is None else v
    kw = {}
    if dims:
        bins = tuple(h.np_array(h.increasing(f"edge{i}_", 3, lo=-9, hi=9, gap=0.25)) for i in range(dims))
        kw = dict(bins=bins, bins_type=h.pick("bins", ["irreg", "meshgrid"]))
    c = component("a", cls, name="er", rate="er_rate", norm="on_pdf", **kw)
    component("b", cls, name="er")
    got = reads_back(h, c, "component")
    mine = find(got, "conf")
    h.check(len(mine) == 1, "the option is recorded")
    given_value(h, k, mine[0], v, "its own value")
    for p in c.instances:
        reads_back(h, c._namespace[p], "plugin")


def fixed(h, dims):
    import appletree as apt

    f = os.path.join(h.tmp, "d.csv")
    with open(f, "w") as o:
        o.write("x,y\n1.0,2.0\n")
    kw = {}
    if dims:
        kw = dict(bins=tuple(h.np_array(h.increasing(f"edge{i}_", 3, lo=-9, hi=9, gap=0.25)) for i in range(dims)), bins_type=h.pick("bins", ["irreg", "meshgrid"]))
    c = apt.ComponentFixed(name="ac", llh_name="a", file_name=f, **kw)
    c.rate_name, c.norm_type = "ac_rate", "on_pdf"
    got = reads_back(h, c, "fixed component")
    h.check(got["sha256"] == sha(f), "its data")


def sim_class(h, w, qs, conf):
    import appletree as apt

    cls = [w.plugin("Px", qs, ["batch_size"], configs=[conf]), w.plugin("Pe", ["eff"], [qs[0]])]

    def init(self, *a, **k):
        apt.ComponentSim.__init__(self, *a, **k)
        self.register(cls)

    return type("Sim", (apt.ComponentSim,), {"norm_type": "on_pdf", "__init__": init})


def settings(h, dims, bins):
    qs = ["x", "y"][:dims]
    f = os.path.join(h.tmp, "data.csv")
    with open(f, "w") as o:
        o.write("x,y\n1.0,1.5\n2.0,0.5\n3.0,2.5\n2.5,3.0\n")
    cfg = dict(data_file_name=f, bins_type=bins, bins_on=qs if dims == 2 or h.flag("list") else "x")
    if bins == "equiprob":
        cfg["bins"] = [2] * dims
    elif bins == "meshgrid" and h.flag("numbers"):
        cfg["bins"] = [3] * dims
    elif bins == "irreg" and dims == 2:
        cfg["bins"] = [[0.0, 2.25, 4.0], [[0.0, 1.0, 4.0], [0.0, 2.75, 4.0]]]
    else:
        cfg["bins"] = [[0.0, 2.25, 4.0]] * dims
    if dims == 2:
        cfg["x_clip"], cfg["y_clip"] = [0.0, 4.0], [0.0, 4.0]
    else:
        cfg["clip"] = [0.0, 4.0]
    return qs, f, cfg


def likelihood(h, kind, way, dims, bins, lit):
    import warnings

    import appletree as apt

    hashes(h)
    k = KINDS[kind](h)
    k.forms = ("single", "four")
    default = k.make("default")
    w = World(h)
    v = give(h, k, "conf", way, "ab", "set")["a"]
    v = default if v is None else v
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if lit:
            qs = ["energy", "light_yield"]
            loc = h.reals("loc", 2, lo=-9, hi=9)
            lk = apt.LikelihoodLit("a", bins_on=qs, variable_type="norm", logpdf_args=[["loc", "scale"], [loc, [1.0, 2.0]]])
        else:
            qs, f, cfg = settings(h, dims, bins)
            lk = apt.Likelihood("a", **cfg)
        lk.register_component(sim_class(h, w, qs, k.config("conf", default)), "er")
    got = reads_back(h, lk, "likelihood")
    if lit:
        h.check(got["components"] == {"er": "digest"}, "its components")
        return
    h.check(got["sha256"] == sha(f), "its data")
    mine = find(got, "conf")
    h.check(len(mine) == 1, "the option is recorded")
    given_value(h, k, mine[0], v, "its own value")


def context(h, kind, dims, bins):
    import warnings

    import appletree as apt
    import appletree.components as C

    hashes(h)
    k = KINDS[kind](h)
    k.forms = ("single", "four")
    default = k.make("default")
    w = World(h)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        qs, f, cfg = settings(h, dims, bins)
        h.patch(C, "Sim", sim_class(h, w, qs, k.config("conf", default)))
        mean = h.real("mean", lo=1, hi=9)
        par = lambda m: {"prior_type": "norm", "prior_args": {"mean": m, "std": 1.0}, "allowed_range": [0.0, 10.0], "init_mean": 1.0, "init_std": 0.5, "unit": "1", "doc": "x"}
        ins = {
            "configs": {"conf": k.fresh()} if h.flag("given") else {},
            "par_config": h.json_file("pars.json", {"er_rate": par(mean)}),
            "likelihoods": {"a": {"components": {"er": "Sim"}, "copy_parameters": {}, **cfg}},
        }
        ctx = apt.Context(ins)
    got = reads_back(h, ctx, "context")
    h.check(h.same(got["par_config"]["er_rate"]["prior_args"]["mean"], mean), "its parameters")
    h.check(set(got["likelihoods"]) == {"a"} and got["likelihoods"]["a"]["sha256"] == sha(f), "its likelihoods")
    mine = find(got["likelihoods"], "conf")
    h.check(len(mine) == 1, "the option is recorded")
    given_value(h, k, mine[0], ins["configs"].get("conf", default), "its value")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(name, func, **params):
        out.append(dict(name=name, func=func, params=params, opts=dict(max_paths=6000)))

    for kind in KINDS:
        for way in ("absent", "all", "each"):
            add(f"component_{kind}_{way}", simulated, kind=kind, way=way, full=False)
        add(f"component_{kind}_full", simulated, kind=kind, way="all", full=True)
        add(f"component_{kind}_bins1", simulated, kind=kind, way="each", full=False, dims=1)
        if big:
            add(f"component_{kind}_bins2", simulated, kind=kind, way="absent", full=True, dims=2)
            add(f"component_{kind}_large", simulated, kind=kind, way="each", full=False, size=(3, 3))
        add(f"literature_{kind}", likelihood, kind=kind, way="each", dims=2, bins=None, lit=True)
        add(f"context_{kind}", context, kind=kind, dims=1, bins="irreg")
    add("component_set_2", simulated, kind="set", way="all", full=False, dims=2, size=(3, 1))
    for dims in (1, 2):
        add(f"fixed_{dims}", fixed, dims=dims)
    for dims in (1, 2):
        for bins in ("irreg", "meshgrid", "equiprob"):
            add(f"likelihood_{bins}_{dims}", likelihood, kind="set", way="all", dims=dims, bins=bins, lit=False)
            if big or dims == 2:
                add(f"context_set_{bins}_{dims}", context, kind="set" if big and dims == 1 else "const", dims=dims, bins=bins)
    return out
