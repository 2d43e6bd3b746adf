"""P39: dependency graphs and option listings show exactly what is computed."""
import itertools
import os

BOUNDS = "4..5 plugins of one or two outputs in every acyclic dependency structure over them, also taking the number of events beside other inputs, inputs and requested quantities in any order, overridden outputs, plugins that are not needed; 0..2 options per plugin, with and without default, shared by several plugins, left at the default or given once or per likelihood, all option values"
ASSUMPTIONS = ["graphviz and pandas are replaced by stand-ins that record what they are given"]
FUNCTIONS = ["utils.add_deps_to_graph_tree", "utils.add_plugins_to_graph_tree", "component.ComponentSim.show_config", "component.ComponentSim.save_code", "component.ComponentSim.dependencies_deduce", "profiler.print_worksheet"]


class Graph:
    def __init__(self):
        self.nodes, self.edges = [], []

    def node(self, name, label=None, **k):
        self.nodes.append((name, label))

    def edge(self, tail, head, **k):
        self.edges.append((tail, head))


def plugin(h, name, provides, depends, configs=()):
    import appletree as apt
    import appletree.plugins as P

    ns = {}
    exec(f"def simulate(self, key, parameters, {', '.join(depends)}):\n    return (key, {', '.join('0.0' for _ in provides)})\n", ns)
    cls = type(name, (apt.Plugin,), {"depends_on": list(depends), "provides": list(provides), "parameters": (), "simulate": ns["simulate"]})
    if configs:
        cls = apt.takes_config(*configs)(cls)
    h.patch(P, name, cls)
    return cls


def structure(h, two, override, reach=2):
    """Plugins over the quantities a, b, c, d (later ones depend on some of the earlier ones)."""
    names = ["a", "b", "c", "d"]
    made, owner, depends = [], {}, {}

    def add(name, provides, depends_on, **k):
        cls = plugin(h, name, provides, depends_on, **k)
        made.append(cls)
        for p in provides:
            owner[p] = name
        depends[name] = list(depends_on)

    add("Qa", ["a", "a2"] if two else ["a"], ["batch_size"])
    pool = ["a", "a2"] if two else ["a"]
    for n in names[1:]:
        ins = [p for p in pool[-reach:] if h.flag(f"{n}_on_{p}")]
        if not ins:
            ins = ["batch_size"]
        if len(ins) > 1 and h.flag(n + "_reversed"):
            ins = ins[::-1]
        if n == "c" and not override and ins != ["batch_size"]:
            # also takes the number of events itself
            at = h.pick("size_for_c", [None, 0, len(ins)])
            if at is not None:
                ins.insert(at, "batch_size")
        add("Q" + n, [n], ins)
        pool.append(n)
    if override:
        add("Qo", [override], ["batch_size"] if override[0] == "a" else ["a"])
    return made, owner, depends


def needed(owner, depends, wanted):
    seen, stack = [], list(wanted)
    while stack:
        q = stack.pop()
        if q in seen:
            continue
        seen.append(q)
        if q != "batch_size":
            stack += depends[owner[q]]
    return set(seen)


def component(llh="l", name="er"):
    import appletree as apt

    return apt.ComponentSim(name=name, llh_name=llh)


def graphs(h, two, override, labelled, reach=2):
    from appletree.utils import add_deps_to_graph_tree, add_plugins_to_graph_tree

    made, owner, depends = structure(h, two, override, reach)
    comp = component()
    for m in made:
        comp.register(m)
    wanted = h.pick("wanted", [["d"], ["c", "d"], ["d", "b", "a"], ["b"]])
    want = needed(owner, depends, wanted)
    if labelled is None:
        g = Graph()
        out = add_deps_to_graph_tree(comp, g, data_names=list(wanted))
        h.check(out[0] is g, "the graph is handed on")
        got = [n for n, _ in g.nodes]
        h.check(set(got) == want, "every quantity needed, no other")
        h.check(all(got.count(q) == 1 for q in want if q != "batch_size"), "every quantity once")
        edges = sorted((q, d) for q in want if q != "batch_size" for d in depends[owner[q]])
        h.check(sorted(g.edges) == edges, "one arrow per dependency, no other")
        return
    g = Graph()
    out = add_plugins_to_graph_tree(comp, g, data_names=list(wanted), with_data_names=labelled)
    h.check(out[0] is g, "the graph is handed on")
    plugins = {owner[q] for q in want if q != "batch_size"}
    got = [n for n, _ in g.nodes]
    h.check(set(got) == plugins, "every plugin needed, no other")
    h.check(len(got) == len(plugins), "every plugin once")
    arrows = {(p, owner[d]) for p in plugins for d in depends[p] if d != "batch_size"}
    h.check(set(g.edges) == arrows, "an arrow for every dependency, no other")
    by_name = {m.__name__: m for m in made}
    for n, label in g.nodes:
        if labelled:
            lines = str(label).split("\n")
            h.check(lines[0] == n and [x.split(", ") for x in lines[1:]] == [list(by_name[n].depends_on), list(by_name[n].provides)], "labelled with its own quantities")
        else:
            h.check(label in (None, n), "labelled with its name only")


class Frame:
    """Stand-in data frame."""

    def __init__(self, rows=(), columns=None, **k):
        if isinstance(rows, dict):
            n = max([len(v) for v in rows.values()], default=0)
            rows = [{c: v[i] for c, v in rows.items()} for i in range(n)]
        self.rows = [dict(r) if isinstance(r, dict) else dict(zip(columns, r)) for r in rows]
        self.columns = list(columns) if columns is not None else list(self.rows[0]) if self.rows else []

    from_records = classmethod(lambda cls, rows, columns=None, **k: cls(rows, columns))
    style = property(lambda self: self)

    def __len__(self):
        return len(self.rows)


def options(h, way, two, override, after):
    """What is listed is what the plugins needed take, with the value the likelihood uses."""
    import appletree as apt
    import appletree.component as C
    from appletree.config import OMITTED

    h.patch(C.pd, "DataFrame", Frame)
    dv = {n: h.real("default_" + n, lo=-9, hi=9) for n in ("o1", "o3")}
    help_ = {n: f"help of {n}" for n in ("o1", "o2", "o3", "o4")}
    conf = {n: (lambda n=n: apt.Constant(name=n, help=help_[n], **({"default": dv[n]} if n in dv else {}))) for n in help_}
    takes = {"Qa": ["o1"], "Qb": ["o2", "o3"], "Qc": [], "Qd": ["o1"], "Qo": ["o4"]}
    spec = {"Qa": (["a", "a2"] if two else ["a"], ["batch_size"]), "Qb": (["b"], ["a2", "a"] if two else ["a"]), "Qc": (["c"], ["b"] if h.flag("c_on_b") else ["a"]), "Qd": (["d"], ["a"])}
    if override:
        spec["Qo"] = ([override], ["batch_size"])
    comp = component("lk")
    owner, depends = {}, {}
    for n in spec:
        cls = plugin(h, n, *spec[n], configs=[conf[o]() for o in takes[n]])
        comp.register(cls)
        for p in spec[n][0]:
            owner[p] = n
        depends[n] = spec[n][1]
    given = {}
    for n in help_:
        if way == "none":
            continue
        v = h.real("value_" + n, lo=-9, hi=9)
        if way == "each":
            both = {"lk": v, "other": 0.5}
            apt.set_global_config({n: dict(reversed(both.items())) if n in ("o1", "o2") else both})
        else:
            apt.set_global_config({n: v})
        given[n] = v
    wanted = h.pick("wanted", [["c"], ["d", "c"], ["d"], ["b", "d"]])
    plugins = {owner[q] for q in needed(owner, depends, wanted) if q != "batch_size"}
    if after and (way != "none" or not plugins & {"Qb", "Qo"}):
        comp.deduce(data_names=list(wanted), func_name="er", force_no_eff=True)
        comp.compile()
        for n in {o for p in plugins for o in takes[p]}:
            given.setdefault(n, dv.get(n))
    df = comp.show_config(data_names=list(wanted))
    rows = list(df.rows)
    expect = [(o, tuple(spec[p][0])) for p in plugins for o in takes[p]]
    h.check(sorted((r["option"], tuple(r["applies_to"])) for r in rows) == sorted(expect), "every option of every plugin needed once, no other")
    for r in rows:
        o = r["option"]
        if o not in help_:
            continue
        if o in dv:
            h.check(h.same(r["default"], dv[o]), "default of the option")
        else:
            h.check(r["default"] is OMITTED, "no default")
        if o in given:
            h.check(r["current"] is not None and h.same(r["current"], given[o]), "current value of the likelihood")
        else:
            h.check(r["current"] is None, "no current value")
        h.check(r["help"] == help_[o], "its description")


def printed(h, two, override, reach=2):
    """Worksheet and code show what is executed."""
    import contextlib
    import io

    from appletree.profiler import print_component_code, print_worksheet

    made, owner, depends = structure(h, two, override, reach)
    comp = component()
    for m in made:
        comp.register(m)
    wanted = h.pick("wanted", [["d"], ["c", "d"], ["b"]])
    comp.deduce(data_names=list(wanted), func_name="er_simulation", force_no_eff=True)
    plugins = {owner[q] for q in needed(owner, depends, wanted) if q != "batch_size"}
    by_name = {m.__name__: m for m in made}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_worksheet(comp)
    lines = [l.split() for l in out.getvalue().splitlines()]
    rows = [l for l in lines if l and l[0].isdigit()]
    h.check([int(l[0]) for l in rows] == list(range(1, len(plugins) + 1)), "steps are numbered")
    h.check({l[1] for l in rows} == plugins, "every plugin executed, no other")
    for l in rows:
        m = by_name.get(l[1])
        if m is None:
            continue
        rest = " ".join(l[2:])
        h.check(rest == ", ".join(m.provides) + " " + ", ".join(m.depends_on), "with its quantities")
    done = {"batch_size"}
    for l in rows:
        h.check(l[1] in by_name and all(d in done for d in by_name[l[1]].depends_on), "after what it depends on")
        done |= {p for p in by_name[l[1]].provides if owner[p] == l[1]}
    path = os.path.join(h.tmp, "code.py")
    comp.save_code(path)
    with open(path) as f:
        h.check(f.read() == comp.code, "the code saved is the code of the simulation")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_component_code(comp)
    h.check(comp.code in out.getvalue(), "the code printed is the code of the simulation")
    ns = {}
    with open(path) as f:
        exec(f.read(), ns)
    h.check(callable(ns.get("er_simulation")), "the saved code defines the simulation")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(name, func, **params):
        out.append(dict(name=name, func=func, params=params, opts=dict(max_paths=20000)))

    for two in (False, True):
        for o in (None, "b") + (("a2", "a") if two else ("a",)):
            if not big and two and o == "b":
                continue
            t = f"{'two' if two else 'one'}_{o}"
            add("quantities_" + t, graphs, two=two, override=o, labelled=None)
            for l in (False, True):
                add(f"plugins_{t}_{'labels' if l else 'names'}", graphs, two=two, override=o, labelled=l)
            add("printed_" + t, printed, two=two, override=o)
            if big:
                add(f"quantities_{t}_wide", graphs, two=two, override=o, labelled=None, reach=3)
                add(f"plugins_{t}_wide", graphs, two=two, override=o, labelled=True, reach=3)
                add(f"printed_{t}_wide", printed, two=two, override=o, reach=3)
    for way in ("none", "all", "each"):
        for two in (False, True):
            for o in (None, "b") + (("a2",) if two else ("a",)):
                for after in (False, True):
                    add(f"options_{way}_{'two' if two else 'one'}_{o}_{'built' if after else 'listed'}", options, way=way, two=two, override=o, after=after)
    return out
