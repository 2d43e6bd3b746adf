"""P34: extensions never silently replace existing plugins or components."""
import types

BOUNDS = "histories of up to 3 registrations of modules (plain names or modules of packages) and single classes holding up to 3 classes each, every combination of existing names and force flags; up to 3 plugins with 1..2 configurations of 4 kinds whose defaults are any numbers, in every order, one by one, as a list or as a module"
ASSUMPTIONS = ["class, module and configuration names come from fixed sets"]
FUNCTIONS = ["utils.add_extensions", "utils._add_extension", "plugin.add_plugin_extensions", "plugin._add_plugin_extension", "component.add_component_extensions", "component._add_component_extension", "component.ComponentSim.register", "component.ComponentSim.register_all", "component.ComponentSim.dependencies_deduce"]
V = dict(lo=-100, hi=100)


def family(kind):
    """Base class, base classes that must not be added, and a maker of user classes."""
    import appletree as apt

    if kind == "plugin":
        return apt.Plugin, [apt.Plugin], [apt.Plugin]
    return apt.Component, [apt.Component, apt.ComponentSim, apt.ComponentFixed], [apt.ComponentSim, apt.ComponentFixed]


def adders(kind):
    import appletree as apt
    from appletree import plugin, component, utils

    base = family(kind)[0]
    if kind == "plugin":
        one = getattr(plugin, "_add_plugin_extension", None)
        return apt.add_plugin_extensions, one or (lambda m, c, force=False: utils._add_extension(m, c, base, force=force))
    one = getattr(component, "_add_component_extension", None)
    return apt.add_component_extensions, one or (lambda m, c, force=False: utils._add_extension(m, c, base, force=force))


def public(m):
    return {k: v for k, v in vars(m).items() if not k.startswith("__")}


def cls(name, *bases):
    return type(name, bases, {})


def after(h, target, old, new, ok, force, what):
    """new: name -> object that this registration gives."""
    now = public(target)
    clash = any(k in old for k in new)
    if clash and not force:
        h.check(not ok, what + ": an existing name is refused")
        for k, v in old.items():
            h.check(now.get(k) is v, what + ": a refused registration leaves the existing one in place")
        for k, v in now.items():
            h.check(k in old or new.get(k) is v, what + ": nothing else is added")
    else:
        h.check(ok, what + ": accepted")
        want = {**old, **new}
        h.check(sorted(now) == sorted(want), what + ": exactly the classes of the user are added")
        for k, v in want.items():
            h.check(now.get(k) is v, what + ": each name stands for the registered class")


def history(h, kind, steps, single):
    base, bases, parents = family(kind)
    add, add_one = adders(kind)
    target = types.ModuleType("target")
    other_base = family("component" if kind == "plugin" else "plugin")[1]
    for nm, there in (("Alpha", h.flag("has_Alpha")), ("ext", h.flag("has_ext"))):
        if there:
            setattr(target, nm, cls(nm, parents[0]) if nm == "Alpha" else h.pick("ext", [types.ModuleType("ext"), cls("ext")]))
    target.kept = object()
    target.Kept = cls("Kept", parents[0])
    for t in range(steps):
        force = h.flag(f"force{t}")
        old = public(target)
        if single:
            nm = h.pick(f"name{t}", ["Alpha", "Beta", "Kept", "base", "unrelated"])
            if nm == "base":
                c, new = h.pick(f"base{t}", bases), {}
            elif nm == "unrelated":
                c, new = h.pick(f"cls{t}", [cls("Alpha"), cls("Gamma", other_base[0]), dict]), {}
            else:
                c = cls(nm, parents[t % len(parents)])
                new = {nm: c}
            r = h.attempt(add_one, target, c, force=force)
        else:
            m = types.ModuleType(h.pick(f"mod{t}", ["ext", "mine.plugins.ext", "mine.other", "fresh"]))
            new = {m.__name__.split(".")[-1]: m}
            for b in bases + other_base:
                setattr(m, b.__name__, b)
            m.number, m.function, m.Unrelated = 3.0, (lambda x: x), cls("Unrelated")
            m.Gamma = cls("Gamma", other_base[0])
            for nm in ("Alpha", "Beta") if t == 0 else ("Alpha",):
                if h.flag(f"gives_{nm}{t}"):
                    c = cls(nm, parents[-1])
                    if h.flag(f"sub_{nm}{t}"):
                        c = cls(nm, cls("Hidden", c))  # a class of a class
                    setattr(m, nm, c)
                    new[nm] = c
            r = h.attempt(add, target, m, force=force)
        after(h, target, old, new, r.ok, force, f"registration {t}")


def keyword(h, kind):
    """The default is not to force."""
    base, bases, parents = family(kind)
    add, add_one = adders(kind)
    target = types.ModuleType("target")
    target.Alpha = old = cls("Alpha", parents[0])
    m = types.ModuleType("pack.fresh")
    m.Alpha = cls("Alpha", parents[0])
    which = h.pick("which", ["one", "module"])
    h.refuse((lambda: add_one(target, m.Alpha)) if which == "one" else (lambda: add(target, m)), "an existing name is refused without force")
    h.check(target.Alpha is old, "the existing class stays")


# ---- contradictory defaults


def config(h, kind, name, value):
    from appletree.config import Constant, ConstantSet, Map, SigmaMap

    if kind == "Constant":
        return Constant(name=name, type=float, default=value)
    if kind == "ConstantSet":
        return ConstantSet(name=name, default=[["a", "b"], [[value, 1.0], [2.0, value]]])
    if kind == "Map":
        return Map(name=name, default=value)
    return SigmaMap(name=name, default=[value, "l.json", "u.json", "par"])


def value(h, kind, k):
    if kind in ("Constant", "ConstantSet"):
        return h.real(k, **V)
    return h.pick(k, ["a.json", "b.json"])


def differ(h, kind, a, b):
    if kind in ("Constant", "ConstantSet"):
        return h.path(h.not_(h.same(a, b)))
    return a != b


def defaults(h, kind, n, way, overlap=False, small=False):
    """Plugins with configurations of the same or another name, registered one after the other."""
    import appletree as apt
    from appletree.config import takes_config

    # what each plugin provides; with overlap later ones may take over all or some of the quantities
    made = []
    for i in range(n):
        provides = [f"x{i}"] if not overlap else h.pick(f"prov{i}", [["x", "y"], ["x"], ["y"]] if i else [["x", "y"]])
        names = h.pick(f"names{i}", [["c", "d"]] if small and i == 1 else [["c"], ["d"]] + ([["c", "d"]] if n < 3 else []))
        vals = {c: value(h, kind, f"v{i}_{c}") for c in names}
        P = type(f"P{i}", (apt.Plugin,), dict(depends_on=["batch_size"], provides=provides[0] if len(provides) == 1 and not small and h.flag(f"str{i}") else provides))
        P = takes_config(*[config(h, kind, c, v) for c, v in vals.items()])(P)
        made.append((P, provides, vals))
    c = apt.ComponentSim("comp", "llh")
    order = [made[i] for i in (range(n) if small else h.perm("order", range(n)))]
    state = {}
    stop = None
    for i, (P, prov, vals) in enumerate(order):
        new = {**state, **{p: i for p in prov}}
        used = set(new.values()) - {i}
        if any(differ(h, kind, order[j][2][k], v) for j in sorted(used) for k, v in vals.items() if k in order[j][2]):
            if way != "single":
                stop = i
                break
            h.refuse(lambda: c.register(P), "a configuration with two different defaults is refused")
        else:
            state = new
            if way == "single":
                c.register(P)
        if way == "single":
            holds(h, c, state, order)
    if way == "single":
        return
    plugins = [o[0] for o in order]
    if way == "module":
        m = types.ModuleType("m")
        for i, P in enumerate(plugins):
            setattr(m, f"A{i}", P)
        m.Other, m.number, m.Plugin = dict, 1, apt.Plugin
        call = lambda: c.register_all(h.pick("listed", [m, [m], (m,)]))
    else:
        call = lambda: c.register(h.pick("seq", [list, tuple])(plugins))
    if stop is None:
        call()
    else:
        h.refuse(call, "a configuration with two different defaults is refused")
    holds(h, c, state, order)


def holds(h, c, state, order):
    """Each quantity comes from the plugin that was registered last and not refused."""
    for q in ("x", "y", "x0", "x1", "x2"):
        r = h.attempt(c.dependencies_deduce, [q])
        if q not in state:
            h.check(not r.ok, "a quantity of no accepted plugin is not provided")
        else:
            h.check(r.ok and r.value[0]["plugin"] is order[state[q]][0], "a quantity is provided by the last accepted plugin")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, opts=None, **p):
        out.append(dict(name=nm, func=f, params=p, opts=opts or {}))

    for kind in ("plugin", "component"):
        big_ = dict(max_paths=20000)
        add(history, f"{kind}_modules", kind=kind, steps=1, single=False)
        add(history, f"{kind}_singles", kind=kind, steps=2, single=True)
        add(keyword, f"{kind}_default", kind=kind)
        if big:
            add(history, f"{kind}_modules2", kind=kind, steps=2, single=False, opts=big_)
            if kind == "plugin":
                add(history, f"{kind}_singles3", kind=kind, steps=3, single=True, opts=big_)
    for kind in ("Constant", "ConstantSet", "Map", "SigmaMap"):
        add(defaults, f"default_{kind}", kind=kind, n=2, way="single")
        add(defaults, f"override_{kind}", kind=kind, n=2, way="single", overlap=True)
    add(defaults, "list_Constant", kind="Constant", n=2, way="list")
    add(defaults, "module_Constant", kind="Constant", n=2, way="module")
    add(defaults, "three", kind="Constant", n=3, way="single", small=True)
    if big:
        add(defaults, "three_Constant", kind="Constant", n=3, way="single")
        add(defaults, "three_list", kind="Constant", n=3, way="list")
        add(defaults, "three_module", kind="Constant", n=3, way="module")
        add(defaults, "three_override", kind="Constant", n=3, way="single", overlap=True)
    return out
