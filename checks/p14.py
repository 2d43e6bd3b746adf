"""P14: the deduced simulation computes every requested quantity by its plugin chain."""
import itertools

BOUNDS = "1..4 plugins of one or two outputs in every acyclic dependency structure (inputs in any order, batch size among them or not), any registration order, requested quantities in any order, efficiency requested anywhere or not, overridden plugins, 1..2 events, all input values and coefficients; 1..3 components of one likelihood, repeated deduction"
ASSUMPTIONS = ["plugin bodies are linear with arbitrary coefficients; the bodies of the shipped plugins are P25 to P29"]
FUNCTIONS = ["component.ComponentSim.register", "component.ComponentSim.dependencies_deduce", "component.ComponentSim.dependencies_simplify", "component.ComponentSim.flush_source_code", "component.ComponentSim.deduce", "component.ComponentSim.compile", "component.ComponentSim.new_component", "plugin.Plugin.__init__", "plugin.Plugin.sanity_check", "likelihood.Likelihood.register_component"]
N = 2


class World:
    """Plugin classes with recorded calls, and what their outputs must be."""

    def __init__(self, h):
        self.h, self.calls, self.spec = h, [], {}

    def plugin(self, name, provides, depends, parameters=(), configs=(), uses=()):
        """A plugin class computing base + sum of coefficient * input + parameters, placed in appletree.plugins."""
        import appletree as apt
        import appletree.plugins as P

        h, calls = self.h, self.calls
        co = {p: {d: h.real(f"k_{name}_{p}_{d}", lo=-4, hi=4) for d in depends if d != "batch_size"} for p in provides}
        base = {p: h.reals(f"b_{name}_{p}_", N, lo=-10, hi=10) for p in provides}
        A = {p: h.array(base[p]) for p in provides}
        K = {p: {d: h.array(c) for d, c in co[p].items()} for p in provides}

        def body(self, key, parameters, **cols):
            import jax.numpy as jnp

            calls.append((name, self, cols.get("batch_size")))
            out = []
            for p in provides:
                v = A[p]
                for d, c in cols.items():
                    if d != "batch_size":
                        v = v + K[p][d] * c
                for q in uses:
                    v = v + parameters[q]
                out.append(v)
            return (key, *out)

        args = ", ".join(depends)
        ns = {"body": body}
        src = f"def simulate(self, key, parameters, {args}):\n    return body(self, key, parameters, {', '.join(f'{d}={d}' for d in depends)})\n"
        exec(compile(src, "<check>", "exec"), ns)
        cls = type(name, (apt.Plugin,), {"depends_on": list(depends), "provides": list(provides), "parameters": tuple(parameters), "simulate": ns["simulate"]})
        if configs:
            cls = apt.takes_config(*configs)(cls)
        h.patch(P, name, cls)
        for p in provides:
            self.spec[name, p] = (co[p], base[p], tuple(uses))
        cls.check_name = name
        return cls

    def value(self, owner, q, pars):
        """What quantity q must be, given the plugin owning every quantity."""
        h = self.h
        cls = owner[q]
        co, base, uses = self.spec[cls.check_name, q]
        out = []
        ins = {d: self.value(owner, d, pars) for d in co}
        for i in range(N):
            v = h.Sc(base[i])
            for d, c in co.items():
                v = v + h.Sc(c) * ins[d][i]
            for u in uses:
                v = v + pars[u]
            out.append(v)
        return out

    def closure(self, owner, wanted):
        need, stack = set(), list(wanted)
        while stack:
            q = stack.pop()
            if q == "batch_size":
                continue
            need.add(owner[q])
            for d in owner[q].depends_on:
                if d != "batch_size":
                    stack.append(d)
        return need


def judge(h, w, comp, owner, wanted, pars, label="", times=1):
    """Run the compiled simulation and compare."""
    del w.calls[:]
    key = h.key("key" + label)
    key2, out = comp.simulate(key, N, pars)
    need = w.closure(owner, wanted)
    ran = [c[0] for c in w.calls]
    h.check(sorted(ran) == sorted(c.check_name for c in need), label + "every needed plugin exactly once, no other")
    h.check(all(c[2] in (None, N) for c in w.calls), label + "the batch size is the requested one")
    h.check(len(out) == len(wanted), label + "number of outputs")
    for q, o in zip(wanted, out):
        h.check(tuple(h.shape(o)) == (N,), label + "one value per event")
        for a, b in zip(h.S(o), w.value(owner, q, pars)):
            h.close(a, b, label + "value of the quantity in its place")
    # the chain is intact: inputs were computed before their users
    pos = {n: i for i, n in enumerate(ran)}
    for c in need:
        for d in c.depends_on:
            if d != "batch_size" and c.check_name in pos and owner[d].check_name in pos:
                h.check(pos[owner[d].check_name] < pos[c.check_name], label + "after its inputs")


def owners(classes):
    o = {}
    for c in classes:
        for p in c.provides:
            o[p] = c
    return o


NAMES = ["Zeta", "Alpha", "Mid", "Beta"]


def build_dag(h, w, n, reverse_inputs):
    """n plugins a, b, c, d; every plugin depends on any earlier ones."""
    qs = "abcd"[:n]
    out = []
    for i, q in enumerate(qs):
        deps = [p for p in qs[:i] if h.flag(f"dep_{q}_{p}")]
        if not deps:
            deps = ["batch_size"]
        elif reverse_inputs:
            deps = deps[::-1]
        out.append(w.plugin(NAMES[i], [q], deps))
    return out


def component(h, name=None, llh=None, rate=""):
    import appletree as apt

    class Comp(apt.ComponentSim):
        norm_type = "on_pdf"

    c = Comp(name=name, llh_name=llh)
    c.rate_name = rate
    return c


def eff_plugin(w, deps):
    return w.plugin("TheEff", ["eff"], deps)


def structures(h, n, reverse, order, eff_on=None, wanted=None):
    """Every acyclic structure of n single-output plugins."""
    w = World(h)
    cl = build_dag(h, w, n, reverse)
    eff = eff_plugin(w, [eff_on or h.pick("eff_on", list("abcd"[:n]) + ["batch_size"])])
    todo = [*cl, eff]
    if order == "reversed":
        todo = todo[::-1]
    elif order == "any":
        todo = h.perm("order", todo)
    c = component(h)
    if order != "given":
        c.register(todo)
    else:
        for p in todo:
            c.register(p)
    qs = "abcd"[:n]
    k = wanted or h.pick("wanted", list(range(1, 2**n)))
    wanted = [q for i, q in enumerate(qs) if k >> i & 1]
    back, e = h.pick("form", [(False, "absent"), (True, "first"), (False, "last")])
    if back:
        wanted = wanted[::-1]
    req = list(wanted)
    if e == "first":
        req.insert(0, "eff")
    elif e == "last":
        req.append("eff")
    given = list(req)
    c.deduce(data_names=req)
    h.check(req == given, "the caller's list is kept")
    c.compile()
    h.check(c.needed_parameters == set(), "no parameter needed")
    judge(h, w, c, owners(cl + [eff]), wanted + ["eff"], {})


def noeff(h, tup):
    w = World(h)
    cl = [w.plugin("A", ["a"], ["batch_size"]), w.plugin("B", ["b"], ["a", "batch_size"])]
    has = h.flag("eff_known")
    if has:
        cl.append(eff_plugin(w, ["b"]))
    c = component(h)
    c.register(cl)
    req = h.pick("req", [["a"], ["b"], ["b", "a"], ["eff", "b"], ["a", "b", "eff"]])
    f = dict(data_names=tuple(req) if tup else req)
    force = h.flag("force")
    if force:
        f["force_no_eff"] = True
    if not has and not force:
        h.refuse(lambda: c.deduce(**f), "missing efficiency is refused", ValueError)
        return
    c.deduce(**f)
    c.compile()
    wanted = [q for q in req if q != "eff"] + ([] if force else ["eff"])
    judge(h, w, c, owners(cl), wanted, {})


def multi(h, variant):
    """Plugins with several outputs, some of them overridden later."""
    w = World(h)
    A = w.plugin("A", ["x", "y", "z"] if variant == "three" else ["x", "y"], ["batch_size"])
    cl = [A]
    owner_extra = []
    if variant in ("override", "override_dep", "three"):
        # one output is overridden
        which = h.pick("which", list(A.provides))
        other = [p for p in A.provides if p != which]
        deps = ["batch_size"] if variant != "override_dep" else [other[0]]
        cl.append(w.plugin("B", [which], deps))
    elif variant == "all":
        cl.append(w.plugin("B", ["x", "y"], ["batch_size"]))
    elif variant == "both":
        cl.append(w.plugin("B", ["y", "v"], ["x"]))
        cl.append(w.plugin("C", ["v"], ["y"]))
    user = w.plugin("User", ["u"], h.pick("inputs", [["x", "y"], ["y", "x"], ["x"], ["y"]]))
    cl.append(user)
    cl.append(eff_plugin(w, [h.pick("eff_on", ["u", "x", "y"])]))
    c = component(h)
    c.register(cl)
    wanted = h.pick("wanted", [["u"], ["x", "y"], ["y", "x"], ["u", "y"], ["x", "u"], ["y"]])
    c.deduce(data_names=list(wanted))
    c.compile()
    judge(h, w, c, owners(cl), wanted + ["eff"], {})


def override(h, pos):
    """The plugin registered last for a quantity is used."""
    w = World(h)
    A1 = w.plugin("A1", ["a"], ["batch_size"], parameters=("p_old",), uses=("p_old",))
    A2 = w.plugin("A2", ["a"], ["batch_size"] if not pos else ["c"], parameters=("p_new",), uses=("p_new",))
    C = w.plugin("C", ["c"], ["batch_size"])
    B = w.plugin("B", ["b"], ["a"])
    E = eff_plugin(w, ["a"])
    regs = h.perm("order", [A1, A2, B, C])
    c = component(h)
    for p in regs:
        c.register(p)
    c.register(E)
    own = owners(regs + [E])
    last = own["a"]
    wanted = h.pick("wanted", [["b"], ["a", "b"], ["b", "a"]])
    c.deduce(data_names=list(wanted))
    c.compile()
    pars = {"p_old": h.real("p_old", lo=-5, hi=5), "p_new": h.real("p_new", lo=-5, hi=5)}
    h.check(c.needed_parameters == set(last.parameters), "needed parameters are those of the plugins used")
    judge(h, w, c, own, wanted + ["eff"], pars)


def needed(h, rate):
    """Parameters declared by the plugins used, by their maps, and the rate."""
    import appletree as apt
    from appletree.share import _cached_configs

    f = [h.json_file(f"m{i}.json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": [1.0, 2.0]}) for i in range(3)]
    forms = {"three": (f, "my_map_sigma"), "four": ([*f, "scaler"], "scaler"), "single": (f[0], None)}
    form = h.pick("form", sorted(forms))
    where = h.pick("where", ["default", "global", "llh"])
    cfg, par = forms[form]
    default = cfg if where == "default" else f[0]
    if where == "global":
        _cached_configs["my_map"] = cfg
    elif where == "llh":
        _cached_configs["my_map"] = {"lk": cfg, "another": f[0] if form != "single" else [*f, "wrong"]}
    w = World(h)
    A = w.plugin("A", ["a"], ["batch_size"], parameters=("pa", "shared"), uses=("pa",), configs=[apt.Constant(name="const", type=float, default=1.0), apt.SigmaMap(name="my_map", default=default)])
    B = w.plugin("B", ["b"], ["a"], parameters=("shared", "pb"), uses=("pb",))
    U = w.plugin("U", ["unused"], ["a"], parameters=("never",), configs=[apt.SigmaMap(name="other_map", default=[*f, "never_scaler"])])
    E = eff_plugin(w, ["batch_size"])
    c = component(h, "c", "lk", "c_rate" if rate else "")
    c.register([A, B, U, E])
    wanted = h.pick("wanted", [["a"], ["b"], ["b", "a"]])
    c.deduce(data_names=list(wanted))
    want = {"pa", "shared"} | ({par} if par else set()) | ({"c_rate"} if rate else set()) | ({"pb"} if "b" in wanted else set())
    h.check(c.needed_parameters == want, "needed parameters")
    c.compile()
    pars = {k: h.real("v_" + k, lo=-5, hi=5) for k in sorted(want)}
    judge(h, w, c, owners([A, B, U, E]), wanted + ["eff"], pars)
    # deduced anew for fewer quantities after clearing
    import appletree.share as share

    share._cached_functions.clear()
    c.deduce(data_names=["a"], func_name=h.pick("func", ["simulate", "other"]))
    h.check(c.needed_parameters == want - {"pb"}, "needed parameters of the second deduction")
    c.compile()
    judge(h, w, c, owners([A, B, U, E]), ["a", "eff"], pars, "second ")


def scalers(h, nllh):
    """Components of several likelihoods whose uncertainty map is configured per likelihood."""
    import appletree as apt
    from appletree.share import _cached_configs

    f = [h.json_file(f"m{i}.json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": [1.0, 2.0]}) for i in range(3)]
    names = "abc"[:nllh]
    forms = {"three": (f, "my_map_sigma"), "four": (None, None), "single": (f[0], None)}
    pick = {l: h.pick("form_" + l, ["four", "three", "single"]) for l in names}
    _cached_configs["my_map"] = {l: [*f, "s_" + l] if pick[l] == "four" else forms[pick[l]][0] for l in names}
    par = {l: "s_" + l if pick[l] == "four" else forms[pick[l]][1] for l in names}
    w = World(h)
    A = w.plugin("A", ["a"], ["batch_size"], parameters=("pa",), configs=[apt.SigmaMap(name="my_map", default=f[0])])
    E = eff_plugin(w, ["a"])
    comps = {}
    again = h.flag("again")
    for l in names:
        comps[l] = component(h, "c_" + l, l, "r_" + l)
        comps[l].register([A, E])
        comps[l].deduce(data_names=["a"])
        comps[l].compile()
    if again:
        import appletree.share as share

        share._cached_functions.clear()
        for l in names:
            comps[l].deduce(data_names=["a"])
    for l in names:
        h.check(comps[l].needed_parameters == {"pa", "r_" + l} | ({par[l]} if par[l] else set()), "needed parameters of each likelihood")


def unknown(h):
    w = World(h)
    A = w.plugin("A", ["a"], ["batch_size"])
    B = w.plugin("B", ["b"], ["a", "missing"])
    E = eff_plugin(w, ["a"])
    c = component(h)
    c.register([A, B, E])
    req = h.pick("req", [["nothing"], ["a", "nothing"], ["b"], ["a", "b"], ["b", "a"], ["eff", "nothing", "a"]])
    r = h.refuse(lambda: c.deduce(data_names=list(req)), "a quantity nobody provides is refused", ValueError)
    c.deduce(data_names=["a"])
    c.compile()
    judge(h, w, c, owners([A, E]), ["a", "eff"], {})


def insane(h):
    """A plugin whose simulate does not take its declared inputs in their order is refused."""
    import appletree as apt
    import appletree.plugins as P

    case = h.pick("case", ["order", "name", "key", "parameters", "good", "nothing", "no_depends"])
    args = {"order": "key, parameters, b, a", "name": "key, parameters, a, c", "key": "k, parameters, a, b", "parameters": "key, pars, a, b", "good": "key, parameters, a, b", "nothing": "key, parameters, a, b", "no_depends": "key, parameters, a, b"}[case]
    ns = {}
    exec(f"def simulate(self, {args}):\n    return key, a\n", ns)
    cls = type("Odd", (apt.Plugin,), {"depends_on": [] if case == "no_depends" else ["a", "b"], "provides": [] if case == "nothing" else ["q"], "simulate": ns["simulate"]})
    r = h.attempt(lambda: cls("l"))
    h.check(r.raised == (case != "good") and (not r.raised or isinstance(r.exc, ValueError)), "declared inputs are those of the simulation")


def several(h, ncomp, direct):
    """Components of one likelihood, each with its own chain."""
    import appletree as apt
    from checks import comp as M

    w = World(h)
    A = w.plugin("A", ["a"], ["batch_size"], parameters=("pa",), uses=("pa",))
    E = eff_plugin(w, ["a"])
    Bs = [w.plugin(f"B{i}", ["b"], ["a"], parameters=(f"pb{i}",), uses=(f"pb{i}",)) for i in range(ncomp)]
    pars = {"pa": h.real("pa", lo=-5, hi=5)}
    for i in range(ncomp):
        pars[f"pb{i}"] = h.real(f"pb{i}", lo=-5, hi=5)
    comps = []
    if direct:
        # separate likelihoods
        for i in range(ncomp):
            c = component(h, f"c{i}", f"l{i}", f"c{i}_rate")
            c.register([A, Bs[i], E])
            c.deduce(data_names=["b"])
            c.compile()
            comps.append(c)
    else:
        files = M.install(h, {"data.csv": {"b": [1.0, 3.0]}})
        lk = apt.Likelihood("lk", data_file_name=files["data.csv"], bins_type="irreg", bins_on="b", bins=[[0.0, 2.0, 4.0]], clip=[0.0, 4.0])
        for i in range(ncomp):

            def init(self, *a, _b=Bs[i], **k):
                apt.ComponentSim.__init__(self, *a, **k)
                self.register([A, _b, E])

            lk.register_component(type(f"Comp{i}", (apt.ComponentSim,), {"norm_type": "on_pdf", "__init__": init}), f"c{i}")
            comps.append(lk[f"c{i}"])
        h.check(lk.needed_parameters == {"pa"} | {f"pb{i}" for i in range(ncomp)} | {f"c{i}_rate" for i in range(ncomp)}, "needed parameters of the likelihood")
        pars.update({f"c{i}_rate": 1.0 for i in range(ncomp)})
    for i, c in enumerate(comps):
        h.check(c.needed_parameters == {"pa", f"pb{i}", f"c{i}_rate"}, "needed parameters")
        judge(h, w, c, owners([A, Bs[i], E]), ["b", "eff"], pars, f"c{i} ")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts={}))

    for n in (1, 2, 3):
        for rev in (False, True):
            if rev and n < 3:
                continue
            add(structures, f"dag{n}{'r' if rev else ''}", n=n, reverse=rev, order="given")
    add(structures, "dag3_back", n=3, reverse=False, order="reversed")
    if big:
        for e in (*"abcd", "batch_size"):
            add(structures, f"dag4_{e}", n=4, reverse=e in "bd", order="given", eff_on=e)
        for e in (*"abc", "batch_size"):
            add(structures, f"dag3_any_{e}", n=3, reverse=True, order="any", eff_on=e, wanted=7)
            add(structures, f"dag3_any2_{e}", n=3, reverse=False, order="any", eff_on=e, wanted=5)
    for t in (False, True):
        add(noeff, f"noeff{'_tuple' if t else ''}", tup=t)
    for v in ("plain", "override", "override_dep", "three", "all", "both"):
        add(multi, f"multi_{v}", variant=v)
    for p in (False, True):
        add(override, f"override{'_chain' if p else ''}", pos=p)
    for r in (False, True):
        add(needed, f"needed{'_rate' if r else ''}", rate=r)
    for n in (1, 2) + ((3,) if big else ()):
        add(scalers, f"scalers_{n}", nllh=n)
    add(unknown, "unknown")
    add(insane, "insane")
    for n in (1, 2, 3):
        add(several, f"several_{n}", ncomp=n, direct=False)
        add(several, f"likelihoods_{n}", ncomp=n, direct=True)
    return out
