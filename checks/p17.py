"""P17: each likelihood uses its own configured values."""

BOUNDS = "1..3 likelihoods, plugins of each built in every order, some twice, values left at the default, given once for all, per likelihood, or per likelihood without one of them, before or between the builds; all numbers in constants, sets of constants (1..3 names, 1..3 values each) and maps (2 nodes); uncertainty maps as a single file, three files, or three files and a scaler"
ASSUMPTIONS = ["map evaluation away from the nodes is P20 to P24"]
FUNCTIONS = ["config.Config._resolve_cached_config", "config.Config.get_default", "config.Constant.build", "config.ConstantSet.build", "config.ConstantSet._sanity_check", "config.Map.build", "config.SigmaMap.build", "config.SigmaMap.get_configs", "config.SigmaMap._update_sigma_cache", "config.SigmaMap._resolve_sigma_value", "config.SigmaMap.required_parameter", "config.takes_config", "plugin.Plugin.__init__", "share.set_global_config"]
LLH = "abc"


def plugin(h, name, *configs):
    import appletree as apt

    def simulate(self, key, parameters, batch_size):
        return key, None

    cls = type(name, (apt.Plugin,), {"depends_on": ["batch_size"], "provides": ["q_" + name], "simulate": simulate})
    return apt.takes_config(*configs)(cls)


class Kind:
    """How one kind of configuration is made, given, and read from a plugin."""

    def __init__(self, h, tag="c"):
        self.h, self.tag, self.n = h, tag, 0

    def fresh(self):
        self.n += 1
        return self.make(f"{self.tag}{self.n}")


class Const(Kind):
    def config(self, name, default):
        import appletree as apt

        return apt.Constant(name=name, default=default) if default is not None else apt.Constant(name=name)

    def make(self, nm):
        return self.h.real(nm, lo=-10, hi=10)

    def judge(self, cfg, v, label):
        self.h.check(self.h.same(cfg.value, v), label)


class Sets(Kind):
    m, n_ = 2, 2

    def config(self, name, default):
        import appletree as apt

        return apt.ConstantSet(name=name, default=default) if default is not None else apt.ConstantSet(name=name)

    def make(self, nm):
        return [["mu", "sig", "tau"][: self.m], [self.h.reals(f"{nm}_{i}_", self.n_, lo=-10, hi=10) for i in range(self.m)]]

    def judge(self, cfg, v, label):
        h = self.h
        h.check(set(cfg.value) == set(v[0]), label + ": names")
        h.check(cfg.set_volume == len(v[1][0]), label + ": number of values")
        for k, x in zip(*v):
            got = list(h.S(cfg.value[k]).ravel())
            h.check(len(got) == len(x), label + ": number of values")
            for a, b in zip(got, x):
                h.check(h.same(a, b), label)


class Maps(Kind):
    def config(self, name, default):
        import appletree as apt

        return apt.Map(name=name, method="LERP", default=default) if default is not None else apt.Map(name=name, method="LERP")

    def curve(self, nm):
        h = self.h
        v = h.reals(nm + "_", 2, lo=-10, hi=10)
        f = h.json_file(nm + ".json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": v})
        self.files = getattr(self, "files", {})
        self.files[f] = v
        return f

    def make(self, nm):
        return self.curve(nm)

    def judge(self, cfg, v, label):
        h = self.h
        h.check(str(cfg.file_path) == v, label + ": file")
        got = list(h.S(cfg.apply(h.array([0.0, 1.0]))).ravel())
        for a, b in zip(got, self.files[v]):
            h.close(a, b, label)


class Sigmas(Maps):
    forms = ("single", "three", "four")

    def config(self, name, default):
        import appletree as apt

        self.name = name
        return apt.SigmaMap(name=name, method="LERP", default=default) if default is not None else apt.SigmaMap(name=name, method="LERP")

    def make(self, nm):
        form = self.h.pick("form_" + nm, list(self.forms))
        if form == "single":
            return self.curve(nm)
        out = [self.curve(nm + s) for s in "mlu"]
        return out + (["scaler_" + nm] if form == "four" else [])

    def judge(self, cfg, v, label):
        h = self.h
        parts = [v] * 3 if isinstance(v, str) else v[:3]
        for p, w in zip((cfg.median, cfg.lower, cfg.upper), parts):
            Maps.judge(self, p, w, label)
        want = None if isinstance(v, str) else (v[3] if len(v) == 4 else self.name + "_sigma")
        h.check(cfg.required_parameter() == want, label + ": scaler")
        h.check(cfg.llh_name is not None, label + ": likelihood")


KINDS = {"const": Const, "set": Sets, "map": Maps, "sigma": Sigmas}
WAYS = ("absent", "all", "each")


def give(h, k, name, way, llhs, how, lacking=None):
    """Configure; returns the value of every likelihood (None: not given)."""
    import appletree as apt
    from appletree.share import _cached_configs

    if way == "absent":
        return {l: None for l in llhs}
    if way == "all":
        v = k.fresh()
        cfg, out = v, {l: v for l in llhs}
    else:
        cfg = {l: k.fresh() for l in llhs if l != lacking}
        out = dict(cfg)
    if how == "set":
        apt.set_global_config({name: cfg})
    elif how == "component":
        import warnings

        c = apt.ComponentSim(name="x", llh_name="a")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.set_config({name: cfg})
    else:
        _cached_configs[name] = cfg
    return out


def resolve(h, kind, nllh, order, ways=WAYS, how=None, repeat=True, has_default=True, forms=None):
    """All ways of configuring, all build orders: every plugin keeps its own value."""
    k = KINDS[kind](h)
    if forms:
        k.forms = forms
    llhs = LLH[:nllh]
    default = k.make("default") if has_default else None
    P = plugin(h, "P", k.config("conf", default))
    way = h.pick("way", list(ways))
    vals = give(h, k, "conf", way, llhs, how or h.pick("how", ["set", "direct", "component"]))
    todo = h.perm("order", list(llhs)) if order else list(llhs)
    if repeat:
        todo = todo + [h.pick("again", list(llhs))]
    built = []
    for l in todo:
        want = vals[l] if vals[l] is not None else default
        if want is None:
            h.refuse(lambda: P(l), "a missing value without default is refused", ValueError)
            continue
        built.append((P(l), l, want))
        for p, l_, w in built:
            k.judge(p.conf, w, "its own value")
    for p, l_, w in built:
        h.check(p.llh_name == l_, "its own likelihood")


def lacking(h, kind, nllh):
    """A table without one of the likelihoods."""
    k = KINDS[kind](h)
    llhs = LLH[:nllh]
    default = k.make("default") if h.flag("has_default") else None
    P = plugin(h, "P", k.config("conf", default))
    without = h.pick("without", list(llhs))
    vals = give(h, k, "conf", "each", llhs, h.pick("how", ["set", "direct"]), without)
    for l in h.perm("order", list(llhs)):
        if l == without:
            h.refuse(lambda: P(l), "a table without the likelihood is refused", ValueError)
        elif kind == "sigma" and default is None:
            # uncertainty maps always need a default
            h.attempt(lambda: P(l))
        else:
            k.judge(P(l).conf, vals[l], "its own value")


def later(h, kind, first, second):
    """Configured anew between building two likelihoods: what is built keeps its values."""
    k = KINDS[kind](h)
    if kind == "sigma":
        k.forms = ("single", "four")
    default = k.make("default")
    P = plugin(h, "P", k.config("conf", default))
    v1 = give(h, k, "conf", first, "ab", "set")
    a = P("a")
    wa = v1["a"] if v1["a"] is not None else default
    k.judge(a.conf, wa, "first")
    v2 = give(h, k, "conf", second, "ab", "set")
    wb = v2["b"]
    b = P("b")
    k.judge(b.conf, wb, "second")
    k.judge(a.conf, wa, "first keeps its value")
    if kind != "sigma":
        a2 = P("a")
        k.judge(a2.conf, v2["a"], "rebuilt")
        k.judge(a.conf, wa, "first keeps its value")
        k.judge(b.conf, wb, "second keeps its value")


def two(h, kinds, nllh):
    """One plugin with several configurations and another plugin with one of the same name."""
    ks = [KINDS[kd](h, f"k{i}_") for i, kd in enumerate(kinds)]
    for k in ks:
        k.forms = ("single", "four")
    defaults = [k.make(f"default{i}") for i, k in enumerate(ks)]
    P = plugin(h, "P", *[k.config(f"conf{i}", d) for i, (k, d) in enumerate(zip(ks, defaults))])
    Q = plugin(h, "Q", ks[0].config("conf0", defaults[0]))
    llhs = LLH[:nllh]
    vals = [give(h, k, f"conf{i}", h.pick(f"way{i}", list(WAYS)), llhs, "set") for i, k in enumerate(ks)]
    built = []
    for l in llhs:
        for cls in ([P, Q] if h.flag("order_" + l) else [Q, P]):
            built.append((cls(l), l))
    for p, l in built:
        for i, k in enumerate(ks):
            if i == 0 or type(p).__name__ == "P":
                want = vals[i][l] if vals[i][l] is not None else defaults[i]
                k.judge(getattr(p, f"conf{i}"), want, "its own value")


def sets(h, m):
    """A set of constants whose values have different lengths."""
    import appletree as apt

    lens = [h.pick(f"n{i}", [1, 2, 3]) for i in range(m)]
    extra = h.pick("names", ["equal", "more", "fewer"])
    names = ["mu", "sig", "tau", "rho"][: m + {"equal": 0, "more": 1, "fewer": -1}[extra]]
    v = [names, [h.reals(f"v{i}_", n, lo=-10, hi=10) for i, n in enumerate(lens)]]
    if h.pick("parts", [2, 3]) == 3:
        v = v + [[1.0]]
    where = h.pick("where", ["default", "all", "each"])
    ok = [["mu"], [[1.0]]]
    P = plugin(h, "P", apt.ConstantSet(name="conf", default=v if where == "default" else ok))
    if where != "default":
        apt.set_global_config({"conf": v if where == "all" else {"b": ok, "a": v}})
    good = len(set(lens)) == 1 and extra == "equal" and len(v) == 2
    r = h.attempt(lambda: P("a"))
    h.check(r.ok == good, "unequal lengths are refused")
    if r.ok:
        k = Sets(h)
        k.judge(r.value.conf, v, "its own value")


def contradictory(h, part):
    """The files of one uncertainty map given twice."""
    import appletree as apt

    k = Sigmas(h)
    k.forms = ("single", "three", "four")
    default = k.make("default")
    P = plugin(h, "P", k.config("conf", default))
    way = h.pick("way", list(WAYS))
    vals = give(h, k, "conf", way, "ab", "set")
    other = k.curve("other")
    want = vals["a"] if vals["a"] is not None else default
    own = want if isinstance(want, str) else want[part]
    wantb = vals["b"] if vals["b"] is not None else default
    ownb = wantb if isinstance(wantb, str) else wantb[part]
    name = "conf_" + ["median", "lower", "upper"][part]
    given = h.pick("given", ["same", "other", "each", "each_other", "each_b"])
    cfg = {"same": own, "other": other, "each": {"a": own, "b": ownb}, "each_other": {"a": other, "b": ownb}, "each_b": {"a": own, "b": other}}[given]
    apt.set_global_config({name: cfg})
    use = h.flag("used_before")
    if use:
        # another plugin uses this file on its own
        M = plugin(h, "M", apt.Map(name=name, method="LERP", default=own))
        m = M("a")
        Maps.judge(k, getattr(m, name), cfg if isinstance(cfg, str) else cfg["a"], "the plain map")
    r = h.attempt(lambda: P("a"))
    if given in ("other", "each_other"):
        h.check(r.raised and isinstance(r.exc, ValueError), "contradictory values are refused")
    else:
        h.check(r.ok, "the same value twice is accepted")
        if r.ok:
            k.judge(r.value.conf, want, "its own value")
    if given == "each_b":
        r = h.attempt(lambda: P("b"))
        h.check(r.raised and isinstance(r.exc, ValueError), "contradictory values of the second likelihood are refused")


def limits(h):
    """Too many entries, wrong types, dictionaries as defaults."""
    import appletree as apt

    k = Sigmas(h)
    f = [k.curve(f"f{i}") for i in range(5)]
    case = h.pick("case", ["dict_default", "five", "five_default", "config", "nothing"])
    if case == "dict_default":
        h.refuse(lambda: apt.Constant(name="conf", default={"a": 1.0}), "a table as default is refused", ValueError)
    elif case == "five":
        P = plugin(h, "P", apt.SigmaMap(name="conf", default=f[0]))
        apt.set_global_config({"conf": f})
        h.refuse(lambda: P("a"), "five entries are refused", ValueError)
    elif case == "five_default":
        P = plugin(h, "P", apt.SigmaMap(name="conf", default=f))
        h.refuse(lambda: P("a"), "five entries are refused", ValueError)
    elif case == "config":
        h.refuse(lambda: plugin(h, "P", "conf"), "configurations are Config objects", RuntimeError)
    else:
        for kd in KINDS:
            k = KINDS[kd](h)
            P = plugin(h, "P", k.config("conf_" + kd, None))
            h.refuse(lambda: P("a"), "a missing value without default is refused", ValueError)


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts=dict(max_paths=6000)))

    for kd in KINDS:
        add(resolve, f"{kd}_1", kind=kd, nllh=1, order=False)
        add(resolve, f"{kd}_2", kind=kd, nllh=2, order=True, how="set", forms=("single", "four") if kd == "sigma" else None)
        if kd != "sigma":
            add(resolve, f"{kd}_3", kind=kd, nllh=3, order=True, how="set", repeat=False)
        elif big:
            add(resolve, f"{kd}_3", kind=kd, nllh=3, order=True, how="set", repeat=False, ways=("each",))
            add(resolve, f"{kd}_2_forms", kind=kd, nllh=2, order=True, how="set")
        if kd != "sigma":
            add(resolve, f"{kd}_no_default", kind=kd, nllh=2, order=False, has_default=False)
        add(lacking, f"lacking_{kd}_2", kind=kd, nllh=2)
        if big and kd != "sigma":
            add(lacking, f"lacking_{kd}_3", kind=kd, nllh=3)
        for a, b in [("absent", "all"), ("all", "each"), ("each", "all"), ("absent", "each"), ("all", "all")] if kd != "sigma" else [("absent", "all"), ("all", "each")]:
            add(later, f"later_{kd}_{a}_{b}", kind=kd, first=a, second=b)
    add(two, "two_const_map", kinds=["const", "map"], nllh=2)
    add(two, "two_sigma_const", kinds=["sigma", "const"], nllh=2)
    if big:
        add(two, "two_map_set_const", kinds=["map", "set", "const"], nllh=2)
        add(two, "two_sigma_sigma", kinds=["sigma", "sigma"], nllh=2)
    add(sets, "sets_2", m=2)
    add(sets, "sets_3", m=3)
    for i in range(3):
        add(contradictory, f"contradictory_{i}", part=i)
    add(limits, "limits")
    return out
