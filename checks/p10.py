"""P10: setting and reading parameters is by name and all-or-nothing."""
import itertools

BOUNDS = "configurations of 3 parameters (fitted and fixed mixed), histories of 1..2 (thorough 3) operations, each a str/list/mapping assignment over every ordered choice of known and unknown names with matching or mismatched lengths, arbitrary real values; reads in every form and order after each"
FUNCTIONS = ["parameter.Parameter.set_parameter", "parameter.Parameter.get_parameter", "parameter.Parameter.__getitem__", "parameter.Parameter.check_parameter_exist", "parameter.Parameter.parameter_fit_array", "parameter.Parameter.get_all_parameter"]
NAMES = ("b", "a", "c")
UNKNOWN = "zz"


def config(h, kinds):
    c = {}
    for n, k in zip(NAMES, kinds):
        if k == "fixed":
            c[n] = {"prior_type": "fixed", "prior_args": {"val": h.real("val_" + n, lo=-10, hi=10)}, "allowed_range": None, "init_mean": None, "init_std": None}
        else:
            c[n] = {"prior_type": "free", "prior_args": {}, "allowed_range": [-10.0, 10.0], "init_mean": 0.0, "init_std": 1.0}
    return c


def read_all(h, par, want, fit, full):
    """Every way of reading agrees with the expected values."""
    names = list(NAMES)
    for n in names:
        h.check(h.same(par.get_parameter(n), want[n]), "read by name")
    orders = list(itertools.permutations(names)) + (list(itertools.permutations(names, 2)) + [(n,) for n in names] if full else [])
    for o in orders:
        got = h.S(par.get_parameter(list(o)))
        h.check(h.shape(got) == (len(o),), "one value per name")
        for g, n in zip(got, o):
            h.check(h.same(g, want[n]), "read by list, in its order")
    if full:
        s = {"a", "c"}
        got = h.S(par.get_parameter(s))
        for g, n in zip(got, s):
            h.check(h.same(g, want[n]), "read by set")
    arr = h.S(par.parameter_fit_array)
    h.check(h.shape(arr) == (len(fit),), "array of the fitted parameters")
    for g, n in zip(arr, sorted(fit)):
        h.check(h.same(g, want[n]), "array follows the sorted names")
    d = par.get_all_parameter()
    h.check(set(d) == set(names), "all parameters")
    for n in names:
        h.check(h.same(d[n], want[n]), "mapping of all parameters")


def operation(h, i, par, want, forms, many):
    """One assignment; updates the expected values."""
    form = h.pick(f"form{i}", forms)
    pool = list(NAMES) + [UNKNOWN]
    if form == "str":
        n = h.pick(f"name{i}", pool)
        v = h.real(f"x{i}", lo=-100, hi=100)
        r = h.attempt(par.set_parameter, n, v)
        names, vals, bad = [n], [v], n == UNKNOWN
    else:
        choices = [c for k in many for c in itertools.permutations(pool, k)]
        names = list(h.pick(f"names{i}", choices))
        m = len(names)
        if form == "list":
            m = max(0, m + h.pick(f"extra{i}", [0, 1, -1]))
        vals = h.reals(f"x{i}_", m, lo=-100, hi=100)
        bad = UNKNOWN in names or len(vals) != len(names)
        if form == "list":
            r = h.attempt(par.set_parameter, names, vals)
        elif form == "array":
            r = h.attempt(par.set_parameter, names, h.np_array(vals))
        else:
            r = h.attempt(par.set_parameter, dict(zip(names, vals)))
    if bad:
        h.check(r.raised, "unknown name or mismatched length refused")
    else:
        h.check(r.ok, "known names accepted")
        want = dict(want, **dict(zip(names, vals)))
    return want


def history(h, kinds, forms, many, steps, full):
    from appletree import Parameter

    cfg = config(h, kinds)
    par = Parameter(cfg)
    fit = [n for n, k in zip(NAMES, kinds) if k != "fixed"]
    want = {n: h.Sc(par.get_parameter(n)) for n in NAMES}
    for i in range(steps):
        want = operation(h, i, par, want, forms, many)
        read_all(h, par, want, fit, full)


def queries(h):
    """Existence queries and reading unknown names."""
    from appletree import Parameter

    par = Parameter(config(h, ("free", "fixed", "free")))
    want = {n: h.Sc(par.get_parameter(n)) for n in NAMES}
    pool = list(NAMES) + [UNKNOWN, "yy"]
    names = list(h.pick("names", [c for k in (1, 2, 3) for c in itertools.permutations(pool, k)]))
    missing = [n for n in names if n not in NAMES]
    form = h.pick("form", ["list", "set", "dict", "str"])
    arg = {"list": names, "set": set(names), "dict": {n: 1.0 for n in names}, "str": names[0]}[form]
    if form == "str":
        missing = [n for n in missing if n == names[0]]
    h.check(bool(par.check_parameter_exist(arg)) == (not missing), "existence")
    ok, lack = par.check_parameter_exist(arg, return_not_exist=True)
    h.check(bool(ok) == (not missing), "existence with the missing names")
    if form != "str":
        h.check(sorted(lack) == sorted(missing), "the missing names")
    if form != "dict":
        r = h.attempt(par.get_parameter, arg)
        h.check(r.raised == bool(missing), "reading unknown names is refused")
    read_all(h, par, want, ["b", "c"], True)


def copied(h):
    """The object given is not altered and later changes to it have no effect."""
    from appletree import Parameter

    cfg = config(h, ("free", "fixed", "free"))
    par = Parameter(cfg)
    want = {n: h.Sc(par.get_parameter(n)) for n in NAMES}
    v = h.real("x", lo=-100, hi=100)
    par.set_parameter("a", v)
    want["a"] = v
    cfg["a"]["prior_args"]["val"] = 77.0
    cfg["b"]["allowed_range"][0] = 50.0
    read_all(h, par, want, ["b", "c"], True)
    other = Parameter(config(h, ("free", "free", "free")))
    other.set_parameter("a", 3.0)
    read_all(h, par, want, ["b", "c"], True)


def instances(tier):
    big = tier == "thorough"
    o = dict(max_paths=6000)
    mix = ("free", "fixed", "free")
    out = []
    for kinds in (mix, ("free", "free", "free"), ("fixed", "fixed", "free")):
        nm = "".join(k[1] for k in kinds)
        out.append(dict(name=f"set_{nm}", func=history, params=dict(kinds=kinds, forms=["str", "list", "dict", "array"], many=(1, 2, 3), steps=1, full=True), opts=o))
    for f in itertools.product(("str", "list", "dict"), repeat=2):
        out.append(dict(name="two_" + "_".join(f), func=two, params=dict(forms=f, many=(2,)), opts=o))
        if big:
            out.append(dict(name="twofull_" + "_".join(f), func=two, params=dict(forms=f, many=(1, 2)), opts=o))
    if big:
        out.append(dict(name="three", func=history, params=dict(kinds=mix, forms=["str", "dict"], many=(1,), steps=3, full=False), opts=o))
    out.append(dict(name="queries", func=queries, opts=o))
    out.append(dict(name="copied", func=copied))
    return out


def two(h, forms, many):
    from appletree import Parameter

    kinds = ("free", "fixed", "free")
    par = Parameter(config(h, kinds))
    want = {n: h.Sc(par.get_parameter(n)) for n in NAMES}
    for i, f in enumerate(forms):
        want = operation(h, i, par, want, [f], many)
    read_all(h, par, want, ["b", "c"], False)
