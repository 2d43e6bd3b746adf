"""P20: uncertainty maps interpolate between their lower, median and upper curves."""

BOUNDS = "uncertainty maps made of three 1D maps (point and regular binning, 2..3 nodes, symbolic coordinates and values), any scaler value in [-5, 5]; every way of configuring them: default or user value, list of 3, list of 4, single file, one value or one per likelihood"
FUNCTIONS = ["config.SigmaMap.build", "config.SigmaMap.apply", "config.SigmaMap.required_parameter", "config.SigmaMap.get_configs", "config.Map.build"]


def curves(h, n, kind="point"):
    """n map files on a common grid with independent values"""
    if kind == "point":
        xs = h.increasing("x", 3, lo=-50, hi=50, gap=0.125)
    else:
        lo = h.real("lo", lo=-50, hi=50)
        hi = h.real("hi", lo=-50, hi=50)
        h.assume(h.Sc(hi) - lo >= 0.125)
        xs = [h.Sc(lo), h.Sc(hi)]
    out = []
    for k in range(n):
        vs = h.reals(f"v{k}_", len(xs), lo=-50, hi=50)
        if kind == "point":
            d = {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": xs, "map": vs}
        else:
            d = {"coordinate_type": "regbin", "coordinate_name": ["x"], "coordinate_lowers": [lo], "coordinate_uppers": [hi], "map": vs}
        out.append((h.json_file(f"m{k}.json", d), vs))
    return xs, out


def cell(h, x, xs):
    for i, b in enumerate(xs):
        if h.path(h.Sc(x) < b):
            return i - 1
    return len(xs) - 1


def value(h, q, xs, vs, c):
    if c < 0:
        return h.Sc(vs[0])
    if c == len(xs) - 1:
        return h.Sc(vs[-1])
    return h.Sc(vs[c]) + (h.Sc(vs[c + 1]) - vs[c]) * (h.Sc(q) - xs[c]) / (h.Sc(xs[c + 1]) - xs[c])


def expected(h, q, s, xs, med, low, up):
    c = cell(h, q, xs)
    m, l, u = [value(h, q, xs, v, c) for v in (med, low, up)]
    if h.path(h.Sc(s) > 0):
        return m + h.Sc(s) * (u - m)
    return m + h.Sc(s) * (m - l)


def combine(h, form, kind, method):
    import appletree as apt
    from appletree.share import _cached_configs

    n = 3 if form != "single" else 1
    xs, fs = curves(h, n, kind)
    if form == "single":
        fs = fs * 3
    paths = [p for p, _ in fs]
    llh = h.pick("llh", [None, "llh_a"])
    cfg = {"single": paths[0], "three": paths, "four": paths + ["my_scaler"]}[form]
    where = h.pick("where", ["default", "user", "per_likelihood"] if llh else ["default", "user"])
    default = cfg
    if where != "default":
        default = h.json_file("unused.json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": [7.0, 7.0]})
    sm = apt.SigmaMap(name="smap", method=method, default=default)
    sm.taken_by = "check"
    if where == "user":
        _cached_configs["smap"] = cfg
    elif where == "per_likelihood":
        _cached_configs["smap"] = {"llh_a": cfg, "llh_b": "elsewhere.json"}
    sm.build(llh_name=llh)
    want_par = {"single": None, "three": "smap_sigma", "four": "my_scaler"}[form]
    h.check(sm.required_parameter() == want_par, "reported parameter")
    h.check(sm.required_parameter(llh_name=llh) == want_par, "reported parameter of the likelihood")
    q = h.real("q", lo=-100, hi=100)
    s = h.real("s", lo=-5, hi=5)
    other = h.real("other", lo=-5, hi=5)
    pars = {"smap_sigma": other, "my_scaler": other, "smap": other, "z": other}
    if want_par:
        pars[want_par] = s
        out = sm.apply(h.array([q]), pars)
    else:
        out = sm.apply(h.array([q]), {} if h.flag("nopar") else pars)
    h.check(h.shape(out) == (1,), "shape")
    med, low, up = [v for _, v in fs]
    if form == "single":
        want = value(h, q, xs, med, cell(h, q, xs))
    else:
        want = expected(h, q, s, xs, med, low, up)
    h.close(h.S(out)[0], want, "median, moved linearly towards the upper / lower curve")


def anchors(h):
    """Exactly the median, upper and lower curves at 0, 1 and -1."""
    import appletree as apt

    xs, fs = curves(h, 3)
    sm = apt.SigmaMap(name="smap", default=[p for p, _ in fs])
    sm.taken_by = "check"
    sm.build(llh_name=h.pick("llh", [None, "llh_a"]))
    s, k = h.pick("scaler", [(0.0, 0), (-1.0, 1), (1.0, 2)])
    q = h.real("q", lo=-100, hi=100)
    out = sm.apply(h.array([q]), {"smap_sigma": s})
    h.close(h.S(out)[0], value(h, q, xs, fs[k][1], cell(h, q, xs)), "curve at scaler 0, -1, +1")


def two_likelihoods(h):
    """Two instances of the same map in two likelihoods use their own files and scalers."""
    import appletree as apt
    from appletree.share import _cached_configs

    xs, fs = curves(h, 6)
    paths = [p for p, _ in fs]
    _cached_configs["smap"] = {"A": paths[:3] + ["sa"], "B": paths[3:]}
    maps = {}
    for n in h.perm("order", ["A", "B"]):
        m = apt.SigmaMap(name="smap", default=paths[:3])
        m.taken_by = "check"
        m.build(llh_name=n)
        maps[n] = m
    h.check(maps["A"].required_parameter() == "sa" and maps["B"].required_parameter() == "smap_sigma", "own scaler")
    q = h.real("q", lo=-100, hi=100)
    sa, sb = h.real("sa", lo=-5, hi=5), h.real("sb", lo=-5, hi=5)
    pars = {"sa": sa, "smap_sigma": sb}
    for n, s, k in (("A", sa, 0), ("B", sb, 3)):
        out = maps[n].apply(h.array([q]), pars)
        h.close(h.S(out)[0], expected(h, q, s, xs, *[v for _, v in fs[k : k + 3]]), "own curves of likelihood " + n)


def instances(tier):
    F = dict(fork_index=True)
    out = []
    for form in ("single", "three", "four"):
        for kind, me in (("point", "LERP"), ("regbin", "IDW")) + ((("point", "IDW"),) if tier == "thorough" else ()):
            out.append(dict(name=f"{form}_{kind}_{me}", func=combine, params=dict(form=form, kind=kind, method=me), opts=F))
    out.append(dict(name="anchors", func=anchors, opts=F))
    out.append(dict(name="two_likelihoods", func=two_likelihoods, opts=F))
    return out
