"""P03: the weighted sample reproduces the template."""
from checks import comp as M

BOUNDS = "1 or 2 axes with 2..3 bins (irregular and mesh), symbolic or fixed edges; 1..3 events anywhere except exactly on the outermost edges, any weight in [0, 1], any rate; likelihoods with up to 3 simulated and fixed components in any order"
ASSUMPTIONS = ["the simulation returns arbitrary columns (its construction is P14)", "no event sits exactly on an outermost edge (there the closed histogram bin and the open region differ)"]
FUNCTIONS = ["component.Component._clip", "component.ComponentSim.simulate_weighted_data", "component.ComponentFixed.simulate_weighted_data", "component.Component.get_normalization", "likelihood.Likelihood.simulate_weighted_data"]


def partition(h, bins, rows):
    """Fix which events are inside; returns the indices of those."""
    lim = M.outer(h, bins)
    inside = []
    for i, r in enumerate(rows):
        c = []
        for d, (lo, hi) in enumerate(lim):
            v = h.Sc(r[d])
            h.assume(h.all(h.not_(v == lo), h.not_(v == hi)))
            c += [v > lo, v < hi]
        if h.path(h.all(*c)):
            inside.append(i)
    return inside


def judge(h, out, rows, w, bins, kind, floor, norm, rate, denom, sim, inside):
    nd = len(bins)
    h.check(len(out) == nd + 1, "one column per observable and the weights")
    for d in range(nd):
        h.eq_list(out[d], [rows[i][d] for i in inside], "observables unchanged and in order")
    got = list(h.S(out[nd]).ravel())
    h.check(len(got) == len(inside), "one weight per retained event")
    if not inside or len(got) != len(inside):
        return
    rs, ws = [rows[i] for i in inside], [w[i] for i in inside]
    if norm == "on_sim":
        for g, x in zip(got, ws):
            h.close(g * denom, h.Sc(x) * rate, "weight: efficiency times rate per event")
    else:
        # no floor for a fixed component would make these coincide; its floor is set by all loaded events
        cells = M.template(h, kind, bins, rs if sim else rows, ws if sim else w, floor)
        tot = h.sum(cells)
        for g, x in zip(got, ws):
            h.close(g * tot, h.Sc(x) * rate, "weight: efficiency times the normalisation of the histogram")


def component(h, case, n, norm, floor, symbolic, fixed):
    import appletree as apt

    kind, bins = M.bins_of(h, case, symbolic)
    nd = len(bins)
    rows = [[h.real(f"v{i}_{d}", lo=-200, hi=200) for d in range(nd)] for i in range(n)]
    rate = h.real("rate", lo=-1000, hi=1000)
    names = ["cs1", "cs2"][:nd]
    if fixed:
        w = [1.0] * n
        paths = M.install(h, {"ac.csv": {a: [r[d] for r in rows] for d, a in enumerate(names)}})
        cls = type("Fixed", (apt.ComponentFixed,), dict(norm_type=norm, add_eps_to_hist=floor))
        c = cls(name="ac", llh_name="l", bins=M.arrays(h, bins), bins_type=kind, file_name=paths["ac.csv"])
        c.rate_name = "ac_rate"
        c.deduce(data_names=names)
        denom = n
    else:
        w = h.reals("w", n, lo=0, hi=1)
        cls = M.sim_class(h, [], lambda name, i: [[r[d] for r in rows] for d in range(nd)] + [w], norm_type=norm, add_eps_to_hist=floor)
        c = cls(name="ac", llh_name="l", bins=M.arrays(h, bins), bins_type=kind)
        c.rate_name = "ac_rate"
        denom = h.int_("batch", 1, 10**6)
    inside = partition(h, bins, rows)
    if norm == "on_pdf" and inside:
        ks = inside if not fixed else range(n)
        h.assume(h.sum(M.template(h, kind, bins, [rows[i] for i in ks], [w[i] for i in ks], floor)) > 1e-3)
    if norm == "on_pdf" and fixed and not inside and not floor:
        return
    for rep in range(2):
        pars = {"ac_rate": rate}
        if fixed:
            out = c.simulate_weighted_data(pars)
        else:
            if rep:
                return
            key, out = c.simulate_weighted_data(h.key("k"), denom, pars)
        judge(h, out, rows, w, bins, kind, floor, norm, rate, h.Sc(denom), not fixed, inside)
        # asking again gives the same: nothing kept is damaged


def likelihood(h, kinds, norm):
    """The sample of a likelihood is that of its components, one after the other."""
    import appletree as apt

    kind, bins = M.bins_of(h, "irreg1", False)
    names = h.perm("order", [f"c{i}" for i in range(len(kinds))])
    of = {f"c{i}": k for i, k in enumerate(kinds)}
    val = {c: h.reals("v_" + c + "_", 2, lo=0.25, hi=3.75) for c in names}
    wt = {c: h.reals("w_" + c + "_", 2, lo=Q14, hi=1) for c in names}
    rates = {c + "_rate": h.real("rate_" + c, lo=0, hi=100) for c in names}
    paths = M.install(h, {"data.csv": {"cs1": [1.0]}, **{c + ".csv": {"cs1": val[c]} for c in names}})
    calls = []
    sim = M.sim_class(h, calls, lambda name, i: [val[name], wt[name]], norm_type=norm)
    fix = type("Fixed", (apt.ComponentFixed,), dict(norm_type=norm))
    lk = apt.Likelihood("l", data_file_name=paths["data.csv"], bins_type="irreg", bins_on="cs1", bins=[bins[0]], clip=[0.0, 4.0])
    for c in names:
        if of[c] == "sim":
            lk.register_component(sim, c)
        else:
            lk.register_component(fix, c, paths[c + ".csv"])
    batch = h.int_("batch", 1, 10**6)
    _, out = lk.simulate_weighted_data(h.key("k"), batch, rates)
    h.check(len(out) == 2, "one column per observable and the weights")
    h.eq_list(out[0], [v for c in names for v in val[c]], "observables of all components in order")
    got = list(h.S(out[1]).ravel())
    want = []
    for c in names:
        w = wt[c] if of[c] == "sim" else [1.0, 1.0]
        den = h.Sc(batch) if of[c] == "sim" else 2
        if norm == "on_pdf":
            den = h.sum(M.template(h, kind, bins, [[v] for v in val[c]], w, True))
        want += [(h.Sc(x) * rates[c + "_rate"], den) for x in w]
    h.check(len(got) == len(want), "all events")
    for g, (num, den) in zip(got, want):
        h.close(g * den, num, "weights of all components in order")


from fractions import Fraction

Q14 = Fraction(1, 4)


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p))

    for norm in ("on_pdf", "on_sim"):
        for floor in (True, False):
            t = f"{norm}_{'floor' if floor else 'plain'}"
            for fixed in (False, True):
                for case, n, s in [("irreg1", 2, True), ("irreg2", 2, False), ("mesh2", 2, False)] + ([("mesh1", 3, True), ("irreg1", 3, True), ("irreg2", 2, True), ("irreg2", 3, False), ("mesh2", 3, False)] if big else []):
                    add(component, f"{'fix' if fixed else 'sim'}_{case}_{n}{'S' if s else ''}_{t}", case=case, n=n, norm=norm, floor=floor, symbolic=s, fixed=fixed)
        for kinds in [("sim", "fix"), ("sim", "sim")] + ([("sim", "fix", "sim"), ("fix", "fix")] if big else []):
            add(likelihood, f"llh_{'_'.join(kinds)}_{norm}", kinds=kinds, norm=norm)
    return out
