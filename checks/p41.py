"""P41: options that nothing uses are reported, and only those."""

from checks.p39 import Frame

BOUNDS = "histories of up to 4 steps (give options, change one, build a plugin for one of two likelihoods, list options, look up a file, clear the session) over options of every kind, given once for all or per likelihood, with all values"
ASSUMPTIONS = []
FUNCTIONS = ["utils.check_unused_configs", "share.RecordingDict", "share.clear_cache", "share.set_global_config", "config.Config._resolve_cached_config", "config.SigmaMap.get_configs"]


def reported(h, names):
    """Which options the warning names."""
    import warnings

    from appletree.utils import check_unused_configs

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        check_unused_configs()
    text = " ".join(str(x.message) for x in w)
    h.check(len(w) <= 1, "one warning at most")
    found = {n for n in names if f"'{n}'" in text or f'"{n}"' in text}
    h.check(bool(w) == bool(found), "a warning only with something to say")
    return found


def history(h, steps, kinds):
    import appletree as apt
    import appletree.plugins as P
    from appletree.share import clear_cache, set_global_config
    from appletree.utils import get_file_path

    h.patch(apt.component.pd, "DataFrame", Frame)
    files = {}
    for n in ("m1", "m2", "m3", "m4"):
        files[n] = h.json_file(n + ".json", {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [0.0, 1.0], "map": h.reals(n + "_", 2, lo=-9, hi=9)})
    make = {
        "opt_const": lambda: apt.Constant(name="opt_const", default=1.0),
        "opt_set": lambda: apt.ConstantSet(name="opt_set", default=[["mu"], [[1.0, 2.0]]]),
        "opt_map": lambda: apt.Map(name="opt_map", method="LERP", default=files["m1"]),
        "opt_sigma": lambda: apt.SigmaMap(name="opt_sigma", method="LERP", default=[files["m1"], files["m2"], files["m3"]]),
    }
    values = {
        "opt_const": lambda n: h.real(f"c{n}", lo=-9, hi=9),
        "opt_set": lambda n: [["mu"], [h.reals(f"s{n}_", 2, lo=-9, hi=9)]],
        "opt_map": lambda n: files["m4"],
        "opt_sigma": lambda n: [files["m2"], files["m3"], files["m4"]],
        "opt_typo": lambda n: h.real(f"t{n}", lo=-9, hi=9),
    }
    names = list(kinds) + ["opt_typo"]

    def plugin(takes):
        def simulate(self, key, parameters, batch_size):
            return key, 0.0

        cls = type("Px", (apt.Plugin,), {"depends_on": ["batch_size"], "provides": ["x"], "parameters": (), "simulate": simulate})
        h.patch(P, "Px", cls)
        return apt.takes_config(*[make[t]() for t in takes])(cls) if takes else cls

    given, used = set(), set()
    for s in range(steps):
        what = h.pick(f"step{s}", ["give", "build", "list", "clear"])
        if what == "give":
            n = h.pick(f"given{s}", names)
            v = values[n](s)
            # maps of an uncertainty map become options of their own, which are used
            set_global_config({n: {"la": v, "lb": v} if h.flag(f"each{s}") else v})
            given.add(n)
        elif what == "build":
            takes = [k for k in kinds if h.flag(f"take{s}_{k}")]
            try:
                plugin(takes)(h.pick(f"llh{s}", ["la", "lb"]))
            except ValueError:
                # other files for an uncertainty map already in use are refused
                h.check("opt_sigma" in takes and "opt_sigma" in used, "only a contradiction is refused")
                return
            used |= set(takes)
        elif what == "list":
            c = apt.ComponentSim(name="er", llh_name="la")
            takes = [k for k in kinds if h.flag(f"take{s}_{k}")]
            c.register(plugin(takes))
            c.show_config(data_names=["x"])
        else:
            clear_cache()
            given, used = set(), set()
        h.check(reported(h, names) == given - used, "exactly the options given and not used")


def base(h, found):
    """A base folder is used when files are looked up in it."""
    import os

    import appletree as apt
    from appletree.utils import get_file_path

    p = os.path.join(h.tmp, "there.json")
    with open(p, "w") as f:
        f.write("{}")
    apt.set_global_config({"url_base": os.path.dirname(p), "other": h.real("v", lo=0, hi=1)})
    h.check(reported(h, ["url_base", "other"]) == {"url_base", "other"}, "nothing used yet")
    if found:
        h.check(get_file_path("there.json") == p, "found in the base folder")
        h.check(reported(h, ["url_base", "other"]) == {"other"}, "the base folder is used")


def instances(tier):
    big = tier == "thorough"
    out = []

    def add(name, func, **params):
        out.append(dict(name=name, func=func, params=params, opts=dict(max_paths=60000)))

    for k in ("opt_const", "opt_set", "opt_map", "opt_sigma"):
        add(f"history_{k[4:]}_3", history, steps=3, kinds=(k,))
        if big:
            add(f"history_{k[4:]}_4", history, steps=4, kinds=(k,))
    add("history_two_2", history, steps=2, kinds=("opt_const", "opt_sigma"))
    if big:
        add("history_two_3", history, steps=3, kinds=("opt_const", "opt_sigma"))
        add("history_maps_3", history, steps=3, kinds=("opt_map", "opt_set"))
    add("base_found", base, found=True)
    add("base_idle", base, found=False)
    return out
