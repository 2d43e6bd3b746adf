"""P19: resource files are found in the documented order."""

BOUNDS = "every combination of existing files at all places a name can resolve to (the existence of each is a solver variable); plain, nested and absolute names; no base folder, absolute ones with and without trailing slash, relative and empty ones, set directly or as a configuration; auxiliary package and download service absent or present with and without the file; 1..2 lookups in a row"
ASSUMPTIONS = ["the file system answers by stat only (os.stat is replaced by the unknown file system for the paths concerned); the auxiliary package and the download service are stand-ins"]
FUNCTIONS = ["utils.get_file_path", "utils._get_abspath", "utils._package_path", "share.set_global_config"]

NAMES = ("res_x.json", "sub_x/res_x.json", "/abs_x/res_x.json")
BASES = ("absent", "/base_x", "/base_x/", "/base_x/deep", "base_x", "./base_x", "")
DIRS = ("maps", "data", "parameters", "instructs")


class Files:
    """An unknown file system."""

    def __init__(self, h):
        import os
        import stat
        import appletree

        self.h, self.flags = h, {}
        self.pkg = os.path.dirname(os.path.abspath(appletree.__file__))
        self.path = os.path
        real = os.stat

        def fake(path, *args, **kwargs):
            try:
                p = os.path.normpath(os.path.abspath(os.fspath(path)))
            except TypeError:
                return real(path, *args, **kwargs)
            if p in ("/base_x", "/base_x/deep"):
                return os.stat_result((stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            if not p.endswith("res_x.json"):
                return real(path, *args, **kwargs)
            if h.path(self.exists(p)):
                return os.stat_result((stat.S_IFREG | 0o644, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            raise FileNotFoundError(2, "No such file or directory", p)

        h.patch(os, "stat", fake)
        h.patch(os, "lstat", fake)

    def norm(self, p):
        return self.path.normpath(self.path.abspath(p))

    def exists(self, p):
        p = self.norm(p)
        if p not in self.flags:
            self.flags[p] = self.h.bool_(f"file_{len(self.flags)}")
        return self.flags[p]

    def places(self, fname, base, packaged_only=False):
        out = []
        if not packaged_only:
            out.append(fname)
            if base is not None and base.startswith("/"):
                out.append(self.path.join(base, fname))
        return out + [self.path.join(self.pkg, d, fname) for d in DIRS]


def judge(h, fs, r, places, extra, refusal, label=""):
    """extra: further places after the files, each (flag, answer)."""
    before = []
    if r.ok:
        got = fs.norm(str(r.value))
        cases = []
        for p in places:
            cases.append(h.all(*[h.not_(b) for b in before], fs.exists(p), fs.norm(p) == got))
            before.append(fs.exists(p))
        for there, answer in extra:
            cases.append(h.all(*[h.not_(b) for b in before], there, fs.norm(answer) == got))
            before.append(there)
        h.check(h.any(*cases), label + "the first existing place in the documented order")
    else:
        h.check(h.not_(h.any(*[fs.exists(p) for p in places], *[t for t, _ in extra])), label + "refused only if it is nowhere")
        h.check(isinstance(r.exc, refusal), label + "refusal")


def setup(h, name, base, how):
    """Configure the base folder; the one in force afterwards."""
    import appletree as apt
    from appletree.share import _cached_configs

    if base == "absent":
        return None
    if how == "direct":
        _cached_configs["url_base"] = base
        return base
    h.attempt(lambda: apt.set_global_config({"url_base": base}))
    return _cached_configs.get("url_base")


def services(h, fs, name, aux, mongo):
    import sys
    import types
    import appletree.utils as u

    extra = []
    if aux:
        there = h.bool_("aux_has")
        h.patch(u, "NT_AUX_INSTALLED", True)
        m = types.SimpleNamespace(list_private_files=lambda: [name] if h.path(there) else ["other"], get_abspath=lambda f: "/aux_x/" + f)
        h.patch(u, "ntauxfiles", m)
        extra.append((there, "/aux_x/" + name))
    else:
        h.patch(u, "NT_AUX_INSTALLED", False)
    if mongo:
        down = h.bool_("mongo_has")
        err = h.pick("mongo_error", [FileNotFoundError, ValueError])

        class Down:
            def download_single(self, f):
                if h.path(down):
                    return "/mongo_x/" + f
                raise err("no such file")

        fake = types.SimpleNamespace(mongo_storage=types.SimpleNamespace(MongoDownloader=Down))
        h.patch(u, "SKIP_MONGO_DB", False)
        old = sys.modules.get("utilix")
        sys.modules["utilix"] = fake
        h._cleanup.append(lambda: sys.modules.pop("utilix", None) if old is None else sys.modules.__setitem__("utilix", old))
        extra.append((down, "/mongo_x/" + name))
    else:
        h.patch(u, "SKIP_MONGO_DB", True)
    return extra


def lookup(h, name, how, aux=False, mongo=False, twice=False):
    import warnings
    from appletree.utils import get_file_path

    fs = Files(h)
    base = setup(h, name, h.pick("base", list(BASES)), how)
    extra = services(h, fs, name, aux, mongo)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = h.attempt(get_file_path, name)
        judge(h, fs, r, fs.places(name, base), extra, RuntimeError)
        if twice:
            other = NAMES[1] if name != NAMES[1] else NAMES[0]
            r = h.attempt(get_file_path, other)
            judge(h, fs, r, fs.places(other, base), [], RuntimeError, "second: ")


def packaged(h, name):
    from appletree.utils import _get_abspath

    fs = Files(h)
    r = h.attempt(_get_abspath, name)
    judge(h, fs, r, fs.places(name, None, True), [], FileNotFoundError)


def stored(h, name):
    """A configured file name is stored as the file found."""
    import warnings
    import appletree as apt
    from appletree.share import _cached_configs

    fs = Files(h)
    base = setup(h, name, h.pick("base", ["absent", "/base_x", "base_x"]), "direct")
    services(h, fs, name, False, False)
    table = h.flag("table")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = h.attempt(lambda: apt.set_global_config({"conf": {"a": name, "b": 1.5} if table else name}))
        if r.ok:
            v = _cached_configs["conf"]
            if table:
                h.check(v["b"] == 1.5 and set(v) == {"a", "b"}, "other entries")
                v = v["a"]
            r.value = v
        judge(h, fs, r, fs.places(name, base), [], RuntimeError)


def instances(tier):
    out = []

    def add(f, nm, **p):
        out.append(dict(name=nm, func=f, params=p, opts=dict(max_paths=4000)))

    for i, n in enumerate(NAMES):
        add(lookup, f"lookup_{i}", name=n, how="direct")
        add(lookup, f"lookup_set_{i}", name=n, how="set")
        add(lookup, f"lookup_aux_{i}", name=n, how="direct", aux=True)
        add(lookup, f"lookup_mongo_{i}", name=n, how="direct", mongo=True)
        add(lookup, f"lookup_all_{i}", name=n, how="direct", aux=True, mongo=True)
        add(packaged, f"packaged_{i}", name=n)
        add(stored, f"stored_{i}", name=n)
        if tier == "thorough":
            add(lookup, f"lookup_twice_{i}", name=n, how="direct", twice=True)
            add(lookup, f"lookup_set_all_{i}", name=n, how="set", aux=True, mongo=True)
    return out
