"""P35: the accelerator memory fraction setting equals the request."""
from fractions import Fraction

BOUNDS = "every real request in [-10, 10] (one path per printed percentage)"
FUNCTIONS = ["utils.set_gpu_memory_usage"]
ENV = "XLA_PYTHON_CLIENT_MEM_FRACTION"


def memory(h):
    import os
    import appletree as apt

    f = h.real("fraction", lo=-10, hi=10)
    os.environ[ENV] = "untouched"
    r = h.attempt(apt.utils.set_gpu_memory_usage, f)
    if h.path(h.Sc(f) <= 0):
        h.check(r.raised and isinstance(r.exc, ValueError), "non-positive request refused")
        h.check(os.environ.get(ENV) == "untouched", "refusal leaves the setting alone")
        return
    h.check(r.ok, "positive request accepted")
    if r.raised:
        return
    try:
        got = Fraction(os.environ[ENV])
    except (ValueError, KeyError):
        got = None
    h.check(got is not None, "the setting is a number")
    if got is None:
        return
    want = h.min(h.floor(h.Sc(f) * 100), 99)
    # a request that is a whole percentage up to rounding may go either way
    h.check_margin(h.same(h.Sc(got) * 100, want), "percentage rounded down, at most 99", lambda: h.any(*[h.same(h.Sc(got) * 100, h.min(h.floor(h.Sc(f) * 100 + e), 99)) for e in (-1e-9, 0, 1e-9)]))


def instances(tier):
    o = dict(format_ints=1000, max_paths=2500, witnesses=4)
    return [dict(name="memory", func=memory, opts=o)]
