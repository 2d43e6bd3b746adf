"""Parameter configurations with unknown numbers, and what they mean."""
import math

KINDS = ("norm", "twohalfnorm", "uniform", "free", "fixed")
ERRORS = [(1.0, 1.0), (0.5, 0.4), (0.2, 0.35)]
W = dict(lo=-100, hi=100)
S = dict(lo=0.0625, hi=100)


class Par:
    """One parameter: its configuration entry and the unknowns in it."""

    def __init__(self, h, name, kind, errors=None, fixed_range=False):
        self.h, self.name, self.kind = h, name, kind
        r = lambda s, k=W: h.real(f"{name}_{s}", **k)
        self.lo, self.hi = r("lo"), r("hi")
        h.assume(h.Sc(self.lo) <= self.hi)
        self.init_mean, self.init_std = r("im"), r("is", S)
        c = {"prior_type": kind, "prior_args": {}, "allowed_range": [self.lo, self.hi], "init_mean": self.init_mean, "init_std": self.init_std, "unit": "1", "doc": "x"}
        a = c["prior_args"]
        if kind == "norm":
            a["mean"], a["std"] = self.loc, self.scale = r("mean"), r("std", S)
        elif kind == "twohalfnorm":
            a["mu"] = self.loc = r("mu")
            a["sigma_pos"], a["sigma_neg"] = errors
        elif kind == "uniform":
            a["lower"], a["upper"] = self.a, self.b = r("low"), r("up")
            h.assume(h.Sc(self.b) >= self.a)
        elif kind == "fixed":
            a["val"] = self.val = r("val")
            if not fixed_range:
                c["allowed_range"] = None
                c["init_mean"] = c["init_std"] = None
        self.config = c
        self.sigmas = None

    def inside(self, v):
        return self.h.all(self.h.Sc(v) >= self.lo, self.h.Sc(v) <= self.hi)

    def term(self, v):
        """Prior term inside the allowed range."""
        h = self.h
        v = h.Sc(v)
        if self.kind == "norm":
            return -(v - self.loc) * (v - self.loc) / (2 * h.Sc(self.scale) * self.scale)
        if self.kind == "twohalfnorm":
            sp, sn = map(h.Sc, self.sigmas)
            d = v - self.loc
            return h.ite(d < 0, -d * d / (2 * sn * sn), -d * d / (2 * sp * sp)) + h.log(2 / (sp + sn) / math.sqrt(2 * math.pi))
        return h.Sc(0)


def chi2_tail():
    """Probability outside one standard deviation of a normal."""
    return 1 - math.erf(1 / math.sqrt(2))


def solved(h, errors, name="sigma"):
    """Widths of the two-half-normal matching the 68% errors, as the code computes them, verified."""
    from appletree.utils import errors_to_two_half_norm_sigmas

    s = errors_to_two_half_norm_sigmas(list(errors))
    sp, sn = float(s[0]), float(s[1])
    matching(h, errors, sp, sn)
    return sp, sn


def matching(h, errors, sp, sn):
    p = chi2_tail()
    sp, sn = h.Sc(sp), h.Sc(sn)
    e, f = h.Sc(errors[0]), h.Sc(errors[1])
    r2 = math.sqrt(2)
    h.close(sp / (sp + sn) * (1 - h.erf(e / sp / r2)), p / 2, "upper error is the 84th percentile")
    h.close(sn / (sp + sn) * (1 - h.erf(f / sn / r2)), p / 2, "lower error is the 16th percentile")


def unknown_solution(h, name="root"):
    """The root finder returns an arbitrary positive solution of the equations it is given."""
    import appletree.utils as U
    import scipy.optimize as O

    out = []

    class Res:
        success = True

    def root(fun, x0, args=(), **kw):
        sp, sn = h.real(f"{name}{len(out)}_p", **S), h.real(f"{name}{len(out)}_n", **S)
        out.append((sp, sn))
        r = Res()
        r.x = h.np_array([sp, sn])
        for z in fun(r.x, *(args if isinstance(args, tuple) else (args,))):
            h.assume(h.all(h.abs(h.Sc(z)) <= 1e-6))
        return r

    h.patch(U, "root", root)
    h.patch(O, "root", root)
    return out
