"""Rational-function normal form: decides identities over all real values of the atoms."""
from fractions import Fraction

import z3

LIMIT = 6000


class TooBig(Exception):
    pass


def _mul(a, b):
    if len(a) * len(b) > 4 * LIMIT:
        raise TooBig()
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, p in m2:
                d[k] = d.get(k, 0) + p
            m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + c1 * c2
    out = {m: c for m, c in out.items() if c}
    if len(out) > LIMIT:
        raise TooBig()
    return out


def _add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self, sq=None):
        self.cache = {}
        self.dens = []
        self.atoms = {}
        self.apps = {}
        self.sq = sq or {}

    def frac(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][0]
        r = self._frac(e)
        self.cache[k] = (r, e)
        return r

    def atom(self, e):
        k = e.get_id()
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_real(a) for a in e.children()):
            # same function at identical arguments
            args = [self.frac(a) for a in e.children()]
            for k2, e2, args2 in self.apps.setdefault(e.decl().name(), []):
                if all(_mul(n1, d2) == _mul(n2, d1) for (n1, d1), (n2, d2) in zip(args, args2)):
                    k = k2
                    break
            else:
                self.apps[e.decl().name()].append((k, e, args))
        self.atoms.setdefault(k, e)
        return {((k, 1),): Fraction(1)}, ONE

    def _frac(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            return ({(): v} if v else {}), ONE
        if z3.is_add(e):
            n, d = {}, ONE
            for c in e.children():
                n2, d2 = self.frac(c)
                if d2 == d:
                    n = _add(n, n2)
                else:
                    n, d = _add(_mul(n, d2), _mul(n2, d)), _mul(d, d2)
            return n, d
        if z3.is_sub(e):
            ch = e.children()
            n, d = self.frac(ch[0])
            for c in ch[1:]:
                n2, d2 = self.frac(c)
                if d2 == d:
                    n = _add(n, n2, -1)
                else:
                    n, d = _add(_mul(n, d2), _mul(n2, d), -1), _mul(d, d2)
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            n, d = self.frac(e.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_mul(e):
            n, d = dict(ONE), dict(ONE)
            for c in e.children():
                n2, d2 = self.frac(c)
                n, d = _mul(n, n2), _mul(d, d2)
            return n, d
        if z3.is_div(e):
            n1, d1 = self.frac(e.arg(0))
            n2, d2 = self.frac(e.arg(1))
            self.dens.append(e.arg(1))
            return _mul(n1, d2), _mul(d1, n2)
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)):
            p = e.arg(1).as_fraction()
            if p.denominator == 1 and 0 <= p <= 6:
                n, d = dict(ONE), dict(ONE)
                b = self.frac(e.arg(0))
                for _ in range(int(p)):
                    n, d = _mul(n, b[0]), _mul(d, b[1])
                return n, d
        if z3.is_to_real(e) and z3.is_arith(e.arg(0)):
            a = e.arg(0)
            if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a) or z3.is_int_value(a) or z3.is_app_of(a, z3.Z3_OP_UMINUS):
                return self.frac(a)
            return self.atom(a)
        return self.atom(e)


def identical(a, b):
    """(True, denominators) if a == b is a rational identity in its atoms; sound where the denominators are non-zero."""
    n = Norm()
    try:
        n1, d1 = n.frac(a)
        n2, d2 = n.frac(b)
        if not d1 or not d2:
            return False, []
        return _mul(n1, d2) == _mul(n2, d1), n.dens
    except (TooBig, RecursionError):
        return False, []


def positive_form(e):
    """e as num/den with only non-negative coefficients -> (atoms that must be non-negative, denominators), else None.

    Atoms that occur only in even powers need no sign.
    """
    n = Norm()
    try:
        num, den = n.frac(e)
    except (TooBig, RecursionError):
        return None
    if not den:
        return None
    for poly in (num, den):
        if any(c < 0 for c in poly.values()):
            if all(c < 0 for q in (num, den) for c in q.values()):
                continue
            return None
    need = set()
    for poly in (num, den):
        for m in poly:
            for k, p in m:
                if p % 2:
                    need.add(k)
    return [n.atoms[k] for k in need], n.dens


def canonical(e, limit=60):
    """Expanded polynomial in a canonical order, or None when e is not a (small) polynomial."""
    n = Norm()
    try:
        num, den = n.frac(e)
    except (TooBig, RecursionError):
        return None
    if set(den) != {()} or len(num) > limit:
        return None
    d = den[()]
    terms = []
    for m, c in sorted(num.items()):
        fs = []
        for k, p in m:
            fs += [n.atoms[k]] * p
        q = c / d
        cv = z3.RealVal(str(q))
        if not fs:
            terms.append(cv)
        else:
            pr = fs[0] if len(fs) == 1 else z3.Product(*fs)
            terms.append(pr if q == 1 else cv * pr)
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def difference_bound(a, b, iv):
    """Upper bound of |a - b| from bounds of the atoms (iv: term -> (lo, hi)); None when there is none."""
    n = Norm()
    try:
        n1, d1 = n.frac(a)
        n2, d2 = n.frac(b)
        if not d1 or not d2:
            return None
        num = _add(_mul(n1, d2), _mul(n2, d1), -1)
        den = _mul(d1, d2)
    except (TooBig, RecursionError):
        return None

    def mono(m):
        lo = hi = Fraction(1)
        for k, p in m:
            l, u = iv(n.atoms[k])
            if isinstance(l, float) or isinstance(u, float):
                return None
            if p % 2 == 0:
                x, y = abs(l), abs(u)
                l, u = (Fraction(0) if l <= 0 <= u else min(x, y)), max(x, y)
            l, u = (l**p, u**p)
            c = [lo * l, lo * u, hi * l, hi * u]
            lo, hi = min(c), max(c)
        return lo, hi

    top = Fraction(0)
    for m, c in num.items():
        r = mono(m)
        if r is None:
            return None
        top += abs(c) * max(abs(r[0]), abs(r[1]))
    lo = hi = Fraction(0)
    for m, c in den.items():
        r = mono(m)
        if r is None:
            return None
        lo, hi = lo + min(c * r[0], c * r[1]), hi + max(c * r[0], c * r[1])
    if lo <= 0 <= hi:
        return None
    return top / min(abs(lo), abs(hi))
