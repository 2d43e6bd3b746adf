"""Interval evaluation of terms from the bounds known for the inputs (sound, never decisive on its own)."""
import math
from fractions import Fraction

import z3

INF = math.inf


def _up(x):
    return x if isinstance(x, Fraction) or math.isinf(x) else Fraction(x)


def _mul1(a, b):
    if a == 0 or b == 0:
        return Fraction(0)
    if isinstance(a, float) or isinstance(b, float):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def _big(x):
    """Keep the numbers small: round outwards is done by the caller."""
    return isinstance(x, Fraction) and x.denominator.bit_length() + x.numerator.bit_length() > 400


def _round(x, up):
    """128 significant bits, outwards."""
    k = 128 - (x.numerator.bit_length() - x.denominator.bit_length())
    y = x * 2**k if k >= 0 else x / 2**-k
    n = math.ceil(y) if up else math.floor(y)
    return Fraction(n, 2**k) if k >= 0 else Fraction(n * 2**-k)


def norm(lo, hi):
    if _big(lo):
        lo = _round(lo, False)
    if _big(hi):
        hi = _round(hi, True)
    return lo, hi


def mul(a, b):
    c = [_mul1(x, y) for x in a for y in b]
    return norm(min(c), max(c))


def add(a, b):
    lo = -INF if a[0] == -INF or b[0] == -INF else a[0] + b[0]
    hi = INF if a[1] == INF or b[1] == INF else a[1] + b[1]
    return norm(lo, hi)


def const(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


FULL = (-INF, INF)


class Box:
    def __init__(self):
        self.b = {}  # const id -> [lo, hi, term]
        self.version = 0
        self.memo = {}
        self.bmemo = {}

    # ---- facts
    def learn(self, c, pos=True, depth=6):
        if depth == 0:
            return
        if z3.is_and(c) and pos or z3.is_or(c) and not pos:
            for x in c.children():
                self.learn(x, pos, depth - 1)
            return
        if z3.is_not(c):
            self.learn(c.arg(0), not pos, depth - 1)
            return
        k = c.decl().kind() if z3.is_app(c) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_arith(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        rel = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<=", z3.Z3_OP_GT: ">=", z3.Z3_OP_EQ: "="}[k]
        if not pos:
            if rel == "=":
                return
            rel = "<=" if rel == ">=" else ">="
        v = const(b)
        if v is None:
            v, a = const(a), b
            rel = {"<=": ">=", ">=": "<=", "=": "="}[rel]
        if v is None or const(a) is not None:
            return
        # strip a linear factor: c * t
        if z3.is_mul(a) and a.num_args() == 2 and const(a.arg(0)) not in (None, 0):
            f = const(a.arg(0))
            a, v = a.arg(1), v / f
            if f < 0 and rel != "=":
                rel = "<=" if rel == ">=" else ">="
        cur = self.b.setdefault(a.get_id(), [-INF, INF, a])
        if rel in ("<=", "=") and v < cur[1]:
            cur[1] = v
            self.version += 1
        if rel in (">=", "=") and v > cur[0]:
            cur[0] = v
            self.version += 1

    # ---- evaluation
    def iv(self, e):
        k = e.get_id()
        m = self.memo.get(k)
        if m is not None and m[2] == self.version:
            return m[0]
        r = self._iv(e)
        own = self.b.get(k)
        if own is not None:
            r = (max(r[0], own[0]), min(r[1], own[1]))
        self.memo[k] = (r, e, self.version)
        return r

    def _iv(self, e):
        v = const(e)
        if v is not None:
            return (v, v)
        if not z3.is_app(e):
            return FULL
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if len(ch) == 1 and z3.is_arith(ch[0]):
                return self._fun(n, self.iv(ch[0]))
            return FULL
        if k == z3.Z3_OP_ADD:
            r = (Fraction(0), Fraction(0))
            for c in ch:
                r = add(r, self.iv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.iv(ch[0])
            for c in ch[1:]:
                x = self.iv(c)
                r = add(r, (-x[1], -x[0]))
            return r
        if k == z3.Z3_OP_UMINUS:
            x = self.iv(ch[0])
            return (-x[1], -x[0])
        if k == z3.Z3_OP_MUL:
            groups = {}
            for c in ch:
                groups.setdefault(c.get_id(), [c, 0])[1] += 1
            r = (Fraction(1), Fraction(1))
            for c, n in groups.values():
                x = self.iv(c)
                p = (Fraction(1), Fraction(1))
                if n % 2 == 0:
                    a = (Fraction(0) if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
                    for _ in range(n):
                        p = mul(p, a)
                else:
                    for _ in range(n):
                        p = mul(p, x)
                r = mul(r, p)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.iv(ch[0]), self.iv(ch[1])
            if b[0] > 0 or b[1] < 0:
                inv = lambda x: Fraction(0) if isinstance(x, float) else 1 / x
                return mul(a, (inv(b[1]), inv(b[0])))
            if b[0] == 0 and b[1] > 0:  # positive wherever defined
                if a[0] >= 0:
                    return (Fraction(0), INF) if not z3.is_rational_value(ch[1]) and self._defined(ch[1]) else FULL
            return FULL
        if k == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            if c is True:
                return self.iv(ch[1])
            if c is False:
                return self.iv(ch[2])
            a, b = self.iv(ch[1]), self.iv(ch[2])
            # minimum / maximum against a bound
            g = ch[0]
            if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                p, q = g.arg(0), g.arg(1)
                if g.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    p, q = q, p  # p <= q
                if p.eq(ch[1]) and q.eq(ch[2]):
                    return (min(a[0], b[0]), min(a[1], b[1]))
                if p.eq(ch[2]) and q.eq(ch[1]):
                    return (max(a[0], b[0]), max(a[1], b[1]))
            return (min(a[0], b[0]), max(a[1], b[1]))
        if k == z3.Z3_OP_TO_REAL:
            return self.iv(ch[0])
        if k == z3.Z3_OP_TO_INT:
            x = self.iv(ch[0])
            f = lambda y: y if isinstance(y, float) else Fraction(math.floor(y))
            return (f(x[0]), f(x[1]))
        if k == z3.Z3_OP_POWER:
            p = const(ch[1])
            if p is not None and p.denominator == 1 and p > 0 and p % 2 == 0:
                return (Fraction(0), INF)
            return FULL
        return FULL

    def _defined(self, e):
        return False

    def _fun(self, n, x):
        n = n[2:] if n.startswith("f_") else n
        lo, hi = x
        e9 = Fraction(1, 10**9)

        def ap(f, v, up):
            try:
                r = Fraction(f(float(v)))
            except (OverflowError, ValueError):
                return INF if up else None
            return r + abs(r) * e9 if up else r - abs(r) * e9

        if n == "sqrt":
            l = ap(math.sqrt, lo, False) if lo > 0 and not math.isinf(lo) else Fraction(0)
            if lo < 0:
                return FULL  # unconstrained outside its domain
            return (l if l is not None else Fraction(0), INF if hi == INF else ap(math.sqrt, hi, True))
        if n == "exp":
            l = Fraction(0)
            if lo != -INF:
                l = ap(math.exp, lo, False) or Fraction(0) if lo < 700 else Fraction(0)
            return (l, INF if hi == INF or hi > 700 else ap(math.exp, hi, True))
        if n == "log" and lo > 0:
            l = -INF if lo == INF else Fraction(math.log(lo)) - e9 * (1 + abs(Fraction(math.log(lo))))
            return (l, INF if hi == INF else Fraction(math.log(hi)) + e9 * (1 + abs(Fraction(math.log(hi)))))
        if n in ("erf", "tanh", "sin", "cos"):
            return (Fraction(-1), Fraction(1))
        return FULL

    def bool(self, e):
        k = e.get_id()
        m = self.bmemo.get(k)
        if m is not None and m[2] == self.version:
            return m[0]
        r = self._bool(e)
        self.bmemo[k] = (r, e, self.version)
        return r

    def _bool(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if not z3.is_app(e):
            return None
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_NOT:
            x = self.bool(ch[0])
            return None if x is None else not x
        if k == z3.Z3_OP_AND:
            xs = [self.bool(c) for c in ch]
            return False if False in xs else (True if all(x is True for x in xs) else None)
        if k == z3.Z3_OP_OR:
            xs = [self.bool(c) for c in ch]
            return True if True in xs else (False if all(x is False for x in xs) else None)
        if k == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            if c is not None:
                return self.bool(ch[1] if c else ch[2])
            a, b = self.bool(ch[1]), self.bool(ch[2])
            return a if a == b else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_arith(ch[0]):
            a, b = ch
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            x, y = self.iv(a), self.iv(b)
            if strict:
                if x[1] < y[0]:
                    return True
                if x[0] >= y[1]:
                    return False
            else:
                if x[1] <= y[0]:
                    return True
                if x[0] > y[1]:
                    return False
            return None
        if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
            x, y = self.iv(ch[0]), self.iv(ch[1])
            if x[1] < y[0] or y[1] < x[0]:
                return False
            if x[0] == x[1] == y[0] == y[1] and not isinstance(x[0], float):
                return True
            return None
        return None
