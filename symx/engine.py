"""Path exploration, solver queries and counterexample handling."""
import math
import subprocess
import tempfile
import os
import sys
import sys
import time
from fractions import Fraction

import numpy as np
import z3

from . import dom as D
from .dom import R, Unsupported
from .interval import Box


SLOW = float(os.environ.get("SYMX_SLOW", 0))


class PathStop(BaseException):
    """End of the current path (infeasible or cut)."""


class Infeasible(PathStop):
    pass


class Cut(PathStop):
    pass


class ViolationFound(PathStop):
    pass


class Inconclusive(BaseException):
    pass


class Deadline(BaseException):
    pass


class Stats:
    SUM = "queries unsat sat unknown solver_s paths decisions eqns checks trivial reach forks_infeasible witnesses refinements replays".split()

    def __init__(self):
        self.witnesses = self.refinements = self.replays = 0
        self.queries = 0
        self.hard = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.cuts = {}
        self.decisions = 0
        self.eqns = 0
        self.functions = set()
        self.checks = 0
        self.trivial = 0
        self.labels = {}
        self.backends = {}
        self.reach = 0
        self.forks_infeasible = 0


class Ctx:
    """Symbolic state of one path."""

    def __init__(self, prefix, opts, stats):
        self.prefix = list(prefix)
        self.pos = 0
        self.log = []  # (choice, [alternatives not explored])
        self.opts = opts
        self.stats = stats
        self.overflow = opts.get("overflow", False)
        self.fork_index = opts.get("fork_index", False)
        self.fork_ite = opts.get("fork_ite", False)
        self.max_unroll = opts.get("max_unroll", 4)
        self.solver = z3.Solver()
        self.solver.set("random_seed", 1)
        self.constraints = []
        self.box = Box()
        self.lin = None  # the linear part of the constraints, once there is a non-linear one
        self.nlmemo = {}
        self.memo = {}
        self.ufs = {}  # name -> list of (t, x)
        self.uf_seen = {}
        self.nfresh = 0
        self.inputs = []  # (name, kind, z3 const, meta)
        self.draws = []  # list of dicts (name, elements)
        self.keys = []  # (what, keyterm)
        self.decide_cache = {}
        self.overflow_check = True
        self.deadline = opts.get("deadline")
        self.n_eqns = 0
        self.pruned = {}

    # ---- interface used by dom/interp
    def add(self, c):
        if D.is_b(c):
            if not c:
                raise Infeasible()
            return
        self.constraints.append(c)
        self.solver.add(c)
        self.box.learn(c)
        nl = self.nonlinear(c)
        if nl and self.lin is None:
            self.lin = z3.Solver()
            self.lin.set("random_seed", 1)
            self.lin.add(*self.constraints[:-1])
        elif not nl and self.lin is not None:
            self.lin.add(c)

    def nonlinear(self, e):
        k = e.get_id()
        if k in self.nlmemo:
            return self.nlmemo[k][0]
        r = False
        if z3.is_mul(e):
            r = sum(1 for x in e.children() if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1
        elif z3.is_div(e):
            r = not z3.is_rational_value(e.arg(1))
        elif z3.is_app_of(e, z3.Z3_OP_POWER):
            r = True
        r = r or any(self.nonlinear(x) for x in e.children())
        self.nlmemo[k] = (r, e)
        return r

    def fresh_int(self, name):
        self.nfresh += 1
        return z3.Int(f"{name}!{self.nfresh}")

    def fresh_real(self, name):
        self.nfresh += 1
        return z3.Real(f"{name}!{self.nfresh}")

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool(f"{name}!{self.nfresh}")

    def note_function(self, name):
        self.stats.functions.add(name)

    def note_key(self, kind, key):
        self.keys.append((kind, key))

    def side_condition(self, cond, msg):
        """Encoding is only valid under cond: must hold on every path."""
        if D.is_b(cond):
            if not cond:
                raise Unsupported(msg)
            return
        r = self._query(D.to_z3b(D.b_not(cond)), timeout=5000)
        if r != "unsat":
            raise Unsupported("side condition may fail: " + msg)

    def cut(self, msg):
        self.stats.cuts[msg] = self.stats.cuts.get(msg, 0) + 1
        raise Cut(msg)


    def _quick(self, c, timeout):
        b = self.box.bool(c)
        if b is False:
            return "unsat"
        if self.lin is not None:
            # unsatisfiable already without the non-linear constraints?
            self.lin.push()
            self.lin.add(c)
            self.lin.set("timeout", min(timeout, 300))
            t = time.time()
            r = self.lin.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            self.lin.pop()
            if r == z3.unsat:
                return "unsat"
            if self.opts.get("quick_linear"):
                return "unknown"
        # the full constraints have been too hard before: spend less on the next such question
        timeout = max(40, timeout >> min(self.stats.hard, 6))
        self.solver.push()
        self.solver.add(c)
        self.solver.set("timeout", timeout)
        t = time.time()
        r = self.solver.check()
        self.stats.hard = self.stats.hard + 1 if r == z3.unknown else max(0, self.stats.hard - 1)
        self.stats.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            print(f"SLOW quick {time.time()-t:.2f}s {r} {str(c)[:600]}", flush=True)
        self.stats.queries += 1
        self.solver.pop()
        return str(r)

    def prune(self, cond):
        """False if cond is impossible on this path; otherwise cond itself."""
        if D.is_b(cond):
            return bool(cond)
        if not self.opts.get("prune", True):
            return cond
        s = z3.simplify(cond)
        if z3.is_false(s):
            return False
        if z3.is_true(s) or self.box.bool(s) is True:
            return True
        k = s.get_id()
        if k in self.pruned:
            return self.pruned[k][0]
        r = self._quick(s, self.opts.get("prune_ms", 1000))
        out = False if r == "unsat" else cond
        self.pruned[k] = (out, s)
        return out

    def uf_axioms(self, name, t, x, axioms):
        k = (name, t.get_id())
        if k in self.uf_seen:
            return
        self.uf_seen[k] = t
        ax, pair = axioms
        for c in ax(t, x):
            self.add(c)
        lst = self.ufs.setdefault(name, [])
        if pair is not None:
            for t2, x2 in lst:
                for c in pair(t, x, t2, x2):
                    self.add(c)
        lst.append((t, x))

    def canon(self, e):
        """The same value on this path as a canonical term."""
        k = ("canon", e.get_id())
        if k in self.memo:
            return self.memo[k][0]
        from . import poly

        out = e
        if has_ite(e):
            out = self.force_ints(self.resolve_ites(e, smt=False))
        c = poly.canonical(out)
        if c is not None:
            iv = self.box.iv(e)
            if c.get_id() not in self.box.b:
                self.box.b[c.get_id()] = [iv[0], iv[1], c]
            out = c
        self.memo[k] = (out, e)
        return out

    def resolve_ites(self, cond, limit=80, smt=True):
        """Drop case distinctions the path has decided."""
        ites, seen, stack = {}, set(), [cond]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                ites.setdefault(e.arg(0).get_id(), (e.arg(0), []))[1].append(e)
            stack.extend(e.children())
        if not ites or smt and len(ites) > limit:
            return cond
        sub, sub2 = [], []
        for k, (b, es) in ites.items():
            v = self.forced_bool(b) if smt else self.forced_lin(b)
            if v is not None:
                sub.append((b, z3.BoolVal(v)))
                continue
            if not smt:
                continue
            # undecided only where both alternatives agree
            for e in es:
                x, y = e.arg(1), e.arg(2)
                if not z3.is_arith(x):
                    continue
                if self.forced_bool(z3.And(b, x != y)) is False:
                    sub2.append((e, y))
                elif self.forced_bool(z3.And(z3.Not(b), x != y)) is False:
                    sub2.append((e, x))
        if not sub and not sub2:
            return cond
        if sub2:
            cond = z3.substitute(cond, *sub2)
        if sub:
            cond = z3.substitute(cond, *sub)
        return z3.simplify(cond)

    def force_ints(self, cond):
        """Replace integer parts the path determines by their value."""
        sub, seen, stack = [], set(), [cond]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_INT or (z3.is_int(e) and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                v = self.forced_int(e)
                if v is not None:
                    sub.append((e, z3.IntVal(v)))
                    continue
            stack.extend(e.children())
        return z3.simplify(z3.substitute(cond, *sub)) if sub else cond

    def forced_int(self, e):
        k = ("forced", e.get_id())
        if k not in self.memo:
            v = None
            s = self.solver if self.lin is None else self.lin
            s.set("timeout", 500)
            self.stats.queries += 1
            if s.check() == z3.sat:
                m = s.model().eval(e, model_completion=True)
                if z3.is_int_value(m) and self._quick(e != m, 500) == "unsat":
                    v = m.as_long()
            self.memo[k] = (v, e)
        return self.memo[k][0]

    def forced_bool(self, b):
        k = ("fb", b.get_id())
        if k not in self.memo or self.memo[k][0] is None and self.memo[k][2] != len(self.constraints):
            v = self.box.bool(b)
            if v is not None:
                pass
            elif self._quick(b, 500) == "unsat":
                v = False
            elif self._quick(z3.Not(b), 500) == "unsat":
                v = True
            self.memo[k] = (v, b, len(self.constraints))
        return self.memo[k][0]

    def forced_lin(self, b):
        """Decided by the bounds or by the linear constraints alone?"""
        v = self.box.bool(b)
        if v is None and not self.nonlinear(b):
            k = ("fl", b.get_id(), len(self.constraints))
            if k not in self.memo:
                s = self.lin if self.lin is not None else self.solver
                r = []
                for x in (b, z3.Not(b)):
                    s.push()
                    s.add(x)
                    s.set("timeout", 300)
                    self.stats.queries += 1
                    r.append(s.check() == z3.unsat)
                    s.pop()
                self.memo[k] = (False if r[0] else True if r[1] else None, b)
            v = self.memo[k][0]
        return v

    # ---- forking
    def _check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Deadline()

    def decide(self, cond):
        if D.is_b(cond):
            return bool(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self._check_time()
        k = s.get_id()
        if k in self.decide_cache:
            return self.decide_cache[k][0]
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.log.append((v, []))
        else:
            t = self._quick(s, self.opts.get("branch_ms", 2000)) != "unsat"
            f = True if not t else self._quick(z3.Not(s), self.opts.get("branch_ms", 2000)) != "unsat"
            if t and f:
                v = True
                self.log.append((True, [False]))
            elif t:
                v = True
                self.log.append((True, []))
                self.stats.forks_infeasible += 1
            elif f:
                v = False
                self.log.append((False, []))
                self.stats.forks_infeasible += 1
            else:
                raise Infeasible()
            self.pos += 1
            self.prefix.append(v)
        self.add(s if v else z3.Not(s))
        self.decide_cache[k] = (v, s)
        return v

    def concretize_int(self, expr, candidates):
        if D.is_ci(expr):
            return int(expr)
        s = z3.simplify(expr)
        if z3.is_int_value(s):
            return s.as_long()
        self._check_time()
        k = ("int", s.get_id())
        if k in self.decide_cache:
            return self.decide_cache[k][0]
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.log.append((v, []))
        else:
            ok = [c for c in candidates if self._quick(s == c, self.opts.get("branch_ms", 2000)) != "unsat"]
            if not ok:
                raise Infeasible()
            v = ok[0]
            self.log.append((v, ok[1:]))
            self.pos += 1
            self.prefix.append(v)
        self.add(s == v)
        self.decide_cache[k] = (v, s)
        return v

    # ---- queries
    def _query(self, negated, timeout=None, portfolio=True):
        """Is pc and negated satisfiable?  'unsat' / 'sat' / 'unknown' (model in self.model)."""
        st = self.stats
        timeout = timeout or self.opts.get("query_ms", 20000)
        self.model = None
        first = min(timeout, self.opts.get("first_ms", 4000))
        self.solver.push()
        self.solver.add(negated)
        self.solver.set("timeout", first)
        t0 = time.time()
        r = str(self.solver.check())
        st.solver_s += time.time() - t0
        st.queries += 1
        if r == "sat":
            self.model = self.solver.model()
        self.solver.pop()
        be = "z3-incremental"
        if SLOW and time.time() - t0 > SLOW:
            print(f"SLOW query {time.time()-t0:.2f}s {r} {str(negated)[:1500]}", flush=True)
        if r == "unknown" and portfolio:
            r, be = self._portfolio(negated, timeout)
        setattr(st, r, getattr(st, r) + 1)
        st.backends[be] = st.backends.get(be, 0) + 1
        return r

    def _portfolio(self, negated, timeout):
        asserts = self.constraints + [negated]
        t0 = time.time()
        # Ackermannised nlsat
        try:
            goal, back = ackermannize(asserts)
            has_int = any(_has_int(a) for a in goal)
            strategies = []
            if not has_int:
                strategies.append(("nlsat", z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "purify-arith", "simplify", "qfnra-nlsat") if False else z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat")))
            strategies.append(("z3-fresh", None))
            for nm, tac in strategies:
                s = tac.solver() if tac is not None else z3.Solver()
                s.set("timeout", timeout)
                for a in goal:
                    s.add(a)
                try:
                    r = str(s.check())
                except z3.Z3Exception:
                    r = "unknown"
                self.stats.queries += 1
                if r != "unknown":
                    self.stats.solver_s += time.time() - t0
                    if r == "sat":
                        # rebuild a model over the original symbols
                        self.model = AckModel(s.model(), back)
                    return r, nm
        except z3.Z3Exception:
            pass
        self.stats.solver_s += time.time() - t0
        t0 = time.time()
        r = cvc5_check(asserts, timeout)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == "sat":
            # no model transfer: treat as unknown unless z3 can confirm
            return "unknown", "cvc5-sat"
        return r, "cvc5"


def has_ite(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_TO_INT):
            return True
        stack.extend(x.children())
    return False


def _has_int(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT):
            return True
        if x.sort().kind() == z3.Z3_DATATYPE_SORT:
            return True
        stack.extend(x.children())
    return False


class AckModel:
    def __init__(self, m, back):
        self.m = m
        self.back = back  # original app id -> const

    def eval(self, e, model_completion=True):
        return self.m.eval(z3.substitute(e, *self.back) if self.back else e, model_completion=model_completion)

    def evaluate(self, e, model_completion=True):
        return self.eval(e, model_completion)


def ackermannize(asserts):
    """Replace applications of the uninterpreted f_* functions by constants (congruence added)."""
    sub = {}
    order = []
    cache = {}

    def rec(e):
        k = e.get_id()
        if k in cache:
            return cache[k][0]
        if e.num_args() == 0:
            out = e
        else:
            ch = [rec(c) for c in e.children()]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("f_"):
                key = (e.decl().name(), tuple(c.get_id() for c in ch))
                if key not in sub:
                    c = z3.Real(f"ack!{len(sub)}")
                    sub[key] = (c, ch)
                    order.append((e.decl().name(), c, ch))
                out = sub[key][0]
                backs.append((e, out))
            else:
                out = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) else (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch))
                if z3.is_distinct(e):
                    out = z3.Distinct(*ch)
                elif z3.is_add(e):
                    out = z3.Sum(*ch)
                elif z3.is_mul(e):
                    out = z3.Product(*ch)
        cache[k] = (out, e)
        return out

    backs = []
    goal = [rec(a) for a in asserts]
    byname = {}
    for n, c, ch in order:
        for c2, ch2 in byname.get(n, []):
            goal.append(z3.Implies(z3.And(*[a == b for a, b in zip(ch, ch2)]), c == c2))
        byname.setdefault(n, []).append((c, ch))
    return goal, backs


def cvc5_check(asserts, timeout):
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        o = subprocess.run(
            ["cvc5", "--tlimit", str(int(timeout)), "--nl-ext-tplanes", p],
            capture_output=True,
            text=True,
            timeout=timeout / 1000 + 10,
        )
        out = o.stdout.strip().splitlines()
        if "(error" in o.stdout or not out:
            return "unknown"
        return out[-1] if out[-1] in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(p)


# ------------------------------------------------------------- model values
sys.set_int_max_str_digits(0)


def _tame(x):
    """A nearby rational of moderate size."""
    if x is None or x.denominator.bit_length() < 64:
        return x
    k = 48 - (x.numerator.bit_length() - x.denominator.bit_length())
    return Fraction(round(x * 2**k), 2**k) if k >= 0 else x


def z3_to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


def eval_bool(model, c):
    if D.is_b(c):
        return bool(c)
    return z3.is_true(model.eval(c, model_completion=True))


def eval_elem(model, e):
    """Scalar domain element -> python value under a model."""
    if isinstance(e, R):
        if eval_bool(model, e.nan):
            return float("nan")
        if eval_bool(model, e.pinf):
            return float("inf")
        if eval_bool(model, e.ninf):
            return float("-inf")
        v = e.v
        if isinstance(v, Fraction):
            return float(v)
        f = z3_to_fraction(model.eval(v, model_completion=True))
        return None if f is None else float(f)
    if isinstance(e, Fraction):
        return float(e)
    if isinstance(e, z3.BoolRef):
        return eval_bool(model, e)
    if isinstance(e, (bool, np.bool_)):
        return bool(e)
    if isinstance(e, z3.ArithRef):
        f = z3_to_fraction(model.eval(e, model_completion=True))
        if f is None:
            return None
        return int(f) if e.is_int() else float(f)
    return e


# ------------------------------------------------------------- counterexamples
_TRUE = {
    "exp": math.exp,
    "log": lambda x: math.log(x) if x > 0 else None,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else None,
    "erf": math.erf,
    "tanh": math.tanh,
    "sin": math.sin,
    "cos": math.cos,
    "lgamma": lambda x: math.lgamma(x) if x > 0 else None,
}
_MONO = {"exp", "log", "sqrt", "erf", "tanh"}


def _frac(f):
    return Fraction(f)


class Engine:
    """Decides the assertions of one instance."""

    def __init__(self, check_id, inst, stats, opts, replay):
        self.check_id, self.inst, self.stats, self.opts = check_id, inst, stats, opts
        self.replay = replay  # record -> reply of the concrete process
        self.violation = None
        self.unproved = []
        self.seen_spurious = {}

    def identities(self, c, cond):
        """Replace equalities that are rational identities by true."""
        from . import poly

        cond = c.resolve_ites(cond, smt=False)
        cond = c.force_ints(cond)
        out = self._identities(c, cond)
        if z3.is_true(out):
            return out
        cond = self.resolve_ites(c, out)
        cond = self.force_ints(c, cond)
        out = self._identities(c, cond)
        if z3.is_true(out):
            return out
        # values the path determines
        sub = self.force_reals(c, out)
        if sub:
            out = z3.simplify(z3.substitute(out, *sub))
            out = self._identities(c, self.force_ints(c, self.resolve_ites(c, out)))
        if not z3.is_true(out) and self.split_identities(c, out, [32], ()):
            return z3.BoolVal(True)
        return out

    def near_identity(self, c, cond, atol):
        """Do both sides of an equality stay within atol of each other, in each case of the case distinctions?"""
        from . import poly

        if not (z3.is_eq(cond) and z3.is_real(cond.arg(0))):
            return False

        def leaf(s):
            if not (z3.is_eq(s) and z3.is_real(s.arg(0))) or self.has_ite(s):
                return False
            d = poly.difference_bound(s.arg(0), s.arg(1), c.box.iv)
            return d is not None and d <= atol

        r = self.split_identities(c, cond, [64], (), leaf)
        if r:
            self.stats.backends["near-identity"] = self.stats.backends.get("near-identity", 0) + 1
        return r

    def split_identities(self, c, cond, budget, lits, leaf=None):
        """Is it an identity in each case of its case distinctions?"""
        if leaf is not None and leaf(cond):
            return True
        inner, seen, stack = {}, set(), [cond]
        n = 0
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            n += 1
            if n > 3000:
                return False
            if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_arith(e):
                inner[e.arg(0).get_id()] = e.arg(0)
            stack.extend(e.children())
        # innermost conditions first
        free = [b for b in inner.values() if not any(i != b.get_id() and self.contains(b, x) for i, x in inner.items()) and not self.has_ite(b)]
        if not free or len(inner) > 8:
            return False
        b = free[0]
        for v in (True, False):
            budget[0] -= 1
            if budget[0] < 0:
                return False
            s = z3.simplify(z3.substitute(cond, (b, z3.BoolVal(v))))
            if z3.is_true(s):
                continue
            s = self._identities(c, s)
            if z3.is_true(s):
                continue
            lit = b if v else z3.Not(b)
            if c._quick(z3.And(*lits, lit), 300) == "unsat":
                continue
            if not self.split_identities(c, s, budget, (*lits, lit), leaf):
                return False
        return True

    @staticmethod
    def contains(e, x):
        seen, stack = set(), [e]
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if y.get_id() == x.get_id():
                return True
            stack.extend(y.children())
        return False

    @staticmethod
    def has_ite(e):
        seen, stack = set(), [e]
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app_of(y, z3.Z3_OP_ITE):
                return True
            stack.extend(y.children())
        return False

    def force_reals(self, c, cond):
        names, seen, stack = {}, set(), [cond]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_real(e) and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names[e.get_id()] = e
            stack.extend(e.children())
        if not names or len(names) > 60:
            return []
        todo = [e for e in names.values() if ("fr", e.get_id(), len(c.constraints)) not in c.memo]
        if todo:
            s = c.solver if c.lin is None else c.lin
            s.set("timeout", 500)
            self.stats.queries += 1
            if s.check() != z3.sat:
                return []
            m = s.model()
            vals = [(e, m.eval(e, model_completion=True)) for e in todo]
            # a second model rules most of them out at once
            alive = [(e, v) for e, v in vals if z3.is_rational_value(v)]
            while alive:
                s.push()
                s.add(z3.Or(*[e != v for e, v in alive]))
                s.set("timeout", 500)
                self.stats.queries += 1
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                    keep = [(e, v) for e, v in alive if z3.is_true(m.eval(e == v, model_completion=True))]
                s.pop()
                if r == z3.unsat:
                    break
                if r != z3.sat or len(keep) == len(alive):
                    alive = []
                    break
                alive = keep
            fixed = {e.get_id(): v for e, v in alive}
            for e in todo:
                c.memo[("fr", e.get_id(), len(c.constraints))] = (fixed.get(e.get_id()), e)
        out = []
        for e in names.values():
            v = c.memo.get(("fr", e.get_id(), len(c.constraints)), (None,))[0]
            if v is not None:
                out.append((e, v))
        return out

    def _identities(self, c, cond):
        from . import poly

        sub, seen, stack = [], set(), [cond]
        while stack and len(sub) < 64:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_eq(e) and z3.is_real(e.arg(0)):
                ok, dens = poly.identical(e.arg(0), e.arg(1))
                if ok and all(self.nonzero(c, d) for d in dens):
                    sub.append((e, z3.BoolVal(True)))
                continue
            if (z3.is_le(e) or z3.is_ge(e)) and z3.is_real(e.arg(0)):
                lo, hi = (e.arg(0), e.arg(1)) if z3.is_le(e) else (e.arg(1), e.arg(0))
                pf = poly.positive_form(hi - lo)
                if pf is not None and all(self.nonneg(c, a) for a in pf[0]) and all(self.nonzero(c, d) for d in pf[1]):
                    sub.append((e, z3.BoolVal(True)))
                continue
            if z3.is_bool(e):
                stack.extend(x for x in e.children() if z3.is_bool(x))
        if not sub:
            return cond
        self.stats.backends["rational-identity"] = self.stats.backends.get("rational-identity", 0) + len(sub)
        return z3.simplify(z3.substitute(cond, *sub))

    def resolve_ites(self, c, cond, limit=80):
        return c.resolve_ites(cond, limit)

    def force_ints(self, c, cond):
        return c.force_ints(cond)

    def nonneg(self, c, a):
        k = ("nn", a.get_id())
        if k not in c.memo:
            c.memo[k] = (c._quick(a < 0, 2000) == "unsat", a)
        return c.memo[k][0]

    def nonzero(self, c, d):
        k = ("nz", d.get_id())
        if k not in c.memo:
            c.memo[k] = (z3.simplify(d != 0), d)
            if not z3.is_true(c.memo[k][0]):
                c.memo[k] = (c._quick(d == 0, 2000) == "unsat", d)
        return c.memo[k][0] is True or not isinstance(c.memo[k][0], bool)

    # -- assertions
    def check(self, c, cond, label, margin=None, atol=None):
        st = self.stats
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        c._check_time()
        if D.is_b(cond):
            if cond:
                st.trivial += 1
                return
            neg = z3.BoolVal(True)
            r = c._query(neg, self.opts.get("query_ms", 20000))
        else:
            s = z3.simplify(cond)
            if z3.is_true(s):
                st.trivial += 1
                return
            s = self.identities(c, cond)
            if z3.is_true(s):
                return
            if atol is not None and self.near_identity(c, s, atol):
                return
            neg = z3.Not(s)
            if os.environ.get("SYMX_DEBUG"):
                print("not syntactic:", label, s.sexpr()[:4000] if os.environ["SYMX_DEBUG"] == "2" else "", file=sys.stderr, flush=True)
            r = c._query(neg, min(self.opts.get("exact_ms", 4000), self.opts.get("query_ms", 20000)) if margin is not None else self.opts.get("query_ms", 20000), portfolio=margin is None)
        if r == "unsat":
            return
        if margin is not None:
            m = margin()
            if D.is_b(m):
                if m:
                    return
                neg = z3.BoolVal(True)
            else:
                neg = z3.Not(m)
            r = c._query(neg, self.opts.get("query_ms", 20000))
            if r == "unsat":
                return
        if r == "unknown":
            self.give_up(c, f"solver gave no answer for '{label}'")
            return
        self.candidate(c, neg, label)

    def give_up(self, c, why):
        self.unproved.append(why)
        if len(self.unproved) >= self.opts.get("give_up", 4):
            raise Inconclusive(why)

    def exception(self, c, exc, tb):
        """An exception of the code under test on the current path."""
        r = c._query(z3.BoolVal(True), self.opts.get("query_ms", 20000))
        if r == "unsat":
            raise Infeasible()
        if r == "unknown":
            self.give_up(c, f"unhandled {type(exc).__name__}: {exc}; path feasibility unknown")
            return
        self.candidate(c, z3.BoolVal(True), "exception:" + type(exc).__name__, detail=str(exc)[:300])

    # -- candidates
    def candidate(self, c, neg, label, detail=""):
        st = self.stats
        for it in range(self.opts.get("cegar", 12)):
            lem = self.refine(c)
            if not lem:
                break
            st.refinements += 1
            for l in lem:
                c.add(l)
            r = c._query(neg, self.opts.get("query_ms", 20000))
            if r == "unsat":
                return
            if r == "unknown":
                self.give_up(c, f"solver gave no answer for '{label}' after refinement")
                return
        rec0 = self.record(c, label, c.model)
        rec = self.pin(c, neg, label) or rec0
        for attempt in (rec, rec0):
            st.replays += 1
            rep = self.replay(attempt)
            if self.confirmed(rep, label):
                attempt["reply"] = rep
                attempt["detail"] = detail
                self.violation = attempt
                raise ViolationFound()
            if rec is rec0:
                break
        import os
        if os.environ.get("SYMX_DEBUG"):
            print("NOT REPRODUCED", label, detail, rec, rep)
        self.give_up(c, f"candidate for '{label}' {detail} was not reproduced by the real code: {str(rep)[:300]}")

    @staticmethod
    def confirmed(rep, label):
        if rep is None or rep.get("assume_failed"):
            return False
        if label.startswith("exception:"):
            return rep.get("exception") == label.split(":", 1)[1]
        return label in rep.get("failed", []) or bool(rep.get("exception")) and rep.get("in_code", False)

    def refine(self, c):
        """Lemmas for function applications whose model value differs from the true one."""
        m, out = c.model, []
        for name in ("log", "exp"):
            apps = c.ufs.get(name, [])[:12]
            vals = [[z3_to_fraction(m.eval(a, model_completion=True)) for a in ap] for ap in apps]
            for i, (t1, x1) in enumerate(apps):
                for j, (t2, x2) in enumerate(apps):
                    if i == j or None in vals[i] or None in vals[j] or vals[i][1] >= vals[j][1]:
                        continue
                    (a1, b1), (a2, b2) = vals[i], vals[j]
                    if name == "log" and b1 > 0 and (a2 - a1) * b2 < (b2 - b1):
                        out.append(z3.Implies(z3.And(x1 > 0, x1 <= x2), (t2 - t1) * x2 >= x2 - x1))
                    if name == "exp" and (a2 - a1) < a1 * (b2 - b1):
                        out.append(z3.Implies(x1 <= x2, t2 - t1 >= t1 * (x2 - x1)))
        for name, apps in c.ufs.items():
            for t, x in apps:
                if name == "pow":
                    vals = [z3_to_fraction(m.eval(a, model_completion=True)) for a in x]
                    tv = z3_to_fraction(m.eval(t, model_completion=True))
                    if None in vals or tv is None or vals[0] <= 0:
                        continue
                    try:
                        true = float(vals[0]) ** float(vals[1])
                    except OverflowError:
                        continue
                    e = abs(Fraction(true)) * Fraction(1, 10**9) + Fraction(1, 10**30)
                    if abs(tv - Fraction(true)) <= 2 * e:
                        continue
                    lo, hi = D.rv(Fraction(true) - e), D.rv(Fraction(true) + e)
                    x0, y0 = D.rv(vals[0]), D.rv(vals[1])
                    a, b = x
                    out.append(z3.Implies(z3.And(a == x0, b == y0), z3.And(t >= lo, t <= hi)))
                    # monotone in the base for a fixed sign of the exponent, in the exponent for base > 1 / < 1
                    if vals[1] > 0:
                        out.append(z3.Implies(z3.And(b == y0, a >= x0), t >= lo))
                        out.append(z3.Implies(z3.And(b == y0, a <= x0, a > 0), t <= hi))
                    elif vals[1] < 0:
                        out.append(z3.Implies(z3.And(b == y0, a >= x0), t <= hi))
                        out.append(z3.Implies(z3.And(b == y0, a <= x0, a > 0), t >= lo))
                    if vals[0] > 1:
                        out.append(z3.Implies(z3.And(a == x0, b >= y0), t >= lo))
                        out.append(z3.Implies(z3.And(a == x0, b <= y0), t <= hi))
                    elif vals[0] < 1:
                        out.append(z3.Implies(z3.And(a == x0, b >= y0), t <= hi))
                        out.append(z3.Implies(z3.And(a == x0, b <= y0), t >= lo))
                    continue
                fn = _TRUE.get(name)
                if fn is None:
                    continue
                xv = _tame(z3_to_fraction(m.eval(x, model_completion=True)))
                tv = z3_to_fraction(m.eval(t, model_completion=True))
                if xv is None or tv is None:
                    continue
                try:
                    true = fn(float(xv))
                except (OverflowError, ValueError):
                    continue
                if true is None:
                    continue
                true = Fraction(true)
                e = abs(true) * Fraction(1, 10**9) + Fraction(1, 10**30)
                if name in ("sin", "cos"):
                    e = Fraction(1, 10**9)
                if abs(tv - true) <= 2 * e:
                    continue
                lo, hi, x0 = D.rv(true - e), D.rv(true + e), D.rv(xv)
                if name in _MONO:
                    g = x > 0 if name == "log" else (x >= 0 if name == "sqrt" else z3.BoolVal(True))
                    out.append(z3.Implies(z3.And(g, x >= x0), t >= lo))
                    out.append(z3.Implies(z3.And(g, x <= x0), t <= hi))
                    if name == "exp" and abs(xv) < 50:
                        # tangent
                        out.append(t >= lo * (1 + x - x0))
                    if name == "log":
                        out.append(z3.Implies(x > 0, t <= hi + (x - x0) / x0))
                elif name in ("sin", "cos"):
                    # 1-Lipschitz
                    d = z3.If(x >= x0, x - x0, x0 - x)
                    out.append(z3.And(t <= hi + d, t >= lo - d))
                else:
                    out.append(z3.Implies(x == x0, z3.And(t >= lo, t <= hi)))
        return out

    def pin(self, c, neg, label, linear=False):
        """Move the counterexample to values that floats represent exactly."""
        m = c.model
        t_end = time.time() + self.opts.get("pin_s", 15)
        items = []
        for name, kind, e, meta in c.inputs:
            if kind == "real":
                ee = e if isinstance(e, R) else R(e)
                if eval_bool(m, D.b_not(D.fin(ee))):
                    items.append((None, D.to_z3b(D.b_not(D.fin(ee))), None))
                    continue
                if isinstance(ee.v, z3.ExprRef):
                    items.append((ee.v, D.to_z3b(D.fin(ee)), z3_to_fraction(m.eval(ee.v, model_completion=True))))
        for d in c.draws:
            for e in d["elems"]:
                if isinstance(e, R) and isinstance(e.v, z3.ExprRef) and not e.v.is_int():
                    v = z3_to_fraction(m.eval(e.v, model_completion=True))
                    items.append((e.v, None, v))
        s = z3.Solver()
        s.set("timeout", 3000)
        for a in c.constraints:
            if not linear or not c.nonlinear(a):
                s.add(a)
        s.add(neg)
        best = None

        def pins(den):
            out = []
            for t, side, v in items:
                if side is not None:
                    out.append(side)
                if t is not None and v is not None:
                    q = Fraction(round(v * den), den)
                    out.append(t == D.rv(q))
            # integer inputs too: keeps the query nearly ground
            for name, kind, e, meta in c.inputs:
                if kind in ("int", "pick", "key"):
                    iv = m.eval(e, model_completion=True)
                    out.append(e == iv)
            return out

        for den in (4, 64, 1024, 2**16):
            s.push()
            for q in pins(den):
                s.add(q)
            self.stats.queries += 1
            r = s.check()
            if r == z3.sat:
                best = s.model()
                s.pop()
                break
            s.pop()
        if best is None:
            # one by one
            s.set("timeout", 800)
            for t, side, v in items:
                if time.time() > t_end:
                    break
                if t is None or v is None:
                    continue
                for den in (4, 64, 4096, 2**20):
                    q = Fraction(round(v * den), den)
                    s.push()
                    s.add(t == D.rv(q))
                    self.stats.queries += 1
                    if s.check() == z3.sat:
                        best = s.model()
                        break
                    s.pop()
        if best is None:
            return None
        # the pinned model must still respect the true functions
        old = c.model
        c.model = best
        if not linear and self.refine(c):
            c.model = old
            return None
        rec = self.record(c, label, best)
        c.model = old
        return rec

    def record(self, c, label, model):
        inp = {}
        for name, kind, e, meta in c.inputs:
            v = eval_elem(model, e)
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                v = str(v)
            inp[name] = v
        draws = []
        for d in c.draws:
            vals = []
            for e in d["elems"]:
                v = eval_elem(model, e)
                vals.append(str(v) if isinstance(v, float) and (math.isnan(v) or math.isinf(v)) else v)
            draws.append({"name": d["name"], "shape": list(d["shape"]), "values": vals})
        return {"check": self.check_id, "instance": self.inst, "label": label, "inputs": inp, "draws": draws}
