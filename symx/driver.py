"""Explores all paths of one instance of a check."""
import contextlib
import copy
import io
import os
import sys
import time
import traceback
import warnings

import z3

from . import dom as D
from . import engine as E
from .engine import Ctx, Engine, Stats

DEFAULTS = {
    "query_ms": 20000,
    "exact_ms": 4000,
    "first_ms": 3000,
    "max_paths": 4000,
    "max_unroll": 4,
    "witnesses": 1,
}


def in_code(exc):
    """Does the exception come out of the code under test?"""
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename == "<string>" or "/appletree/" in f.filename and "/verif/" not in f.filename:
            return True
    return False


class Globals:
    """Class-level and module-level state of appletree, restored before every path."""

    def __init__(self):
        self.saved = []
        self.env = dict(os.environ)
        for n, m in list(sys.modules.items()):
            if n == "appletree" or n.startswith("appletree."):
                if m is None:
                    continue
                self.saved.append((m.__dict__, dict(m.__dict__)))
                for k, v in list(m.__dict__.items()):
                    if isinstance(v, type) and getattr(v, "__module__", "").startswith("appletree"):
                        self.saved.append((v, dict(v.__dict__)))
        self.objs = []
        from appletree.config import Config

        seen = set()

        def cfgs(d):
            if isinstance(d, dict):
                for v in d.values():
                    if isinstance(v, Config) and id(v) not in seen:
                        seen.add(id(v))
                        self.objs.append((v, {k: copy.copy(x) if isinstance(x, (dict, list)) else x for k, x in vars(v).items()}))
                        # nested containers
            return

        for _, d in self.saved:
            for v in d.values():
                cfgs(v)
                if isinstance(v, Config):
                    cfgs({"x": v})
        self.dicts = []
        for owner, d in self.saved:
            for k, v in d.items():
                if isinstance(v, (dict, list)) and not k.startswith("__"):
                    self.dicts.append((v, copy.copy(v)))
        import appletree.share as sh

        self.share = []
        for k, v in vars(sh).items():
            if isinstance(v, dict):
                if not k.startswith("__"):
                    self.share.append((v, dict(v)))

    def restore(self):
        for owner, d in self.saved:
            if isinstance(owner, dict):
                for k in list(owner):
                    if k not in d:
                        del owner[k]
                for k, v in d.items():
                    if owner.get(k) is not v:
                        owner[k] = v
            else:
                now = owner.__dict__
                for k in list(now):
                    if k not in d and not k.startswith("__"):
                        try:
                            delattr(owner, k)
                        except AttributeError:
                            pass
                for k, v in d.items():
                    if now.get(k) is not v and not k.startswith("__"):
                        try:
                            setattr(owner, k, v)
                        except (AttributeError, TypeError):
                            pass
        for v, c in self.dicts:
            if isinstance(v, list):
                v[:] = c
            elif v != c if not _hasarr(c) else True:
                v.clear()
                v.update(c)
        for v, c in self.share:
            v.clear()
            v.update(c)
        for o, d in self.objs:
            vars(o).clear()
            vars(o).update({k: copy.copy(x) if isinstance(x, (dict, list)) else x for k, x in d.items()})
        for k in list(os.environ):
            if k not in self.env:
                del os.environ[k]
        os.environ.update(self.env)


def _hasarr(c):
    return True


@contextlib.contextmanager
def quiet():
    if os.environ.get("SYMX_DEBUG"):
        yield
        return
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def witness(c, eng, o):
    """Inputs that drive the real code along this path (confirmed by running it)."""
    r = c._query(z3.BoolVal(True), 5000, portfolio=False)
    if r == "sat":
        for _ in range(8):
            lem = eng.refine(c)
            if not lem:
                break
            for l in lem:
                c.add(l)
            r = c._query(z3.BoolVal(True), 3000, portfolio=False)
            if r != "sat":
                break
    if r == "sat":
        return eng.pin(c, z3.BoolVal(True), "witness") or eng.record(c, "witness", c.model)
    if r == "unsat" and not eng.stats.refinements:
        return None
    # inputs that satisfy the linear part; the real code decides
    s = c.lin if c.lin is not None else c.solver
    s.push()
    try:
        for k in range(6):
            s.set("timeout", 2000)
            if s.check() != z3.sat:
                return None
            c.model = s.model()
            rec = eng.pin(c, z3.BoolVal(True), "witness", linear=True) or eng.record(c, "witness", c.model)
            rep = eng.replay(rec)
            if rep and not rep.get("assume_failed") and not rep.get("exception") and not rep.get("error") and not rep.get("failed"):
                return rec
            vs = [e.v for n, kind, e, _ in c.inputs if kind == "real" and isinstance(e.v, z3.ExprRef)]
            if not vs:
                return None
            s.add(z3.Or(*[z3.Or(v > c.model.eval(v, model_completion=True) + 1, v < c.model.eval(v, model_completion=True) - 1) for v in vs]))
    finally:
        s.pop()
    return None


def run_instance(check_id, name, func, params, opts, replay, globals_):
    """-> dict(status, ...), witnesses"""
    from .harness import SymH
    from . import lift

    o = dict(DEFAULTS)
    o.update(opts)
    if o.get("budget_s"):
        o["deadline"] = time.time() + o["budget_s"]
    st = Stats()
    eng = Engine(check_id, name, st, o, replay)
    work = [[]]
    witnesses = []
    status, why = "proved", ""
    samples = []
    t0 = time.time()
    trace = ""
    while work:
        prefix = work.pop()
        if st.paths >= o["max_paths"]:
            status, why = "inconclusive", f"more than {o['max_paths']} paths"
            break
        c = Ctx(prefix, o, st)
        D._CTX[0] = c
        lift._SYMCONST.clear()
        lift.FILES.clear()
        h = SymH(c, eng)
        st.paths += 1
        done = False
        try:
            with quiet():
                try:
                    func(h, **params)
                    done = True
                except E.PathStop:
                    raise
                except Exception as e:
                    if not in_code(e):
                        raise
                    trace = "".join(traceback.format_exception(e)[-6:])
                    eng.exception(c, e, trace)
                    done = True
        except (E.Infeasible, E.Cut):
            pass
        except E.ViolationFound:
            status = "violation"
        except (E.Inconclusive, D.Unsupported) as e:
            status, why = "inconclusive", f"{type(e).__name__}: {e}"
            trace = trace or "".join(traceback.format_exception(e)[-8:])
        except E.Deadline:
            status, why = "inconclusive", "time budget exceeded"
        except Exception as e:
            status, why = "inconclusive", f"harness error {type(e).__name__}: {e}"
            trace = "".join(traceback.format_exception(e)[-8:])
        finally:
            with quiet():
                h.close_all()
            globals_.restore()
            st.eqns += c.n_eqns
        if status != "proved":
            break
        if done and (st.reach == 0 or len(witnesses) < o["witnesses"]):
            rec = witness(c, eng, o)
            if rec is not None:
                st.reach += 1
                witnesses.append(rec)
        for pos in range(len(prefix), len(c.log)):
            v, alts = c.log[pos]
            for a in alts:
                work.append([x[0] for x in c.log[:pos]] + [a])
        D._CTX[0] = None
    D._CTX[0] = None
    if status == "proved":
        if eng.unproved:
            status, why = "inconclusive", "; ".join(eng.unproved[:3])
        elif st.reach == 0:
            status, why = "inconclusive", "no path confirmed reachable (vacuous)"
        elif st.checks == 0:
            status, why = "inconclusive", "no assertion was reached"
        elif o.get("expect_complete", True) and st.cuts:
            pass
    out = {
        "instance": name,
        "status": status,
        "why": why,
        "trace": trace if status != "proved" else "",
        "wall": time.time() - t0,
        "stats": {k: getattr(st, k) for k in Stats.SUM},
        "labels": st.labels,
        "functions": sorted(st.functions),
        "cuts": st.cuts,
        "backends": st.backends,
        "witnesses": witnesses,
        "violation": eng.violation,
    }
    return out
