#!/usr/bin/env python3
"""run.py Pxx --tier quick|thorough   decide one property on /repo's working tree
   run.py --replay FILE               replay a recorded counterexample on the real code"""
import argparse
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ,
    PYTHONDONTWRITEBYTECODE="1",
    JAX_PLATFORMS="cpu",
    MPLBACKEND="Agg",
    PYTHONHASHSEED="0",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    PYTHONWARNINGS="ignore",
    TF_CPP_MIN_LOG_LEVEL="3",
    PYTHONPATH=HERE + (":" + os.environ["SYMX_REPO"] if os.environ.get("SYMX_REPO") else ""),  # SYMX_REPO: development only
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)


def spawn(module, *args):
    return subprocess.Popen(
        [PY, "-m", module, *args],
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=None if os.environ.get("SYMX_DEBUG") else subprocess.DEVNULL,
        text=True,
        cwd=HERE,
        env=ENV,
    )


class Slot(threading.Thread):
    def __init__(self, check, tier, todo, done):
        super().__init__(daemon=True)
        self.args, self.todo, self.done_q = (check, tier), todo, done

    def run(self):
        p = spawn("symx.worker", *self.args)
        self.p = p
        if not p.stdout.readline():
            self.done_q.put({"instance": None, "status": "inconclusive", "why": "worker failed to start"})
            return
        while True:
            try:
                n = self.todo.get_nowait()
            except queue.Empty:
                break
            p.stdin.write(n + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            if not line:
                self.done_q.put({"instance": n, "status": "inconclusive", "why": "worker died"})
                return
            self.done_q.put(json.loads(line))
        p.stdin.close()
        p.wait()


class Server(threading.Thread):
    """Witness replays on the real code."""

    def __init__(self, check):
        super().__init__(daemon=True)
        self.q = queue.Queue()
        self.check = check
        self.results = []

    def run(self):
        p = spawn("symx.concrete", self.check)
        self.p = p
        if not p.stdout.readline():
            self.results.append((None, {"error": "replay process failed to start"}))
            return
        while True:
            rec = self.q.get()
            if rec is None:
                break
            p.stdin.write(json.dumps(rec) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            self.results.append((rec, json.loads(line) if line else {"error": "replay process died"}))
            if not line:
                break
        p.stdin.close()
        p.wait()


def names(check, tier):
    p = subprocess.run([PY, "-m", "symx.listing", check, tier], capture_output=True, text=True, cwd=HERE, env=ENV)
    if p.returncode:
        print(p.stderr)
        sys.exit(2)
    return json.loads(p.stdout)


def replay_file(path):
    rec = json.load(open(path))
    s = Server(rec["check"])
    s.q.put(rec)
    s.q.put(None)
    s.run()
    for _, r in s.results:
        print(json.dumps(r, indent=1))
        bad = r.get("failed") or r.get("exception")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    meta = names(a.check, a.tier)
    insts = [n for n in meta["instances"] if not a.only or a.only in n]
    limit = 840 if a.tier == "thorough" else 400
    todo, done = queue.Queue(), queue.Queue()
    for n in insts:
        todo.put(n)
    jobs = min(a.jobs, len(insts))
    srv = Server(a.check)
    srv.start()
    slots = [Slot(a.check, a.tier, todo, done) for _ in range(jobs)]
    for s in slots:
        s.start()
    res = []
    while len([r for r in res if r["instance"]]) < len(insts):
        try:
            r = done.get(timeout=max(1, limit - (time.time() - t0)))
        except queue.Empty:
            break
        res.append(r)
        if a.v:
            print(f"  {r['instance']}: {r['status']} {r.get('why','')} {r.get('wall',0):.1f}s paths={r.get('stats',{}).get('paths')} q={r.get('stats',{}).get('queries')} solver={r.get('stats',{}).get('solver_s',0):.1f} checks={r.get('stats',{}).get('checks')} triv={r.get('stats',{}).get('trivial')} reach={r.get('stats',{}).get('reach')} cuts={r.get('cuts')}", flush=True)
            if r["status"] != "proved":
                print("   ", r.get("trace", ""), json.dumps(r.get("violation"), default=str), flush=True)
        for w in r.get("witnesses", []):
            srv.q.put(w)
        if r["status"] == "violation":
            break
        if not any(s.is_alive() for s in slots) and done.empty():
            break
    viol = [r for r in res if r["status"] == "violation"]
    srv.q.put(None)
    if not viol:
        srv.join(timeout=max(5, limit + 30 - (time.time() - t0)))
    mism, valid = [], 0
    for rec, rep in list(srv.results):
        if rep.get("assume_failed") and not rep.get("failed"):
            continue
        if rep.get("failed") or rep.get("exception") or rep.get("mismatch") or rep.get("error") or rep.get("harness_error"):
            mism.append((rec, rep))
        else:
            valid += 1
    for s in slots:
        if hasattr(s, "p") and s.is_alive():
            s.p.kill()
    if hasattr(srv, "p"):
        srv.p.kill()
    got = {r["instance"] for r in res}
    missing = [] if viol else [n for n in insts if n not in got]
    bad = [r for r in res if r["status"] == "inconclusive"]
    write_evidence(a, meta, res, viol, mism, valid, missing, time.time() - t0)
    if viol:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        code = 1
        for n, r in enumerate(viol):
            path = os.path.join(HERE, "evidence", "replay", f"{a.check}_{n}.json")
            json.dump(r["violation"], open(path, "w"), indent=1)
            v = r["violation"]
            print(f"{a.check} {r['instance']}: '{v['label']}' fails for {json.dumps(v['inputs'])[:600]} {v.get('detail','')} {str(v.get('reply',{}).get('info',''))[:300]}")
            print(f"VIOLATION property={a.check} replay={path}")
        return code
    if bad or missing or mism:
        for r in bad:
            print(f"INCONCLUSIVE {a.check} {r['instance']}: {r.get('why','')[:500]}")
        for n in missing:
            print(f"INCONCLUSIVE {a.check} {n}: not finished within {limit} s")
        for rec, rep in mism:
            print(f"INCONCLUSIVE {a.check} {rec and rec['instance']}: witness run differs from the encoding: {json.dumps(rep)[:700]}")
            if a.v:
                print(json.dumps(rec)[:3000])
        return 2
    st = total(res)
    print(
        f"{a.check} ({a.tier}): held on {len(res)} instances, {st['paths']} paths, {st['checks']} assertions, "
        f"{st['queries']} queries ({st['solver_s']:.1f} s solver), {valid} witnesses replayed, {time.time() - t0:.1f} s"
    )
    return 0


def total(res):
    st = {}
    for r in res:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    for k in ("paths", "checks", "queries", "solver_s", "eqns", "decisions", "unsat", "sat", "unknown", "trivial", "refinements", "replays"):
        st.setdefault(k, 0)
    return st


def write_evidence(a, meta, res, viol, mism, valid, missing, wall):
    st = total(res)
    fns = sorted({f for r in res for f in r.get("functions", [])})
    ev = {
        "property": a.check,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": st["paths"],
            "transitions": st["eqns"] + st["decisions"],
            "traces_validated_against_impl": valid,
            "samples": [
                {"instance": r["instance"], "witness": r["witnesses"][0]["inputs"]} for r in res if r.get("witnesses")
            ][:5],
            "instances": [
                {
                    "name": r["instance"],
                    "status": r["status"],
                    "paths": r.get("stats", {}).get("paths"),
                    "assertions": r.get("labels"),
                    "queries": r.get("stats", {}).get("queries"),
                    "solver_s": round(r.get("stats", {}).get("solver_s", 0), 3),
                    "cut": r.get("cuts"),
                    "backends": r.get("backends"),
                }
                for r in res
            ],
            "functions_encoded": fns,
            "functions_under_check": meta.get("functions"),
            "bounds": meta.get("bounds"),
            "queries": {k: st[k] for k in ("queries", "unsat", "sat", "unknown", "trivial", "refinements", "replays")},
            "solver_s": round(st["solver_s"], 3),
            "unfinished": missing,
        },
        "wall_s": round(wall, 3),
        "assumptions": meta.get("assumptions", []) + meta.get("common", []),
        "violations": [{"instance": r["instance"], "label": r["violation"]["label"], "inputs": r["violation"]["inputs"]} for r in viol],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.check + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
