"""Runs instances of one check symbolically (names on stdin, JSON results on stdout)."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback


class Replayer:
    def __init__(self, check):
        self.check, self.p = check, None

    def __call__(self, rec):
        if self.p is None:
            self.p = subprocess.Popen(
                [sys.executable, "-m", "symx.concrete", self.check],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL,
                text=True,
            )
            self.p.stdout.readline()
        self.p.stdin.write(json.dumps(rec) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"error": "replay process died"}
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()


def main():
    check, tier = sys.argv[1], sys.argv[2]
    outfd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(outfd, "w", buffering=1)
    from . import lift

    lift.install()
    import appletree  # noqa

    for m in "config component context likelihood parameter plugin plugins.nestv2 plot utils randgen interpolation hist".split():
        importlib.import_module("appletree." + m)
    lift.shadow_numbers()
    from . import driver

    mod = importlib.import_module("checks." + check.lower())
    insts = {i["name"]: i for i in mod.instances(tier)}
    g = driver.Globals()
    rp = Replayer(check)
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        name = line.strip()
        if not name:
            continue
        i = insts[name]
        try:
            r = driver.run_instance(check, name, i["func"], i.get("params", {}), i.get("opts", {}), rp, g)
        except BaseException as e:
            r = {"instance": name, "status": "inconclusive", "why": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]}
            if isinstance(e, KeyboardInterrupt):
                raise
        out.write(json.dumps(r, default=str) + "\n")
    rp.close()


if __name__ == "__main__":
    main()
