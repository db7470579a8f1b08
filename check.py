#!/usr/bin/env python3
"""usage: check.py ID [quick|thorough]   |   check.py --replay FILE"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLCONFIGDIR=os.path.join("/tmp", f"sx-mpl-{os.getuid()}"), SX="1")
if os.environ.get("SX") != "1" or sys.executable != WANT:
    e = dict(os.environ)
    e.update(ENV)
    e.pop("PYTHONPATH", None)
    os.makedirs(ENV["MPLCONFIGDIR"], exist_ok=True)
    os.execve(WANT, [WANT, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    from sx import runner
    a = sys.argv[1:]
    if a[0] == "--replay-batch":
        runner.replay_main(a[1])
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        r = runner.replay_batch(d["property"], [dict(case=d["case"], assignment=d["assignment"])])[0]
        print(json.dumps(r, indent=1))
        return 1 if r["status"] == "fail" else 0
    if a[0] == "--selftest":
        import z3
        from sx import world
        world.load("sym")
        print("ok", z3.get_version_string())
        return 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return runner.run(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
