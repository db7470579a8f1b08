"""python3 tools/mut.py PID FILE < spec      quick mutation runs in a scratch copy; spec: blocks 'old' / '--->' / 'new' / '==='
prints for every mutant whether the check catches it"""
import os
import shutil
import subprocess
import sys
import tempfile

pids, fn = sys.argv[1].split(","), sys.argv[2]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mut")
R = os.environ.get("PYSC_REPO", "/repo")
shutil.copytree(R + "/pySC", d + "/pySC")
src = open(os.path.join(R, fn)).read()
for k, blk in enumerate(sys.stdin.read().split("\n===\n")):
    if not blk.strip():
        continue
    old, new = blk.strip("\n").split("\n--->\n")
    if src.count(old) < 1:
        print(k, "NOT FOUND", old)
        continue
    open(os.path.join(d, fn), "w").write(src.replace(old, new))
    for pid in pids:
        r = subprocess.run([sys.executable, "check.py", pid, "quick"], cwd=V, env=dict(os.environ, PYSC_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True)
        lines = r.stdout.strip().splitlines()
        msg = next((l for l in lines if l.startswith("  ") and ":" in l), "")[:150]
        print(f"{k} {pid} exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'NO ANSWER'} | {new.strip()[:70]} | {msg}", flush=True)
shutil.rmtree(d)
