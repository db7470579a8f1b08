"""mkseed.py ID FILE PROPERTY  <<< JSON-ish: reads /tmp/seed_in/ID.py defining OLD, NEW, NEEDS, BREAKS, DEMO (python source) [FILE]"""
import sys, os, subprocess, json, runpy, shutil, tempfile
V = "/verif/seeded"
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    sid = os.path.basename(f)[:-3]
    w = tempfile.mkdtemp(prefix="/tmp/mk.")
    subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
    edits = d.get("EDITS") or [(d["FILE"], d["OLD"], d["NEW"])]
    for file, old, new in edits:
        p = f"{w}/r/{file}"
        s = open(p).read()
        assert s.count(old) == 1, (sid, file, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    shutil.rmtree(w)
    os.makedirs(f"{V}/{sid}", exist_ok=True)
    open(f"{V}/{sid}/patch.diff", "w").write(diff)
    open(f"{V}/{sid}/demo.py", "w").write(d["DEMO"].lstrip())
    open(f"{V}/{sid}/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(f"{V}/{sid}/meta.json", "w"), indent=1)
    print(sid, len(diff.splitlines()))
