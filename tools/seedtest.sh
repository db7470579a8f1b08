#!/bin/bash
# usage: tools/seedtest.sh SEED_ID [PROPERTY...]   -- confirms a planted bug in a scratch copy of /repo and runs the checks against it
id=$1; shift
D=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $W/repo
cp -a $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo
bash $W/demo/demo.sh >$W/d0 2>&1; a=$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; rm -rf $W; exit 9; }
bash $W/demo/demo.sh >$W/d1 2>&1; b=$?
t=skip
if [ -z "$NOTEST" ]; then PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests >$W/t 2>&1; t=$?; fi
echo "$id: demo clean=$a patched=$b tests=$t"
[ $a -ne 0 ] && tail -5 $W/d0
[ $b -eq 0 ] && tail -5 $W/d1
[ "$t" != 0 ] && [ "$t" != skip ] && tail -5 $W/t
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for p in $P; do (cd /verif; PYSC_REPO=$W/repo python3 check.py $p quick >$W/c 2>&1; echo "  check $p exit=$?"; grep -E "^  [A-Za-z].*: |VIOLATION" $W/c | cut -c1-200 | head -4); done
rm -rf $W
