#!/bin/bash
# plant.sh ID: record the change in /tmp/plant (a copy of /repo) as /verif/seeded/ID/patch.diff after confirming it
# (tests pass, demo passes on the unchanged tree and fails with it). demo.sh/demo.py/meta.json must be in /verif/seeded/ID.
set -e
id=$1; d=/verif/seeded/$id
git -C /tmp/plant diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
git -C /repo apply --check $d/patch.diff
(cd /repo && bash $d/demo.sh >/dev/null 2>&1) || { echo "DEMO FAILS ON CLEAN TREE"; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/plant_out.json >/dev/null 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant_out.json'))
def passed(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k] if not isinstance(x[k],dict) else [t for t,v in x[k].items() if v in ('passed',True,'pass')])
    return set()
m=passed(b)-passed(o)
print('tests missing:',len(m), sorted(m)[:5])
P
if (cd /repo && bash $d/demo.sh >/tmp/plant_demo.txt 2>&1); then echo "DEMO PASSES WITH BUG"; else echo "demo fails with bug: ok"; fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif && /opt/venv/bin/python -m pydv.check $p | tail -4 | cut -c1-300
