#!/bin/bash
# tryseed.sh ID PROP: demo on the unchanged tree, then with the change: build, stable tests, demo, check
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo dirty; exit 1; }
cd /repo
if [ -z "$NODEMO" ]; then bash $d/demo.sh > /tmp/demo0.log 2>&1; echo "$id demo unchanged: $?"; fi
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/build.log 2>&1; echo "build $?"
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1; tail -1 /tmp/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','stable','pass','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return None
bn,tn=names(b),names(t)
print('stable tests failing:', sorted(bn-tn)[:5] if bn is not None and tn is not None else (list(b)[:5],list(t)[:5]))
P
fi
if [ -z "$NODEMO" ]; then bash $d/demo.sh > /tmp/demo1.log 2>&1; echo "$id demo changed: $?"; tail -2 /tmp/demo1.log; fi
for p in ${2:-$prop}; do
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p quick > /tmp/chk.$id.log 2>&1; echo "$id check $p: $? $(grep -c VIOLATION /tmp/chk.$id.log) $(grep VIOLATION /tmp/chk.$id.log | head -2)"
done
