#!/bin/bash
# plant.sh ID...: confirms a planted bug in a scratch copy (builds, stable tests pass, demo fails with it and passes without),
# then applies it to /repo, runs its property's check, and undoes it.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/plant; mkdir -p $S/work $S/demo
[ -d $S/work/target ] || cp -a /opt/vp/work/target $S/work/target
for id in "$@"; do
  D=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "${CHECKONLY:-}" ]; then
    rm -rf /tmp/plant/repo; cp -a /repo /tmp/plant/repo
    sed -e "s#/opt/vp/work#$S/work#; s#/repo/ #$S/repo/ #" /opt/vp/common.sh > $S/common.sh
    for f in build test; do sed -e "s#/opt/vp/common.sh#$S/common.sh#" /opt/vp/$f.sh > $S/$f.sh; done
    rm -rf /tmp/plant/demo; cp -r $D $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json
    (cd $S/repo && timeout 300 bash $S/demo/demo.sh) > $S/clean.log 2>&1; a=$?
    git -C $S/repo apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
    bash $S/build.sh > $S/build.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -20 $S/build.log; continue; }
    bash $S/test.sh $S/out.json > $S/test.log 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
st=b.get('stable') or b.get('tests') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.keys()); ps=set(o.get('passed') if isinstance(o.get('passed'),list) else [k for k,v in (o.get('tests') or o).items() if v in ('passed','pass','ok',True)])
print(len(st-ps), sorted(st-ps)[:3])
P
)
    (cd $S/repo && timeout 300 bash $S/demo/demo.sh) > $S/bad.log 2>&1; b=$?
  else a=- b=- t=-; fi
  if [ -n "${NOCHECK:-}" ]; then echo "$id $prop: demo clean=$a bad=$b; stable failing: $t"; tail -2 $S/bad.log | cut -c1-200; continue; fi
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply $D/patch.diff
  (cd $V && timeout 900 python3-vt checks/run.py $prop quick) > $S/check-$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $prop: demo clean=$a bad=$b; stable tests failing: $t; check exit $c: $(grep -m1 -A1 VIOLATION $S/check-$id.log | tail -1 | cut -c1-260)"
done
