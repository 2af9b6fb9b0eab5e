#!/bin/bash
# tryseed.sh ID... : demo without and with each planted change, and whether its property's check catches it
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
for id in "$@"; do
  d=seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r $d /tmp/seedwork/run_$id
  (cd /repo && bash /tmp/seedwork/run_$id/demo.sh >/tmp/seedwork/$id.clean 2>&1); r0=$?
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id does not apply"; rm -rf "/tmp/seedwork/run_$id"; continue; }
  bash /opt/vp/build.sh >/tmp/seedwork/$id.build 2>&1; b=$?
  (cd /repo && bash /tmp/seedwork/run_$id/demo.sh >/tmp/seedwork/$id.bad 2>&1); r1=$?
  t=-; if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/seedwork/$id.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(sorted(b-set(json.load(open('/tmp/seedwork/$id.json'))['passed'])))"); fi
  c=$(VERIF_SEED=${SEED:-1} /opt/venv/bin/python checks/run.py $p --tier quick 2>&1 | tail -5 | cut -c1-260); 
  git -C /repo checkout -- .
  echo "== $id [$p] demo clean=$r0 build=$b demo bad=$r1 tests=$t"; echo "$c" | grep -E "VIOLATION|rc=" | tail -2
  rm -rf "/tmp/seedwork/run_$id"
done
bash /opt/vp/build.sh >/dev/null 2>&1
