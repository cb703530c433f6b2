#!/bin/bash
# tools/plant.sh ID [demo|check|tests|all]: tries the planted bug seeded/ID in a scratch copy of /repo
ID=$1; WHAT=${2:-all}
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
W=/tmp/plant-$ID
rm -rf "/tmp/plant-$ID"
cp -a /repo "$W" || exit 9
trap 'rm -rf "/tmp/plant-$ID"' EXIT
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/plantdemo-XXXX); cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
if [ $WHAT = demo ] || [ $WHAT = all ]; then
  (cd "$W" && PYTHONPATH=$W timeout 300 bash "$D/demo.sh" >/tmp/plant-$ID.clean.log 2>&1); c=$?
  git -C "$W" apply "$S/patch.diff" || { echo "$ID patch does not apply"; exit 9; }
  (cd "$W" && PYTHONPATH=$W timeout 300 bash "$D/demo.sh" >/tmp/plant-$ID.bug.log 2>&1); b=$?
  echo "$ID demo: clean $c, patched $b: $(tail -1 /tmp/plant-$ID.bug.log | cut -c1-200)"
else
  git -C "$W" apply "$S/patch.diff" || { echo "$ID patch does not apply"; exit 9; }
fi
rm -rf "$D"
if [ $WHAT = check ] || [ $WHAT = all ]; then
  (cd "$V" && VERIF_SEED=1 VERIF_REPO=$W timeout 900 python3 checks/run.py $PROP >/tmp/plant-$ID.check.log 2>&1); r=$?
  echo "$ID check $PROP: exit $r $(grep -E 'detail|VIOLATION|HARNESS' /tmp/plant-$ID.check.log | head -2 | cut -c1-250 | tr '\n' ' ')"
fi
if [ $WHAT = tests ] || [ $WHAT = all ]; then
  sed "s#/repo#$W#g; s#PYTHONPATH=/opt/vp/pytest_support#PYTHONPATH=/opt/vp/pytest_support:$W#" /opt/vp/test.sh >/tmp/plant-$ID.test.sh
  bash /tmp/plant-$ID.test.sh /tmp/plant-$ID.out.json >/tmp/plant-$ID.tests.log 2>&1
  echo "$ID tests: missing $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant-$ID.out.json'));p=set(o['passed'])
m=[t for t in b['stable'] if t not in p];print(len(m),m[:3])")"
fi
