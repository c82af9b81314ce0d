#!/bin/bash
# try_bug.sh ID [notest]: validates one planted bug in a scratch copy and runs its property's check.
ID=$1; D=/verif/seeded/$ID; W=/tmp/wbug-$ID
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "/tmp/wbug-$ID"; cp -a /repo $W
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
git -C $W apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
( cd /repo && sh $D/demo.sh >/tmp/demo-$ID.clean 2>&1 ); A=$?
( cd $W && sh $D/demo.sh >/tmp/demo-$ID.bug 2>&1 ); B=$?
T=skipped
if [ "$2" != notest ]; then
  ( cd $W && PYTHONPATH=$W MPLBACKEND=Agg timeout 1200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests >/tmp/test-$ID.out 2>&1 ); T="$(tail -1 /tmp/test-$ID.out)"
fi
( cd /verif && PYTHONPATH=$W XRDMON_REPO=$W XRDMON_EVID=/tmp/evid-$ID VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $P >/tmp/check-$ID.out 2>&1 ); C=$?
rm -rf "/tmp/wbug-$ID" "/tmp/evid-$ID"
echo "$ID [$P] demo clean=$A bug=$B | tests: $T | check rc=$C $(grep -c VIOLATION /tmp/check-$ID.out) :: $(grep -m1 VIOLATION /tmp/check-$ID.out | cut -c1-150)"
