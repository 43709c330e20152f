#!/bin/bash
# verify.sh ID [SECS] [nodemo]: demo passes on HEAD, fails with the patch; what the property's workload says about the patched tree
ID=$1; S=/verif/seeded/$ID; M=/tmp/pm
[ -d $M ] || cp -a /repo $M
cd $M && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
if [ "$3" != nodemo ]; then
  rm -rf /tmp/pd; cp -r $S /tmp/pd; rm -f /tmp/pd/*.diff /tmp/pd/meta.json
  bash /tmp/pd/demo.sh > /tmp/pd/out0 2>&1; A=$?
fi
git apply $S/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
if [ "$3" != nodemo ]; then
  bash /tmp/pd/demo.sh > /tmp/pd/out1 2>&1; B=$?
  echo "$ID: demo HEAD=$A patched=$B"; [ $A = 0 ] || head -3 /tmp/pd/out0; tail -n 60 /tmp/pd/out1 | grep -a "FAILED\|ERROR\|error\|what" | head -2
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(cd /verif/tools && python3 -c "import plans;print(plans.PROPS['$P']['workloads'][0][0])")
SIM_REPO=$M SIM_BUILD=/tmp/pb.mut python3 /verif/tools/build.py >/tmp/pblog 2>&1 || { echo "SIM BUILD FAILED"; tail -5 /tmp/pblog; exit 1; }
echo "  $ID $P $W:"; SIM=/tmp/pb.mut/sim CUT=160 /verif/tools/sweep.sh $W ${2:-20} | cut -c1-260 | head -4
git checkout -q -- .
