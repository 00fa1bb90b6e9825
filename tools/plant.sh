#!/bin/bash
# tools/plant.sh ID : validate /verif/seeded/ID (patch + demo) against /repo, and run its property's quick check on it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo build0 fails; exit 1; }
cp -r $d /tmp/demo_$id; (cd /repo && timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/pd0.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || { echo "patch does not apply"; rm -rf /tmp/demo_$id; exit 1; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/pt.json >/tmp/pb.log 2>&1; st=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/pt.json'))['passed']
print([x for x in b if x not in o])")
(cd /repo && timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/pd1.log 2>&1); r1=$?
(cd /verif && timeout 900 python3 check.py $p quick >/tmp/pc.log 2>&1); rc=$?
git -C /repo checkout -- . ; rm -rf /tmp/demo_$id
echo "$id prop=$p demo(clean)=$r0 demo(bug)=$r1 tests_lost=$st check=$rc $(grep -m1 -A0 'family' /tmp/pc.log | cut -c1-200)"
