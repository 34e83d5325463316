#!/bin/bash
# trybug.sh ID [notest|nocheck] [budget]: try seeded/ID in a scratch copy of /repo
id=$1; d=/verif/seeded/$id; [ -d $d ] || d=/verif/seeded-more/$id; w=/tmp/bug-$id; opt=$2; budget=${3:-35}
rm -rf "/tmp/bug-$id" "/tmp/bugd-$id"; cp -a /repo $w; mkdir -p /tmp/bugd-$id/reports
git -C $w apply --check $d/patch.diff && git -C $w apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
cp $d/* /tmp/bugd-$id/
bash -c "cd /repo && timeout 300 bash /tmp/bugd-$id/demo.sh" > /tmp/bugd-$id/demo0.log 2>&1; echo "$id demo unpatched: $? (want 0)"
cat > /tmp/bugd-$id/ns.sh <<X
mount --bind $w /repo
mount --bind /tmp/bugd-$id/reports /opt/vp/reports
cd /repo
bash /opt/vp/build.sh > /tmp/bugd-$id/build.log 2>&1 || echo BUILD FAILED
timeout 300 bash /tmp/bugd-$id/demo.sh > /tmp/bugd-$id/demo1.log 2>&1; echo "$id demo patched: \$? (want nonzero)"
if [ "$opt" != notest ]; then bash /opt/vp/test.sh /tmp/bugd-$id/out.json > /tmp/bugd-$id/test.log 2>&1; fi
X
unshare -m bash /tmp/bugd-$id/ns.sh
[ "$opt" != notest ] && python3 - <<X
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/bugd-$id/out.json'))
m=b-set(o['passed']); print('$id tests:', 'all stable pass' if not m else 'FAIL '+str(sorted(m)))
X
if [ "$opt" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; BUP_SIM_REPO=$w VERIF_SEED=1 timeout 900 bin/check $p --tier quick --seed 1 --budget $budget > /tmp/bugd-$id/check.log 2>&1; echo "$id check $p: $? (want 1)"; grep -m2 -h "VIOLATION\|minimised violation" /tmp/bugd-$id/check.log | cut -c1-400
fi
rm -rf "/tmp/bug-$id"
