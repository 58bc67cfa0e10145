#!/bin/bash
# Development aid: seed.sh ID [nocheck]   - validates /verif/seeded/ID in a scratch copy of /repo bound over /repo in a
# mount namespace (build, stable tests, demo with and without the patch), then runs the property's check against it.
set -u
id=$1; S=/verif/seeded/$id; W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -r "$W"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cp -a /verif "$W/verif"
unshare -m bash -c "
mount --bind $W/repo /repo
cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo '$id: BUILD FAILS'; tail -3 $W/build.log; exit; }
timeout 300 bash $W/demo/demo.sh >$W/demo.log 2>&1; d=\$?
echo \"$id: demo with patch: \$d \$(tail -1 $W/demo.log)\"
if [ \"${2:-}\" != nocheck ]; then
mount --bind $W/verif /verif; cd /verif
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop --tier quick >$W/check.log 2>&1; c=\$?
echo \"$id: check $prop exit \$c: \$(grep VIOLATION $W/check.log) \$(grep cases $W/check.log | tail -1)\"
grep 'violating behaviour' $W/check.log | head -1
fi
cd /repo
if [ \"${3:-}\" != notest ]; then
bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
m=sorted(b-set(o['passed']))
print('$id: TESTS', 'pass' if not m else 'FAIL %d %s'%(len(m),m[:5]))
P
fi
"
cd /repo && [ -x bin/cc ] || bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1; d=$?
[ $d = 0 ] || echo "$id: DEMO FAILS ON UNCHANGED TREE ($d) $(tail -1 $W/demo0.log)"
rm -r "$W"
