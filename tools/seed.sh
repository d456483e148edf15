#!/bin/bash
# tools/seed.sh ID [nocheck]: confirms a planted bug (applies it to /repo and undoes it)
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
bash /opt/vp/build.sh > /tmp/seed.log 2>&1 || { echo "base build fails"; exit 2; }
( cd /repo && bash $d/demo.sh > /tmp/seed-demo0.log 2>&1 ); r0=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
bash /opt/vp/test.sh /tmp/seed-t.json > /tmp/seed.log 2>&1; b=$?
t=$(python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed-t.json'))['passed'])
print(len(s-p))
P
)
( cd /repo && bash $d/demo.sh > /tmp/seed-demo1.log 2>&1 ); r1=$?
rc=-
if [ "$2" != nocheck ]; then ( cd /verif && VP_NOSHRINK=1 bin/check $prop quick > /tmp/seed-check.log 2>&1 ); rc=$?; fi
git checkout -- .
bash /opt/vp/build.sh > /tmp/seed.log 2>&1
echo "$id prop=$prop build=$b stable-failing=$t demo-clean=$r0 demo-bug=$r1 check=$rc"
