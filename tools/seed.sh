#!/bin/bash
# seed.sh ID [check] : validate /verif/seeded/ID in a scratch copy mounted over /repo in a private mount namespace
id=$1; S=/tmp/seedwork/repo
export S id
mkdir -p /tmp/seedwork
rsync -a --delete --exclude target /repo/ $S/ 2>/dev/null || { mkdir -p $S; (cd /repo && git ls-files -z | xargs -0 cp --parents -t $S); }
[ -d $S/target ] || cp -a /repo/target $S/target
cp -a /verif/seeded/$id /tmp/seedwork/case.$id
unshare -m bash -c '
mount --bind $S /repo
cd /repo
r() { bash /opt/vp/build.sh >/tmp/seedwork/build.log 2>&1 || { echo BUILD-FAIL; tail -20 /tmp/seedwork/build.log; exit 3; }; }
git checkout -q -- . ; r
timeout 300 bash /tmp/seedwork/case.$id/demo.sh >/tmp/seedwork/demo0.log 2>&1; a=$?
git apply /verif/seeded/$id/patch.diff || { echo APPLY-FAIL; exit 3; }
touch $(git diff --name-only)
r
bash /opt/vp/test.sh /tmp/seedwork/o.json >/dev/null 2>&1
timeout 300 bash /tmp/seedwork/case.$id/demo.sh >/tmp/seedwork/demo1.log 2>&1; b=$?
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"/tmp/seedwork/o.json\"))
m=sorted(set(b[\"stable\"])-set(o[\"passed\"]))
print(\"$id demo0=$a demo1=$b missing\",m[:4], \"VALID\" if ($a==0 and $b!=0 and not m) else \"NOT VALID\")"
tail -2 /tmp/seedwork/demo1.log
git checkout -q -- . ; touch $(git diff --name-only HEAD) 2>/dev/null
rm -f $(find . -name "*.snap.new" -not -path "./target/*")
'
rm -rf "/tmp/seedwork/case.$id"
