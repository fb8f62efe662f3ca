#!/bin/bash
# try.sh ID [PID...]: run the checks of the property (or of PIDs) against planted bug ID, in private copies of /repo and /verif
id=$1; shift
W=${W:-/tmp/seedwork/try}; export W
mkdir -p $W
[ "$1" ] && P="$*" || P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
export P id
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/
rsync -a --delete --exclude seeded --exclude .git --exclude 'harness/target' --exclude 'astdump/target' --exclude .work --exclude replay /verif/ $W/verif/
for d in harness astdump; do [ -d $W/verif/$d/target ] || { [ -d /verif/$d/target ] && cp -a /verif/$d/target $W/verif/$d/target; }; done
cp /verif/seeded/$id/patch.diff $W/p.diff
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo && git init -q . 2>/dev/null; patch -s -p1 < $W/p.diff || exit 3
touch $(grep "^+++ b/" $W/p.diff | sed "s/^+++ b.//")
cd /verif
for p in $P; do s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p >$W/out.$p 2>&1; r=$?; echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -a "^VIOLATION" $W/out.$p | head -1)"; done
'
rsync -a --exclude target --exclude .git /repo/ $W/repo/ ; (cd $W/repo && touch $(grep "^+++ b/" $W/p.diff | sed "s/^+++ b.//"))
