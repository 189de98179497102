#!/bin/bash
# trybug.sh ID [notest] [nocheck] : validates /verif/seeded/ID in a scratch copy bound over /repo in a private mount namespace
ID=$1; S=/verif/seeded/$ID; R=/tmp/seed_$ID; shift
OPT=" $* "
cp -a /repo $R
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash <<X
mount --bind $R /repo; cd /repo
[ -n "\$(git status --short | head -1)" ] && echo "copy not clean"
timeout 300 bash $S/demo.sh >$R.demo0 2>&1; echo "$ID demo clean rc=\$?"
git apply $S/patch.diff || { echo "$ID PATCH FAILS"; exit; }
bash /opt/vp/build.sh >$R.build 2>&1; echo "$ID build rc=\$?"
timeout 300 bash $S/demo.sh >$R.demo1 2>&1; echo "$ID demo patched rc=\$?"
if [[ "$OPT" != *" nocheck "* ]]; then
  p=\$(echo $P | tr A-Z a-z); cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt checks/\$p.py > $R.check 2>&1; echo "$ID check $P rc=\$?"; grep -h "^VIOLATION\|^failed" $R.check | cut -c1-330
fi
cd /repo
if [[ "$OPT" != *" notest "* ]]; then
  bash /opt/vp/test.sh $R.json >$R.test 2>&1
  python3 - <<'Y'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=set(json.load(open('$R.json'))['passed'])
print('$ID tests failing:', sorted(b-d))
Y
fi
X
rm -rf /tmp/seed_$ID
