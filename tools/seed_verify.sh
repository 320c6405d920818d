#!/bin/bash
# seed_verify.sh ID [nocheck] : apply seeded/ID to /repo, build, run tests, demo, check; always reverts.
ID=$1; S=/verif/seeded/$ID
PID=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
( bash $D/demo.sh ) >/tmp/w/demo0.log 2>&1; R0=$?
trap 'git -C /repo checkout -q -- .; rm -rf $D' EXIT
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1; RB=$?
RT=skip
if [ "$2" != "notest" ]; then
bash /opt/vp/test.sh /tmp/w/seed.json >/dev/null 2>&1; python3 /tmp/w/cmp.py /tmp/w/seed.json > /tmp/w/cmp.log; RT=$?
fi
( bash $D/demo.sh ) >/tmp/w/demo1.log 2>&1; R1=$?
OUT=$(cd /verif && VERIF_SEED=${SEED:-1} timeout 900 /opt/venv/bin/python run.py $PID 2>/tmp/w/check.err); RC=$?
echo "$ID ($PID): demo clean=$R0 patched=$R1 build=$RB tests=$RT check=$RC :: $(echo "$OUT" | tail -2 | cut -c1-260 | tr '\n' ' ')"
[ "$RT" = 1 ] && cat /tmp/w/cmp.log
exit 0
