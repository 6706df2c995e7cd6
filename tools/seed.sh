#!/bin/bash
# seed.sh ID   validates /verif/seeded/ID: applies, builds, passes the tests, demo fails with and passes without;
# then runs the property's check against it in /repo and restores /repo.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=/tmp/seed-$id; rm -rf "$s"; cp -a /repo "$s" || exit 9
cd $s && git checkout -q -- . && bash $d/demo.sh >/tmp/seed-$id.clean 2>&1; c0=$?
git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 9; }
CARGO_NET_OFFLINE=true cargo test --offline >/tmp/seed-$id.test 2>&1; t=$?
bash $d/demo.sh >/tmp/seed-$id.demo 2>&1; c1=$?
cd /; rm -rf "$s"
if [ "$2" != nocheck ]; then
git -C /repo apply $d/patch.diff && (cd /verif && python3 check.py $prop >/tmp/seed-$id.check 2>&1; echo $? >/tmp/seed-$id.rc); git -C /repo checkout -- .
fi
echo "$id prop=$prop demo-clean=$c0 tests=$t demo-patched=$c1 check-rc=$(cat /tmp/seed-$id.rc 2>/dev/null) $(grep -a VIOLATION /tmp/seed-$id.check 2>/dev/null)"
