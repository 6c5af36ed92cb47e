#!/bin/bash
# plant.sh ID [nocheck]: confirms seeded/ID (builds, stable tests pass, demo 0 on
# the clean tree and nonzero with the patch) and runs its property's check on it.
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
t=$(mktemp -d /tmp/plantXXXX); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
timeout 300 bash $t/demo.sh > /tmp/demo_clean.log 2>&1 || { echo "DEMO FAILS CLEAN"; tail -20 /tmp/demo_clean.log; exit 1; }
git apply $d/patch.diff || { echo "NO APPLY"; exit 1; }
if timeout 300 bash $t/demo.sh > /tmp/demo_patched.log 2>&1; then echo "DEMO PASSES PATCHED"; exit 1; fi
rm -rf $t
grep -v '^ok\|^FAIL$' /tmp/demo_patched.log | head -6 | cut -c1-200
bash /tmp/t.sh > /tmp/plant_t.log 2>&1 || { echo "TESTS FAIL"; tail -5 /tmp/plant_t.log | cut -c1-600; exit 1; }
git checkout -q -- go.sum go.mod
echo "valid: $id ($prop)"
[ "$2" = nocheck ] && exit 0
s=$(date +%s)
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $prop > /tmp/plant_check.log 2>&1); rc=$?
echo "check $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/plant_check.log | cut -c1-300)"
