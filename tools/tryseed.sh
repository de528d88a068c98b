#!/bin/bash
# usage: tryseed.sh <id> [notest]: build, stable tests and demo in a scratch copy; then run the property's check against the patched copy
set -e
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=/tmp/seed/try-$id; [ -d $t ] && rm -rf /tmp/seed/try-$id
git clone -q /repo $t; [ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock $t/ ; cd $t
echo "demo (clean): $(bash $d/demo.sh >/tmp/seed/$id.d0 2>&1; echo $?)"
git apply $d/patch.diff
echo "demo (patched): $(bash $d/demo.sh >/tmp/seed/$id.d1 2>&1; echo $?)"
if [ "$2" != notest ]; then
  CARGO_TARGET_DIR=/tmp/seed/tgt timeout 800 cargo test --release --workspace --lib --offline -- --test-threads 8 2>&1 | grep -E "FAILED|failed|test result" | head -12
fi
cd /verif; MIRV_REPO=$t timeout 900 ./check $prop 2>&1 | grep -E "VIOLATION|wall" | cut -c1-200
rm -rf /tmp/seed/try-$id
