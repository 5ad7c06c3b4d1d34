#!/bin/bash
# dev helper: seedtest.sh ID [check]   validates a seeded change in a scratch copy; with "check" also runs its check against /repo
set -u
S=/verif/seeded/$1
T=/tmp/seedwork
[ -d $T ] || { mkdir -p $T; cp -a /repo $T/repo; }
cd $T/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
run() { bash $S/demo.sh >/tmp/seed_demo.log 2>&1; echo $?; }
touch src/lib.rs; (. /opt/vp/env.sh; export CARGO_TARGET_DIR=$T/repo/target; cd $T/repo; rm -rf $T/repo/target/debug/.fingerprint/rust_graph-*; cargo test --workspace --no-run --offline) >/tmp/seed_build.log 2>&1 || { echo "$1 BASE BUILD FAILED"; exit 1; }
a=$(run)
git apply $S/patch.diff || { echo "$1 PATCH DOES NOT APPLY"; exit 1; }
touch src/lib.rs; (. /opt/vp/env.sh; export CARGO_TARGET_DIR=$T/repo/target; cd $T/repo; rm -rf $T/repo/target/debug/.fingerprint/rust_graph-*; cargo test --workspace --no-run --offline) >/tmp/seed_build.log 2>&1 || { echo "$1 BUILD FAILED"; grep -E "^error" -A6 /tmp/seed_build.log | head -30; git checkout -q -- .; exit 1; }
b=$(run)
(. /opt/vp/env.sh; export CARGO_TARGET_DIR=$T/repo/target; cd $T/repo; rm -rf $T/repo/target/debug/.fingerprint/rust_graph-*; timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8) > /tmp/seed_tests.log 2>&1
n=$(grep -E "^test .* ok$" /tmp/seed_tests.log | wc -l); f=$(grep -E "^test [^ ]* \.\.\. FAILED" /tmp/seed_tests.log | wc -l)
git checkout -q -- .
echo "$1 demo unchanged=$a patched=$b tests ok=$n failed=$f $( [ $a = 0 ] && [ $b != 0 ] && [ $f -le 2 ] && echo VALID || echo INVALID; )"
grep -E "^test [^ ]* \.\.\. FAILED" /tmp/seed_tests.log | head -4
if [ "${2:-}" = check ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  echo "use chk"
fi
