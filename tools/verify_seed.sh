#!/bin/bash
# dev: verify planted bugs in a scratch copy: builds, stable tests pass (optimised test profile), demo fails, own check catches
mkdir -p /tmp/seedv
for id in "$@"; do
  W=${W:-/tmp/seedv/w}; rm -rf $W/repo; mkdir -p $W
  git -C /repo archive HEAD --prefix=repo/ | tar x -C $W
  (cd $W/repo && git init -q && git apply /verif/seeded/$id/patch.diff) || { echo "$id APPLY-FAIL"; continue; }
  cd $W/repo
  export CARGO_TARGET_DIR=$W/target CARGO_PROFILE_TEST_OPT_LEVEL=2 CARGO_NET_OFFLINE=true
  cargo test --all-features --no-run --offline > $W/build.log 2>&1 || { echo "$id BUILD-FAIL"; tail -30 $W/build.log; continue; }
  [ -n "$NOTEST" ] || timeout 900 cargo test --all-features --no-fail-fast --offline -- --test-threads 8 > $W/test.log 2>&1
  T=$(python3 - <<P
import json,re
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b.get('passed') or b
t=open('$W/test.log').read()
ok=set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok',t,re.M))
miss=[x for x in st if x.split('lib.rs::')[-1] not in ok]
print('tests-ok' if not miss else 'TESTS-FAIL %s'%miss)
P
)
  [ -n "$NOTEST" ] && T=no-tests-run
  unset CARGO_TARGET_DIR
  bash /verif/seeded/$id/demo.sh > $W/demo.log 2>&1; D=$?
  (cd /repo && bash /verif/seeded/$id/demo.sh > $W/demo0.log 2>&1); D0=$?
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  rm -rf $W/harness; cp -r /verif/harness $W/harness; rm -rf $W/harness/target
  sed -i "s#\"/repo\"#\"$W/repo\"#" $W/harness/Cargo.toml
  (cd $W/harness && CARGO_TARGET_DIR=$W/htarget cargo build --release --offline -q 2> $W/hb.log) || { echo "$id HBUILD-FAIL"; tail $W/hb.log; }
  R=""
  for c in ${ALL:-$P}; do VERIF_STOP1=1 $W/htarget/release/harness check $c quick > $W/c.log 2>&1; R="$R $c=$?"; done
  echo "$id $P | $T | demo patched=$D clean=$D0 | check$R | $(grep -m1 VIOLATION $W/c.log)"
done
