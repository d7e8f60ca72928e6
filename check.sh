#!/bin/bash
# check.sh <property> [quick|thorough] : build the harness against /repo's working tree, then decide the property.
# check.sh build                      : build only.
# check.sh replay <file>              : re-run the single case a violation reported.
set -u
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
H=/verif/harness
export CARGO_TARGET_DIR=$H/target
sum=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd $H && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
if [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$sum" ] || [ ! -x "$CARGO_TARGET_DIR/release/harness" ]; then
  # never trust file times: rebuild both crates whenever any content differs
  rm -rf /verif/harness/target/release/.fingerprint/hmath-* /verif/harness/target/release/.fingerprint/harness-*
  if ! cargo build --release --offline --manifest-path $H/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2; echo "check error: build failed" >&2; exit 2
  fi
  echo "$sum" >"$CARGO_TARGET_DIR/.stamp"
fi
flock -u 9; exec 9>&-
case "${1:-}" in
  build) exit 0 ;;
  replay) exec $CARGO_TARGET_DIR/release/harness replay "$2" ;;
  list) exec $CARGO_TARGET_DIR/release/harness list ;;
esac
exec $CARGO_TARGET_DIR/release/harness check "$1" "${2:-${VERIF_TIER:-quick}}"
