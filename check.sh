#!/bin/bash
# ./check.sh Cxx [--replay FILE | --facet NAME | --scale X]
# Rebuilds the harness against /repo's working tree and runs one property.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export MX_VERIF_DIR=$VERIF
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$VERIF/target
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
mkdir -p "$VERIF/target" || exit 2
# cargo decides by modification times; decide by content instead.
exec 9>"$VERIF/target/.mx-lock"
flock 9
now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$VERIF/target/.mx-repo-hash" 2>/dev/null)" ]; then
  rm -f "$VERIF/target/.mx-repo-hash"
  (cd harness && cargo clean --release --offline -p metrix -p mxcheck) >/dev/null 2>&1
fi
if ! (cd harness && cargo build --release --offline --locked) >"$VERIF/target/.mx-build.log" 2>&1; then
  grep -E '^(error|warning: unused)' -A 8 "$VERIF/target/.mx-build.log" | head -60
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
echo "$now" >"$VERIF/target/.mx-repo-hash"
flock -u 9
exec 9>&-
[ "$1" = "--build-only" ] && exit 0
exec "$VERIF/target/release/mxcheck" "$@"
