#!/bin/bash
# run.sh check <property> [tier]            rebuild from /repo's working tree and explore
# run.sh replay <property> <tier> <family> <index>
# run.sh build
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export RUST_BACKTRACE=0
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export CARGO_TARGET_DIR=$VERIF_DIR/target
build() {
  # cargo goes by mtime and misses a file put back with an old one
  rm -rf "$VERIF_DIR"/target/release/.fingerprint/rqrr-*
  (cd "$VERIF_DIR/mc" && cargo build --release --offline --locked) > "$VERIF_DIR/work/build.log" 2>&1
}
mkdir -p "$VERIF_DIR/work" "$VERIF_DIR/evidence"
if ! build; then
  tail -40 "$VERIF_DIR/work/build.log" >&2
  echo "build of the explorer failed" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
ulimit -v 25000000 2>/dev/null
ulimit -c 0 2>/dev/null
MC=$CARGO_TARGET_DIR/release/mc
case "$1" in
  check) exec "$MC" run "$2" "${3:-${VERIF_TIER:-quick}}" ;;
  replay) exec "$MC" replay "$2" "$3" "$4" "$5" ;;
  *) exec "$MC" "$@" ;;
esac
