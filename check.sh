#!/bin/bash
# check.sh ID TIER: builds the harness against /repo's working tree, runs one check.
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-quick}
export KV_VERIF=$V
export CARGO_NET_OFFLINE=true
export KV_TARGET=${KV_TARGET:-$V/harness/target}
build() {
  (cd "$V/harness" && cargo build --release --offline -q "$@") >"$V/harness/build.log" 2>&1 || {
    tail -30 "$V/harness/build.log" >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
  }
}
build --target-dir "$KV_TARGET"
# the library as its users get it, and a C program that uses it
build_capi() {
  export KV_CAPI=$KV_TARGET-capi/bin
  CARGO_PROFILE_RELEASE_DEBUG=0 cargo build --release --offline -q -p libkoopa \
    --manifest-path /repo/Cargo.toml --target-dir "$KV_TARGET-capi" >"$V/harness/build.log" 2>&1 || {
    tail -30 "$V/harness/build.log" >&2
    echo "error: libkoopa does not build" >&2
    exit 2
  }
  bash "$V/harness/capi/build.sh" "$KV_CAPI" "$KV_TARGET-capi/release" || exit 2
}
# koopa as it is in unoptimized builds
build_debug() {
  (cd "$V/harness" && CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 \
    cargo build --offline -q --target-dir "$KV_TARGET-debug") >"$V/harness/build.log" 2>&1 || {
    tail -30 "$V/harness/build.log" >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
  }
  export KV_DEBUG=$KV_TARGET-debug/debug/kv
}
case "$ID" in
C02) build_debug ;;
C13) build_capi ;;
C21 | C26)
  build --features nolog --target-dir "$KV_TARGET-nolog"
  export KV_NOLOG=$KV_TARGET-nolog/release/kv
  ;;
setup)
  build --features nolog --target-dir "$KV_TARGET-nolog"
  build_capi
  build_debug
  exit 0
  ;;
esac
exec "$KV_TARGET/release/kv" run "$ID" "$TIER"
