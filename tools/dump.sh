#!/bin/bash
# Usage: dump.sh REPO OUTDIR [config...]   (configs: default alloc all; default: all three)
# Writes OUTDIR/<config>/<crate>.json from REPO's current sources.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${1:-/repo}; OUT=${2:-$HERE/.build/dump}; shift 2 || true
CFGS=${*:-default alloc all}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
BUILD=${VERIF_BUILD:-$HERE/.build}
mkdir -p "$BUILD" "$OUT"; OUT=$(cd "$OUT" && pwd); REPO=$(cd "$REPO" && pwd)
DRV=$BUILD/driver/release/mirdump
SUM=$(cat "$HERE/driver/src/main.rs" "$HERE/driver/Cargo.toml" | sha256sum | cut -c1-16)
if [ ! -x "$DRV" ] || [ "$(cat "$BUILD/driver.sum" 2>/dev/null)" != "$SUM" ]; then
  CARGO_TARGET_DIR=$BUILD/driver cargo build --release --offline --quiet --manifest-path "$HERE/driver/Cargo.toml"
  echo "$SUM" > "$BUILD/driver.sum"
fi
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$DRV
for c in $CFGS; do
  T=$BUILD/target
  O=$OUT/$c
  mkdir -p "$O"
  rm -f "$O"/*.json
  case $c in
    default) A="--workspace";;
    alloc) A="-p toon-rs --no-default-features --features alloc,serde";;
    all) A="-p toon-rs --all-features";;
    *) echo "bad config $c" >&2; exit 2;;
  esac
  # cargo's freshness cache would skip the wrapper: forget the workspace members
  rm -rf "$T"/debug/.fingerprint/toon-* "$T"/debug/build/toon-rs "$T"/debug/build/toon-cli "$T"/debug/build/toon-wasm
  MIRDUMP_DIR=$O CARGO_TARGET_DIR=$T cargo check --offline --quiet --manifest-path "$REPO/Cargo.toml" $A >"$O/cargo.log" 2>&1 || { cat "$O/cargo.log" >&2; exit 4; }
  [ -s "$O/toon.json" ] || [ -s "$O/toon_rs.json" ] || { echo "dump.sh: no dump for $c" >&2; exit 3; }
done
