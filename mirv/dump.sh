#!/bin/bash
# dump.sh OUTDIR: builds mirdump if needed and writes the MIR of /repo's crates (current working tree) to OUTDIR.
# All build output goes to a scratch directory under $VW (default /tmp/verif-work); /repo is only read.
set -eu
OUT=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
CACHE=$HERE/.build
mkdir -p "$CACHE" "$OUT"
SYS=$(rustc +nightly --print sysroot)
H=$(cat "$HERE/mirdump/mirdump.rs" | sha256sum | cut -c1-16)
BIN=$CACHE/mirdump-$H
if [ ! -x "$BIN" ]; then
  rustc +nightly --edition 2021 -O "$HERE/mirdump/mirdump.rs" -o "$BIN.tmp$$" >&2
  mv "$BIN.tmp$$" "$BIN"
fi
W=$(mktemp -d /tmp/verif-dump.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
for f in Cargo.toml Cargo.lock bsp-server bsp-types; do
  if [ -e "/repo/$f" ]; then cp -r "/repo/$f" "$W/src/$f"; fi
done
TGT=$CACHE/target-mir
mkdir -p "$TGT"
# the workspace crates must be compiled again on every run, their dependencies need not
find "$TGT" \( -name '*bsp?server*' -o -name '*bsp?types*' \) -prune -exec rm -rf {} + 2>/dev/null || true
cd "$W/src"
LD_LIBRARY_PATH=$SYS/lib MIRDUMP_OUT=$OUT \
MIRDUMP_INLINE="core::option,core::result,core::convert,core::ops,core::mem,core::cmp,core::iter,core::bool,crossbeam_channel::err,serde_json::Value::as_,serde_json::Value::is_" \
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$TGT \
RUSTFLAGS="-Zallow-features= -Zmir-opt-level=0 -Zalways-encode-mir -Cdebug-assertions=on -Zub-checks=no" \
RUSTC_WORKSPACE_WRAPPER=$BIN cargo +nightly check --offline -q -p bsp-server -p bsp-types >&2
