#!/bin/bash
# Build the MIR extractor (if needed) and dump the resolved MIR of /repo's working tree.
# usage: dump.sh OUT.json   (REPO may override /repo for scratch copies)
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"
REPO="${REPO:-/repo}"
CACHE="${VERIF_CACHE:-$HERE/.cache}"
mkdir -p "$CACHE"
SYSROOT="$(rustc +nightly --print sysroot)"
DRV="$CACHE/driver/release/mirdump"
( cd "$HERE/driver" && cargo +nightly build --release --offline --quiet --target-dir "$CACHE/driver" ) >&2
set +u; [ -f /opt/vp/env.sh ] && source /opt/vp/env.sh; set -u
export RUSTC="$SYSROOT/bin/rustc"
export LD_LIBRARY_PATH="$SYSROOT/lib"
export RUSTC_WORKSPACE_WRAPPER="$DRV"
export MIRDUMP_OUT="$OUT"
# a private target directory per run: cargo's freshness cache must never skip the wrapper
BASE="$CACHE/target"
export CARGO_TARGET_DIR="$BASE"
export CARGO_INCREMENTAL=0
unset RUSTFLAGS || true
rm -f "$OUT"
rm -rf "$BASE"/debug/.fingerprint/merkletree-*
LOCKED=""
CREATED=0
if [ ! -f "$REPO/Cargo.lock" ] && [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$REPO/Cargo.lock"; fi
( cd "$REPO" && cargo check --offline --lib --quiet ) >&2
[ -s "$OUT" ] || { echo "dump.sh: extractor produced no output" >&2; exit 3; }
