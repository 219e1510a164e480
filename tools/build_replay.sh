#!/bin/bash
# Compiles the harnesses natively with the replay program. Usage:
# build_replay.sh OUT
set -e
. "$(dirname "$0")/env.sh"
out=$1
tgt=$BUILD/replay
mkdir -p "$tgt"
exec 9>"$tgt/lock"
flock 9
cd "$VERIF/harness"
export CARGO_TARGET_DIR=$tgt
cargo clean -q --offline -p rspolib -p vharness 2>/dev/null || true
RUSTFLAGS="--cap-lints allow" cargo build -q --offline --bin vreplay ${VERIF_FEATURES:+--features $VERIF_FEATURES}
cp "$tgt/debug/vreplay" "$out"
