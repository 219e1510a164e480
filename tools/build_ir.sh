#!/bin/bash
# Compiles /repo's crate, its dependencies and the harnesses to LLVM IR and
# links them with the standard library. Usage: build_ir.sh OUT.ll
set -e
. "$(dirname "$0")/env.sh"
out=$1
tgt=$BUILD/ir
mkdir -p "$tgt"
exec 9>"$tgt/lock"
flock 9
cd "$VERIF/harness"
export CARGO_TARGET_DIR=$tgt
# the crate under test and the harnesses are always compiled afresh
cargo clean -q --offline --target $TRIPLE -p rspolib -p vharness 2>/dev/null || true
rm -f "$tgt/$TRIPLE"/debug/deps/{rspolib,vharness}-*.bc
RUSTFLAGS="-C no-prepopulate-passes --emit=llvm-bc,link -C codegen-units=1 -C opt-level=1 -C overflow-checks=on -C embed-bitcode=yes --cap-lints allow" \
    cargo build -q --offline --lib --target $TRIPLE ${VERIF_FEATURES:+--features $VERIF_FEATURES}
work=$(mktemp -d "$tgt/link.XXXXXX")
trap 'find "$work" -type f -delete; rmdir "$work"' EXIT
deps=$tgt/$TRIPLE/debug/deps
others=$(find "$deps" -name '*.bc' ! -name 'vharness-*' ! -name 'rspolib-*' | sort)
"$LLVM/llvm-link" --only-needed "$deps"/vharness-*.bc "$deps"/rspolib-*.bc $others "$BUILD/std/std.bc" -o "$work/all.bc"
api=$("$LLVM/llvm-nm" "$deps"/vharness-*.bc | awk '$2=="T" && $3 ~ /^(h|m)_/ {printf "%s%s", s, $3; s=","}')
"$LLVM/opt" -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,dce),globaldce' \
    -strip-debug -internalize-public-api-list="$api" -S "$work/all.bc" -o "$work/out.ll"
grep -o '@_R[A-Za-z0-9_.$]*' "$work/out.ll" | cut -c2- | sort -u >"$work/mangled"
sed 's/\.llvm\.[0-9]*$//' "$work/mangled" | /usr/bin/llvm-cxxfilt >"$work/pretty"
paste "$work/mangled" "$work/pretty" >"$out.names"
mv "$work/out.ll" "$out"
