#!/bin/bash
# Builds the symbolic executor and extracts the bitcode of the Rust standard
# library. Everything goes to the git-ignored build directory.
set -e
. "$(dirname "$0")/env.sh"
mkdir -p "$BUILD"
(cd "$VERIF/engine" && CARGO_TARGET_DIR="$BUILD/engine" cargo build --release --offline -q)

stamp="$(rustc -vV | sha256sum | cut -c1-16)"
if [ ! -f "$BUILD/std/$stamp.ok" ]; then
    rm -rf "$BUILD/std"
    mkdir -p "$BUILD/std"
    lib=$SYSROOT/lib/rustlib/$TRIPLE/lib
    crates="core alloc std hashbrown panic_abort rustc_demangle gimli addr2line miniz_oxide object memchr adler2"
    n=0
    for c in $crates; do
        mkdir -p "$BUILD/std/$c"
        (cd "$BUILD/std/$c" && "$LLVM/llvm-ar" x "$lib"/lib$c-*.rlib)
        for o in "$BUILD/std/$c"/*.o; do
            if "$LLVM/llvm-objcopy" --dump-section .llvmbc="${o%.o}.bc" "$o" /dev/null 2>/dev/null; then
                n=$((n + 1))
            fi
        done
        find "$BUILD/std/$c" -name '*.o' -delete
    done
    "$LLVM/llvm-link" "$BUILD"/std/*/*.bc -o "$BUILD/std/std.bc"
    for c in $crates; do rm -rf "$BUILD/std/$c"; done
    touch "$BUILD/std/$stamp.ok"
    echo "extracted $n standard library modules"
fi
