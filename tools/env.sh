# Shared settings of the scripts in this directory.
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
BUILD=$VERIF/build
SYSROOT=$(rustc --print sysroot)
TRIPLE=x86_64-unknown-linux-gnu
LLVM=$SYSROOT/lib/rustlib/$TRIPLE/bin
