# Sourced by every script here: an offline, reproducible build environment.
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
export LIBCLANG_PATH=/usr/lib/llvm-14/lib
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export SIM_VERIF_DIR="$VERIF"
export CARGO_TARGET_DIR="$VERIF/target"
