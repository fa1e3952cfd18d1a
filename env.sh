# Sourced by the scripts: the toolchain /repo pins, offline, with build output in a git-ignored folder.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME=${HOME:-/root}
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
export RUSTUP_TOOLCHAIN=1.78.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_DIR/build/target"
unset CARGO_BUILD_TARGET RUSTFLAGS
