# Sourced by every script here: /repo's own toolchain, offline.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin LANG="${LANG:-C.UTF-8}"
export RUSTUP_TOOLCHAIN=1.72.1
export RUSTC_BOOTSTRAP=1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export CARGO_TARGET_DIR="$VERIF_DIR/target"
