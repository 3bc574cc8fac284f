#!/bin/bash
# Run with cwd /repo: builds main.rs against it and runs it. Exit 0: the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.72.1 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 99
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock" || exit 99
cat >"$d/Cargo.toml" <<TOML
[package]
name = "sim"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
safer-ffi = { path = "$repo", features = [FEATURES] }
DEPS
[profile.dev]
debug = 0
TOML
cd "$d" && cargo build -q --offline 2>"$d/build.log" || { tail -40 "$d/build.log"; find "$d" -depth -delete; exit 98; }
timeout 60 ./target/debug/sim
r=$?
cd / && find "$d" -depth -delete
exit $r
