#!/bin/bash
# Builds the program beside this script against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="-A dangerous_implicit_autorefs -A warnings"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here"/*.rs "$t/src/"; cp "$here/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<T
[package]
name = "hexomon"
version = "0.1.0"
edition = "2021"
[dependencies]
hexodsp = { path = "$repo" }
synfx-dsp = "0.5.6"
synfx-dsp-jit = "0.6.2"
serde_json = "1.0"
hound = "3.4.0"
[workspace]
[profile.dev]
debug = false
incremental = false
T
cd "$t" || exit 0
CARGO_TARGET_DIR="$t/target" cargo build --offline > "$t/log" 2>&1 || { tail -30 "$t/log"; exit 9; }
timeout 120 "$t/target/debug/hexomon"
