#!/bin/bash
# Builds the program beside this script against the working tree in the current directory and runs it:
# exit 0 when the property held in the demonstrated scenario, nonzero when it did not.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -r "$here"/. "$work"/ || exit 2
cd "$work" || exit 2
sed -i "s#/repo/#$repo/#" Cargo.toml tracker/Cargo.toml
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet >build.log 2>&1 || { tail -30 build.log; exit 2; }
"$work/target/debug/demo"
