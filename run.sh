#!/bin/bash
# run.sh <property> [quick|thorough]   build the harness from /repo's working tree, then run one check
# run.sh build                         build only
cd "$(dirname "$0")" || exit 2
export VP_ROOT="$PWD"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg vp_hooks"
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR="$PWD/target" CARGO_PROFILE_DEV_DEBUG=0
log="$PWD/target/build.$$.log"
mkdir -p "$PWD/target"
if ! (cd harness && cargo build --offline --locked >"$log" 2>&1); then
  tail -40 "$log"
  rm -f "$log"
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec target/debug/vp check "$1" "${2:-${VERIF_TIER:-quick}}"
