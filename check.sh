#!/bin/bash
# check.sh <property> [quick|thorough] [extra fqcheck args]: rebuild against /repo's working tree, run one check.
# check.sh --build-only: compile the harness with every property's module.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS
# Only the module(s) of the property are compiled, so a change elsewhere in the crate's API cannot stop this check.
if [ "$1" = "--build-only" ]; then FEAT=all; else FEAT=$(echo "$1" | tr 'P' 'p'); fi
LOG=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir target \
     --no-default-features --features "$FEAT" >"$LOG" 2>&1; then
  tail -60 "$LOG" >&2; rm -f "$LOG"; echo "check build failed" >&2; exit 2
fi
rm -f "$LOG"
[ "$1" = "--build-only" ] && exit 0
exec ./target/release/fqcheck "$PWD" "$@"
