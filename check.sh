#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--case N]
# Builds the harness against /repo's current working tree, then explores.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_INCREMENTAL
DIR="$(cd "$(dirname "$0")" && pwd)"
case "$1" in
  C19) exec "$DIR/check19.sh" "$@" ;;
  C23) exec python3 "$DIR/check23.py" "$@" ;;
esac
export VERIF_DIR="$DIR"
export CARGO_TARGET_DIR="$DIR/target"
cd "$DIR/mc" || exit 2
if ! cargo build --release --offline -q > "$DIR/build.log" 2>&1; then
  cat "$DIR/build.log"; echo "BUILD FAILED"; exit 2
fi
cd "$DIR" || exit 2
exec "$DIR/target/release/mc" check "$@"
