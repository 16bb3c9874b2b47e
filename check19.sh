#!/bin/bash
# usage: check19.sh C19 <quick|thorough>
# Builds /repo's working tree with its cfg(visdom_mc) hook: `std` is then mcstd, whose synchronisation
# primitives are controlled by the scheduler in mc19.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH"
unset RUSTDOCFLAGS CARGO_INCREMENTAL RUSTFLAGS
DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$DIR"
export CARGO_TARGET_DIR="$DIR/target-mc19"
mkdir -p "$CARGO_TARGET_DIR"
LIB="$CARGO_TARGET_DIR/libmcstd.rlib"
if [ ! -f "$LIB" ] || [ "$DIR/mc19/mcstd/lib.rs" -nt "$LIB" ]; then
  rustc --edition 2021 --crate-type rlib --crate-name mcstd -O -A warnings -o "$LIB" "$DIR/mc19/mcstd/lib.rs" > "$DIR/build-mc19.log" 2>&1 || { cat "$DIR/build-mc19.log"; echo "BUILD FAILED"; exit 2; }
fi
export RUSTFLAGS="--cfg visdom_mc --extern mcstd=$LIB -L dependency=$CARGO_TARGET_DIR"
cd "$DIR/mc19" || exit 2
if ! cargo build --release --offline -q > "$DIR/build-mc19.log" 2>&1; then
  cat "$DIR/build-mc19.log"; echo "BUILD FAILED"; exit 2
fi
[ "$1" = --build ] && exit 0
cd "$DIR" || exit 2
exec "$CARGO_TARGET_DIR/release/mc19" check "${2:-quick}"
