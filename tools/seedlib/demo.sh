#!/bin/bash
# Runs the demonstration in main.rs against the crate in /repo. 0: behaves as promised.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true SKIP_WASM_BUILD=1
unset RUSTFLAGS RUSTC_WRAPPER
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/Cargo.toml" "$T/" && cp "$D"/*.rs "$T/src/" || exit 3
for d in stubs wrap mon; do [ ! -d "$D/$d" ] || cp -r "$D/$d" "$T/" || exit 3; done
if [ -f "$D/Cargo.lock" ]; then cp "$D/Cargo.lock" "$T/"; else cp /repo/Cargo.lock "$T/"; fi || exit 3
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$T/target}
cd "$T" && cargo build --offline >"$T/build.log" 2>&1 || { grep -A6 "^error" "$T/build.log"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
