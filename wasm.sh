#!/bin/bash
# builds the JavaScript bindings and the decoders below them for wasm32, with bindings for node
cd "$(dirname "$0")/mc-wasm" || exit 2
export RUSTUP_TOOLCHAIN=1.78.0
cargo build --offline -q --release --target wasm32-unknown-unknown || exit 1
W=target/wasm32-unknown-unknown/release/mc_wasm.wasm
[ -s target/js/mc_wasm.js ] && [ target/js/mc_wasm.js -nt $W ] || /opt/vp/offline/tools/bin/wasm-bindgen --target nodejs --out-dir target/js $W
