#!/bin/bash
# builds the checkers from the committed files and /repo, offline
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.78.0
for c in mc mc-sched; do
  [ -d $c ] && (cd $c && cargo build --offline -q) || [ $c = mc-sched ]
done
./wasm.sh
exit 0
