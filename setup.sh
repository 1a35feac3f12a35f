#!/bin/bash
# Builds all harnesses once, offline, from the committed files and /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
for c in "$here"/harness/*/; do
  [ -f "$c/src/main.rs" ] || continue
  (cd "$c" && cargo build --release --offline --locked) || exit 1
done
