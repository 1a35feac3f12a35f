#!/bin/bash
# run.sh <property> <quick|thorough>: builds the harness against /repo's working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
case "$prop" in
  P*|C*) crate=py; bin=vppy ;;
  V*|U*) crate=fs; bin=vpfs ;;
  T*) crate=zp; bin=vpzp ;;
  L*) crate=lic; bin=vplic ;;
  *) echo "unknown property $prop" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true VP_DIR="$here"
if ! out="$(cd "$here/harness/$crate" && cargo build --release --offline --locked 2>&1)"; then
  echo "$out" | tail -60 >&2
  echo "build failed" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/$bin" run "$prop" --tier "$tier" "${@:3}"
