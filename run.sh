#!/bin/bash
# usage: run.sh <property> [quick|thorough | --replay FILE]
# Rebuilds the harness against /repo's working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/.target}"
export RUSTFLAGS="-Awarnings"
log="$(mktemp)"
if ! (cd "$here/harness" && cargo +stable build --offline --locked --quiet --no-default-features --features "$1") >"$log" 2>&1; then
  echo "ERROR: harness does not build against /repo"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/vcheck-prop" "$@"
