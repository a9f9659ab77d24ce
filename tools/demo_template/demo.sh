#!/bin/bash
# exit 0: the property held in this scenario; nonzero: it did not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp -r "$here/crate" "$tmp/crate"
cd "$tmp/crate" && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}" cargo +stable run --offline --quiet
