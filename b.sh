#!/bin/bash
# developer helper: build the harness and show errors only
cd /verif/harness && RUSTFLAGS=-Awarnings cargo +stable build --offline --locked --target-dir ../.target 2>&1 | grep -E "^error" -A12 | head -${1:-60}
