#!/bin/bash
# Nothing is needed beyond the installed toolchain: every check builds the harness itself.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
cargo +stable --version
