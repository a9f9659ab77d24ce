#!/bin/bash
# tryseed.sh ID: in scratch copy $RW: clean demo passes, patched: tests pass, demo fails; then runs this property's check against the patched copy
RW=${RW:-/tmp/rw}; T=${T:-/tmp}
id=$1; d=/verif/seeded/$id
cd $RW && git checkout -q -- . || exit 9
demo() { rm -rf $T/dc; cp -r $d/crate $T/dc; sed -i 's#"/repo/#"'$RW'/#' $T/dc/Cargo.toml; (cd $T/dc && CARGO_TARGET_DIR=$T/demo_t RUSTFLAGS=-Awarnings RUST_BACKTRACE=0 cargo +stable run --offline --quiet 2>&1 | grep -v "^note" | tail -5; exit ${PIPESTATUS[0]}); }
demo; echo "clean demo rc=$?"
git apply $d/patch.diff || exit 9
(. /opt/vp/env.sh; cargo test --workspace --lib --bins --tests --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|^error|^test result: F" | head; echo "tests done")
demo; echo "patched demo rc=$?"
if [ -n "$2" ]; then
 rm -rf $T/hc; mkdir $T/hc; cp -r /verif/harness $T/hc/; sed -i 's#"/repo/#"'$RW'/#' $T/hc/harness/Cargo.toml
 mkdir -p $T/hc/evidence $T/hc/replays; cp /verif/known_findings.jsonl /verif/properties.jsonl $T/hc/
 cd $T/hc/harness && CARGO_TARGET_DIR=$T/ht RUSTFLAGS=-Awarnings cargo +stable build --offline --quiet --no-default-features --features "$2" 2>&1 | tail -5
 cd $T/hc; for p in $2; do VERIF_DIR=$T/hc timeout 900 $T/ht/debug/vcheck-prop $p quick 2>&1 | tail -4; echo "check $p rc=${PIPESTATUS[0]}"; done
fi
cd $RW && git checkout -q -- .
