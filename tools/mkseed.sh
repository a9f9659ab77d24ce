#!/bin/bash
# mkseed.sh ID PROP: patch from ${RW:-/tmp/rw}'s diff; demo body from /tmp/seed/ID.rs ; meta from /tmp/seed/ID.json
set -e
id=$1; d=/verif/seeded/$id
mkdir -p $d/crate/src
git -C ${RW:-/tmp/rw} diff > $d/patch.diff
cp /verif/tools/demo_template/{Cargo.toml,Cargo.lock} $d/crate/
cp /verif/tools/demo_template/src/{main,world,dao,h}.rs $d/crate/src/
cp /verif/tools/demo_template/demo.sh $d/demo.sh; chmod +x $d/demo.sh
cp /tmp/seed/$id.rs $d/crate/src/demo.rs
cp /tmp/seed/$id.json $d/meta.json
