#!/bin/bash
# hb.sh BIN: build a harness (dev helper)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target/harness CARGO_INCREMENTAL=0; unset CARGO_PROFILE_DEV_DEBUG
cd /verif/harness
mkdir -p /verif/target; gcc -O1 -fPIC -c shim.c -o /verif/target/shim.o
rm -f $CARGO_TARGET_DIR/debug/deps/$1-*.ll
cargo rustc -q --offline --bin $1 -- --emit=llvm-ir,link -C save-temps -C link-arg=/verif/target/shim.o
ls -la $CARGO_TARGET_DIR/debug/deps/$1-*.ll $CARGO_TARGET_DIR/debug/$1
