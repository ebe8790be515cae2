#!/bin/bash
cd /verif/symex; CARGO_TARGET_DIR=/verif/target/symex cargo build -q --release --offline 2>&1 | grep -A12 ^error
