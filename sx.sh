#!/bin/bash
# sx.sh BIN ENTRY [opts]
b=$1; e=$2; shift 2
/verif/target/symex/release/symex /verif/target/out/$b/$b.ll $e "$@"
