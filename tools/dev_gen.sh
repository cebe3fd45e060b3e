#!/bin/bash
# dev helper: dev_gen.sh <PROP> [seed] [tier]: generate, build and run one type-program check
p=$1; s=${2:-1}; t=${3:-quick}; out=/verif/target/gen/$p
python3 /verif/tools/gen.py $p $s $t $out || exit 1
cd $out; export RUSTC_WORKSPACE_WRAPPER=/verif/tools/rustc-limit.sh RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target/h VERIF_SEED=$s VERIF_TIER=$t VERIF_DIR=/verif
time cargo build --offline 2>&1 | grep -E "^error" -A14 | head -${LINES_MAX:-60}
b=$(echo $p | tr A-Z a-z)gen; time /verif/target/h/debug/$b
