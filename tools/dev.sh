#!/bin/bash
# dev helper: build one harness and run it with the given arguments
cd /verif/h; export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline --bin $1 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -${LINES_MAX:-60}
b=$1; shift; exec /verif/target/h/debug/$b "$@"
