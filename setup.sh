#!/bin/bash
# Builds every harness once, so that the checks only rebuild what changed.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
cd "$here/h"
CARGO_TARGET_DIR=$here/target/h cargo build --offline --lib --bins
# the thread histories' harness, for Miri (best effort: a failure here is reported by the check)
(unset RUSTUP_TOOLCHAIN; cd "$here"; cargo +nightly miri run --offline --quiet --manifest-path m/Cargo.toml --target-dir target/miri -- C14 '') || true
# the type programs of the quick tier, best effort (a failure here is reported by the check)
for p in C01 C02 C03 C04 C05 C06 C08 C19 C20 C21 C29; do
  b=$(echo $p | tr A-Z a-z)
  [ -f "$here/tools/gen_$b.rs" ] || continue
  python3 "$here/tools/gen.py" $p "${VERIF_SEED:-1}" quick "$here/target/gen/$p"
  (cd "$here/target/gen/$p" && RUSTC_WORKSPACE_WRAPPER=$here/tools/rustc-limit.sh CARGO_TARGET_DIR=$here/target/h cargo build --offline) || true
done
CARGO_TARGET_DIR=$here/target/h python3 "$here/tools/imports.py" "$here/target/gen/C28" build || true
exit 0
