#!/bin/bash
# check.sh <property> <tier>: build the harness of one property against /repo's working tree and run it.
# VERIF_SEED and VERIF_TIER come from the environment; the tier argument is the default.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DIR=$here
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
export CARGO_TARGET_DIR=$here/target/h
log=$(mktemp)
trap 'rm -f "$log"' EXIT
broken() {
  tail -40 "$log"
  echo "ERROR: the harness of $prop does not build against /repo"
  exit 2
}
case $prop in
  C14|C17)
    # threads: random histories of the real code, each run by Miri under a random schedule
    unset RUSTUP_TOOLCHAIN
    exec python3 "$here/tools/miri.py" "$prop" ;;
  C28)
    # libraries and programs that export, import and load functions; then racing accesses under Miri
    python3 "$here/tools/imports.py" "$here/target/gen/C28" || exit $?
    "$CARGO_TARGET_DIR/debug/c28gen" || exit $?
    unset RUSTUP_TOOLCHAIN
    exec python3 "$here/tools/miri.py" C28 ;;
  C01|C02|C03|C04|C05|C06|C08|C19|C20|C21|C29)
    # type programs: generate crates of random stable types, compile them against /repo, check the values
    out=$here/target/gen/$prop
    python3 "$here/tools/gen.py" "$prop" "$VERIF_SEED" "$VERIF_TIER" "$out" >"$log" 2>&1 || broken
    (cd "$here/h" && cargo build --offline --lib) >"$log" 2>&1 || broken
    export RUSTC_WORKSPACE_WRAPPER=$here/tools/rustc-limit.sh
    [ "$VERIF_TIER" = thorough ] && export VPH_RUSTC_SECS=${VPH_RUSTC_SECS:-1800}
    if ! (cd "$out" && cargo build --offline) >"$log" 2>&1; then
      # the library and the harness compile, valid generated programs don't: that's a failure of what they exercise
      grep -qE "^error(\[E[0-9]+\])?: |evaluation of" "$log" && grep -qE "^ *--> ${bin}p[0-9]+/src/lib.rs" "$log" || broken
      mkdir -p "$here/replays"
      r=$here/replays/$prop.replay
      { echo "# property $prop: generated programs that use stabby as documented do not compile"
        echo "# re-run: VERIF_SEED=$VERIF_SEED $here/check.sh $prop $VERIF_TIER    (programs: $out)"
        grep -E "^error" -A25 "$log" | head -200; } >"$r"
      grep -E "^error" -A6 "$log" | head -14
      echo "VIOLATION property=$prop replay=$r"
      exit 1
    fi
    bin=${bin}gen ;;
  *)
    (cd "$here/h" && cargo build --offline --bin "$bin") >"$log" 2>&1 || broken ;;
esac
"$CARGO_TARGET_DIR/debug/$bin"
