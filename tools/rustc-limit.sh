#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER of the generated crates: a crate on which rustc's trait solver explodes is replaced by an empty one.
args=("$@")
case "$*" in
  *--crate-name\ c[0-9][0-9]p*)
    timeout "${VPH_RUSTC_SECS:-240}" "$@"; r=$?
    if [ $r = 124 ]; then
      for i in "${!args[@]}"; do
        case ${args[$i]} in *src/lib.rs) args[$i]=${args[$i]%lib.rs}stub.rs ;; esac
      done
      echo "rustc took too long, replaced by an empty crate" >&2
      exec "${args[@]}"
    fi
    exit $r ;;
  *) exec "$@" ;;
esac
