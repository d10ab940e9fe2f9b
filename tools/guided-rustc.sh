#!/bin/sh
# RUSTC_WRAPPER of the coverage-guided build: edge counters in derivre, and only there
rustc="$1"; shift
case " $* " in
*" --crate-name derivre "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
esac
exec "$rustc" "$@"
