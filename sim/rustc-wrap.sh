#!/bin/bash
# Compiles the code under test with a callback on every control-flow edge (SanitizerCoverage),
# and lets the simulator crate use std's allocation-error hook. Everything else is untouched.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      lolcode_ast)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ${LOLSIM_FINE:+-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores} \
          -Ccodegen-units=1 -Awarnings ;;
      lolsim) export RUSTC_BOOTSTRAP=1 ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"
