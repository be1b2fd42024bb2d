#!/bin/bash
# RUSTC_WRAPPER of the build for L07: has the compiler call the simulator's hooks (sim/src/sched.rs)
# at every branch, load and store of the library's code.
rustc=$1; shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && { [ "$a" = math_core ] || [ "$a" = mathml_renderer ]; }; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  prev=$a
done
exec "$rustc" "$@"
