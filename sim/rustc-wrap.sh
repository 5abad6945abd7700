#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test (and the calls into it) with LLVM's edge callbacks, which are
# the simulator's logical clock and pre-emption points.  Nothing in /repo changes.
n=
p=
for a in "$@"; do
  [ "$p" = "--crate-name" ] && n="$a"
  p="$a"
done
if [ "$n" = pbrtrs ] || [ "$n" = calls ]; then
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table
fi
exec "$@"
