#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test (corries, and the crate in which its generics are
# instantiated) with a call on every control-flow edge.  simrt uses these calls as preemption points.
for a in "$@"; do
    if [ "$prev" = "--crate-name" ] && { [ "$a" = corries ] || [ "$a" = sut ] || [ "$a" = sut_own ]; }; then
        exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
            -C llvm-args=-sanitizer-coverage-trace-pc-guard -C lto=off -C embed-bitcode=no
    fi
    prev=$a
done
exec "$@"
