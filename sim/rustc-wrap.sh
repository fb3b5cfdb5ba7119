#!/bin/sh
# RUSTC_WRAPPER for the simulator builds: compiles the library under test,
# the operation catalogue and the property workloads with scheduling callbacks before every basic block,
# load and store; every other crate is compiled plainly.
crate=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate=$a
  prev=$a
done
if [ -n "$MM_INSTRUMENT" ] && { [ "$crate" = micromath ] || [ "$crate" = mmops ] || [ "$crate" = mmsim ]; }; then
  exec "$@" -Cpasses=sancov-module -Ccodegen-units=1 -Cembed-bitcode=no \
    -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores \
    -Cllvm-args=-sanitizer-coverage-prune-blocks=0
fi
exec "$@"
