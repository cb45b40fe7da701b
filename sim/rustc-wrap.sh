#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test with scheduling-point callbacks (basic-block edges, loads, stores)
# and links it against libsim.so, which defines them. Dependencies are compiled as they are.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
cgu="-C codegen-units=1"; [ "$name" = libwork ] && cgu="-C codegen-units=32 -C opt-level=1"
case "$name" in
  huff|huff_coding|libwork)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores --cap-lints allow $cgu -C link-arg="$SIM_LIB" ;;
  *) exec "$rustc" "$@" ;;
esac
