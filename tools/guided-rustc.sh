#!/bin/bash
# RUSTC_WRAPPER of the coverage-guided build: instruments the crate under test and the harness (where its generic
# functions are instantiated), and links libFuzzer.
rustc=$1
shift
name=
bin=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    [ "$prev" = --crate-type ] && [ "$a" = bin ] && bin=1
    prev=$a
done
extra=()
if [ "$name" = vt6 ] || [ "$name" = vt6check ]; then
    extra+=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
        -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares)
    # branches as written, not folded into one
    [ "$name" = vt6 ] && extra+=(-Copt-level=0)
    if [ "$name" = vt6check ] && [ -n "$bin" ]; then
        lib=$(ls /usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a 2>/dev/null | head -1)
        extra+=(-Clink-arg="$lib" -Clink-arg=-lstdc++ -Clink-arg=-lm)
    fi
fi
exec "$rustc" "$@" "${extra[@]}"
