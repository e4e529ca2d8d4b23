#!/bin/bash
# rustc wrapper: edge instrumentation for the code whose interleavings are explored
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then name="$a"; fi
    prev="$a"
done
case "$name" in
    globalsearch|pyglobalsearch|subject|rayon|rayon_core|crossbeam_deque|crossbeam_epoch)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    *) exec "$rustc" "$@" ;;
esac
