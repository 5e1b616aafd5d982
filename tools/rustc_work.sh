#!/bin/sh
# RUSTC_WRAPPER: compiles the crate under test and the standard library below it with one callback per
# executed edge (the work counter of C20). The harness itself is not instrumented.
rustc="$1"; shift
case " $* " in
  *" --crate-name yamd "*|*" --crate-name core "*|*" --crate-name alloc "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$rustc" "$@"
