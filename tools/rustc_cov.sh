#!/bin/sh
# RUSTC_WRAPPER: compiles the crate under test (only it) with LLVM sanitizer coverage.
rustc="$1"; shift
case " $* " in
  *" --crate-name yamd "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
      -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
esac
exec "$rustc" "$@"
