#!/bin/bash
# Compiler wrapper (RUSTC_WRAPPER) of the build that counts: the library and the parts of the standard library it runs in
# (core, alloc) get a call to __sanitizer_cov_trace_pc (harness/src/sched.rs) in every basic block; the harness counts
# copied bytes as well (harness/src/cost.rs).
rustc=$1; shift
case " $* " in
*" --crate-name lolcode_ast "* | *" --crate-name core "* | *" --crate-name alloc "*) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc ;;
*" --crate-name vh "*) exec "$rustc" "$@" --cfg vh_count ;;
*) exec "$rustc" "$@" ;;
esac
