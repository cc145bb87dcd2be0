#!/bin/bash
# Compiler wrapper (RUSTC_WRAPPER) of the build with scheduling points: the library, and nothing else, gets a call to
# __sanitizer_cov_trace_pc (harness/src/sched.rs) in every basic block.
rustc=$1; shift
case " $* " in
*" --crate-name lolcode_ast "*) exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc ;;
*) exec "$rustc" "$@" ;;
esac
