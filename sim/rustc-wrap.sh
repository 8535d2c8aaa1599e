#!/bin/bash
# cargo calls this instead of rustc: code for the simulated target is compiled with SanitizerCoverage, so that every basic block edge,
# load and store is a scheduling point; the harness itself is not. Every binary is linked with the simulated kernel.
rustc="$1"; shift
case " $* " in *" --target x86_64-unknown-linux-gnu "*) ;; *) exec "$rustc" "$@" --cap-lints allow -A semicolon_in_expressions_from_macros ;; esac
crate=; prev=
for x in "$@"; do [ "$prev" = --crate-name ] && crate="$x"; prev="$x"; done
add=(--cap-lints allow -A semicolon_in_expressions_from_macros)
if [ "$crate" != rlsim ]; then
  add+=(-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores)
fi
case " $* " in *" --crate-type bin "*) add+=(-C link-arg="$SIMRT_O") ;; esac
exec "$rustc" "$@" "${add[@]}"
