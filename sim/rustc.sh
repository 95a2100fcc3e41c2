#!/bin/bash
# Cargo's RUSTC_WRAPPER of the build for C16: memory accesses of the code under test call into the simulator
# (core/src/instr.rs). The instrumentation is the compiler's; no sanitizer is linked.
case " $* " in
    *" --crate-name fixed_map "* | *" --crate-name fmsim "*)
        export RUSTC_BOOTSTRAP=1
        exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0
        ;;
esac
exec "$@"
