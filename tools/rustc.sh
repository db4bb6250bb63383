#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test with a call at every branch, which is the work clock
# of the simulator and the place where it may switch threads. The harness itself has no such calls.
a=("$@")
for ((i = 1; i < $#; i++)); do
    if [ "${a[i]}" = --crate-name ]; then
        case "${a[i + 1]}" in
        kdl | winnow | lsp_sut | ropey | miette)
            exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
            ;;
        esac
        break
    fi
done
exec "$@"
