#!/bin/sh
# A compiler for cargo's RUSTC_WRAPPER: instruments the code under test and the harness (which holds
# the code of the trees' generic methods) for libFuzzer, and links libFuzzer to the harness binary.
cov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares"
case " $* " in
    *" --crate-name fm_harness "*"--crate-type bin "*) exec "$@" $cov -Clink-arg="$FM_FUZZER_LIB" -Clink-arg=-lstdc++ ;;
    *" --crate-name fm_harness "* | *" --crate-name fuel_merkle "* | *" --crate-name fuel_merkle_test_helpers "*) exec "$@" $cov ;;
    *) exec "$@" ;;
esac
