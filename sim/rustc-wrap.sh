#!/bin/bash
# RUSTC_WRAPPER: basic-block callbacks (preemption / crash points, coverage) in
# the code under test and the workloads only - never in the simulator runtime
# or third-party crates.
rustc="$1"; shift
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; break; fi
done
case "$name" in
  sim|sci_rs) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
