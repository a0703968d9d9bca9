#!/bin/bash
# Builds the simulated binaries from /repo's working tree into /verif/target.
# usage: build.sh [cargo build arguments]
. /opt/vp/env.sh
cd /verif/sim || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores --cfg qcd_sme_sim"
exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
