#!/bin/bash
# run.sh <property> <quick|thorough>: builds the simulator against /repo's working tree and runs a check
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 DST_HOME=$here
log=$(bash "$here/sim/build.sh" 2>&1) || { printf '%s\n' "$log" | tail -40; echo "the simulator does not build"; exit 2; }
exec "$here/sim/target/debug/dst" check "$1" "$2"
