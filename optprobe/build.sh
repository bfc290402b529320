#!/bin/bash
# builds the probe structures with the macro of /repo's current tree
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=${PROBE_TARGET:-/verif/optprobe/target} CARGO_INCREMENTAL=0
cd "$(dirname "$0")" && exec cargo build --offline "$@"
