#!/bin/bash
# builds the bounded replayer from /repo's current tree
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=${REPLAY_TARGET:-/verif/replay/target} RUSTFLAGS="--cfg essay_verif" CARGO_INCREMENTAL=0
cd "$(dirname "$0")" && exec cargo build --offline "$@"
