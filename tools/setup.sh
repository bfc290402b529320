#!/bin/bash
# builds the framework: the replay crate, the THIR extractor and the dependencies' metadata
# (warms the target directories only; every check rebuilds from /repo's current tree)
cd "$(dirname "$0")/.." && mkdir -p evidence && { bash replay/build.sh; bash optprobe/build.sh; } >/dev/null 2>&1 &
cd "$(dirname "$0")" && python3 -c 'import proof; proof.load(); proof.load(True)' >/dev/null 2>&1
wait
exit 0
