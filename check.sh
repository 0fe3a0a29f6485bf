#!/bin/bash
# check.sh <ID> [--case N]: rebuild the monitors and the converter from /repo's working tree, run a check.
# exit 0: held on everything explored; 1 (with a VIOLATION line): violated; anything else: no verdict.
export HOME="${HOME:-/root}"
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/tools/env.sh"
ID="$1"
shift
LOG="$VERIF_DIR/target/build-$ID.log"
mkdir -p "$VERIF_DIR/target"
if ! bash "$VERIF_DIR/tools/build.sh" "$ID" >"$LOG" 2>&1; then
    tail -n 40 "$LOG"
    echo "the build failed: no verdict"
    exit 3
fi
ulimit -c 0
ulimit -v 8388608
exec "$VERIF_DIR/target/debug/monitor" "$ID" "$@"
