#!/bin/bash
# Builds the monitors and, for the checks that run it (C26, C27, C29, C30) or without argument, the converter.
set -e
VERIF_DIR="$(cd "$(dirname "$0")/.." && pwd)"
. "$VERIF_DIR/tools/env.sh"
cd "$VERIF_DIR/monitor"
CARGO_TARGET_DIR="$VERIF_DIR/target" cargo build --offline --locked
case "$1" in
"" | C26 | C27 | C29 | C30)
    CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --manifest-path /repo/Cargo.toml \
        -p lumberjack-utils --target-dir "$VERIF_DIR/target/cli"
    ;;
esac
