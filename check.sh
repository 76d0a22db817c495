#!/bin/bash
# check.sh <property> <quick|thorough>: builds the explorer against /repo's current tree and runs one check.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
cd "$VERIF_DIR/harness" || exit 2
log="$CARGO_TARGET_DIR/build.$1.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline --release >"$log" 2>&1; then
    echo "BUILD FAILED (the explorer does not compile against /repo)"
    tail -40 "$log"
    exit 2
fi
if [ "$1" = C19 ]; then
    bash "$VERIF_DIR/variants.sh" "$2" >"$log.variants" 2>&1 || { echo "VARIANT BUILD FAILED"; tail -40 "$log.variants"; exit 2; }
fi
exec "$CARGO_TARGET_DIR/release/ozzmc" check "$1" "$2"
