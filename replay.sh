#!/bin/bash
# replay.sh <replay file>: re-runs the single case recorded in a replay file against /repo's current tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
f="$(realpath "$1")"
cd "$VERIF_DIR/harness" || exit 2
cargo build --offline --release >/dev/null 2>&1 || { echo "BUILD FAILED"; exit 2; }
grep -q "\"C19\"" "$f" && bash "$VERIF_DIR/variants.sh" >/dev/null 2>&1
exec "$CARGO_TARGET_DIR/release/ozzmc" replay "$f"
