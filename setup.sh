#!/bin/bash
# Builds the explorer once (checks rebuild it against /repo's current tree).
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_DIR/harness" && cargo build --offline --release
