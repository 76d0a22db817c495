#!/bin/bash
# Builds the variants whose outcomes C19 compares, from /repo's current tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_DIR/harness" || exit 2
B="$CARGO_TARGET_DIR"
pids=()
build() { # directory, rustflags, cargo arguments
    local dir="$1" flags="$2"; shift 2
    ( [ -n "$flags" ] && export RUSTFLAGS="$flags"
      CARGO_TARGET_DIR="$B/$dir" cargo build --offline --no-default-features "$@" ) &
    pids+=($!)
}
W="--profile plain --lib --features wasm --target wasm32-unknown-unknown"
build v-o0 "" --bin ozzmc
build v-plain "" --profile plain --bin ozzmc
build v-avx "-C target-feature=+avx2,+fma" --profile plain --bin ozzmc
build v-wasm "" $W
build v-wasmsimd "-C target-feature=+simd128" $W
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
