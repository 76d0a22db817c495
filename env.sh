# Toolchain of the repository (it needs a specific nightly); everything offline.
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=nightly-2025-12-01
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset SAVE_TO_EXPECTED RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/.build"
