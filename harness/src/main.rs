#[cfg(feature = "full")]
#[global_allocator]
static ALLOCATOR: ozzmc::mem::Guarded = ozzmc::mem::Guarded;

#[cfg(feature = "full")]
fn main() {
    ozzmc::supervisor::main();
}

/// Build variants only report outcomes: `ozzmc diff FILE SHARD SHARDS TIER [SUITE ORDINAL]`.
#[cfg(all(not(feature = "full"), not(target_arch = "wasm32")))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    ozzmc::diff::command(&a[2..]);
}

#[cfg(all(not(feature = "full"), target_arch = "wasm32"))]
fn main() {}
