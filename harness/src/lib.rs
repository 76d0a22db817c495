#![feature(portable_simd)]
#![allow(clippy::needless_range_loop, clippy::type_complexity)]
#![cfg_attr(not(feature = "full"), allow(dead_code, unused_imports))]
pub mod assets;
#[macro_use]
pub mod core;
pub mod diff;
#[cfg(feature = "full")]
pub mod mem;
#[cfg(feature = "full")]
pub mod p_memory;
pub mod p_assets;
pub mod p_blend;
#[cfg(feature = "full")]
pub mod p_codec;
#[cfg(feature = "full")]
pub mod p_diff;
#[cfg(feature = "full")]
pub mod p_flavour;
#[cfg(feature = "full")]
pub mod p_docs;
pub mod p_ik;
#[cfg(feature = "full")]
pub mod p_jobs;
#[cfg(feature = "full")]
pub mod p_locks;
pub mod p_sampling;
pub mod p_skeleton;
pub mod p_skin;
#[cfg(feature = "full")]
pub mod p_soa;
#[cfg(feature = "full")]
pub mod p_tracks;
#[cfg(feature = "full")]
pub mod p_params;
#[cfg(feature = "full")]
pub mod p_trig;
#[cfg(feature = "full")]
pub mod props;
#[cfg(feature = "full")]
pub mod supervisor;
pub mod util;
