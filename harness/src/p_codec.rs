//! C05: compressed keyframe decoders.

use crate::assets::*;
use crate::core::*;
use glam::Vec3;
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;

fn half_ok(got: f32, h: u16) -> bool {
    let v = half_value(h);
    if v.is_nan() {
        got.is_nan()
    } else {
        // Every half is exactly representable; zero keeps its sign.
        got.to_bits() == (if h == 0x8000 { -0.0f32 } else { v as f32 }).to_bits()
    }
}

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn check_f3(keys: [[u16; 3]; 4]) -> Result<u64, String> {
    let k = keys.map(Float3Key::new);
    let mut soa = SoaVec3::splat(7.0);
    Float3Key::simd_decompress(&k[0], &k[1], &k[2], &k[3], &mut soa);
    let rows = [soa.x, soa.y, soa.z];
    let mut h = Fnv::new();
    for l in 0..4 {
        let one: Vec3 = k[l].decompress();
        for c in 0..3 {
            ensure!(half_ok(one[c], keys[l][c]), "one-key decoder: half {:#06x} gives {} expected {}", keys[l][c], one[c], half_value(keys[l][c]));
            ensure!(half_ok(rows[c][l], keys[l][c]), "four-key decoder: half {:#06x} in lane {} component {} gives {} expected {}", keys[l][c], l, c, rows[c][l], half_value(keys[l][c]));
            ensure!(same(one[c], rows[c][l]), "half {:#06x}: decoders disagree", keys[l][c]);
            h.f32(one[c]);
        }
    }
    Ok(h.get())
}

fn check_q(keys: [[u16; 3]; 4]) -> Result<u64, String> {
    let k = keys.map(QuaternionKey::new);
    let mut soa = SoaQuat::splat(7.0);
    QuaternionKey::simd_decompress(&k[0], &k[1], &k[2], &k[3], &mut soa);
    let rows = [soa.x, soa.y, soa.z, soa.w];
    let mut h = Fnv::new();
    for l in 0..4 {
        let one = k[l].decompress().to_array();
        let (largest, neg, _) = quat_fields(keys[l]);
        let want = quat_value(keys[l]);
        let mut dot = 0.0f64;
        for c in 0..4 {
            ensure!(same(one[c], rows[c][l]), "key {:x?} in lane {}: four-key decoder gives component {} = {}, one-key {}", keys[l], l, c, rows[c][l], one[c]);
            if c != largest {
                ensure!((one[c] as f64 - want[c]).abs() < 1e-6, "key {:x?} component {}: {} expected {}", keys[l], c, one[c], want[c]);
                dot += want[c] * want[c];
            } else {
                ensure!((one[c] as f64 * one[c] as f64 - want[c] * want[c]).abs() < 2e-6, "key {:x?} largest component {}: {} expected {}", keys[l], c, one[c], want[c]);
                if want[c].abs() > 2e-3 {
                    ensure!((one[c] < 0.0) == neg, "key {:x?}: sign of the largest component lost", keys[l]);
                }
            }
            h.f32(one[c]);
        }
        if dot <= 1.0 {
            let n: f64 = one.iter().map(|x| *x as f64 * *x as f64).sum();
            ensure!((n - 1.0).abs() < 4e-6, "key {:x?}: squared length {}", keys[l], n);
        }
    }
    Ok(h.get())
}

pub fn c05(ctx: &mut Ctx) {
    let th = ctx.wide();
    ctx.suite("every half-float in every lane and component", |ctx| {
        // One case = 256 consecutive patterns, each in all 12 positions next to contrasting neighbours.
        for hi in 0..256u32 {
            ctx.case(
                || format!("patterns {:#06x}..", hi << 8),
                |st| {
                    let mut h = 0;
                    for lo in 0..256u32 {
                        let v = (hi << 8 | lo) as u16;
                        for fill in [[0x3c00u16, 0xbc00, 0x0001], [0x7bff, 0x0400, 0x8000], [0xffff, 0x7c00, 0x4248]] {
                            for l in 0..4 {
                                for c in 0..3 {
                                    let mut k = [fill; 4];
                                    k[l][c] = v;
                                    k[(l + 1) % 4][(c + 1) % 3] = !v;
                                    h ^= check_f3(k)?;
                                    st.evaluations += 1;
                                }
                            }
                        }
                    }
                    Ok(h)
                },
            );
        }
    });
    let vals: Vec<u16> = ctx.more(
        ctx.pick3(
            vec![0, 1, 9598, 16383, 16384, 27305, 32767],
            vec![0, 1, 100, 8192, 9598, 16383, 16384, 20000, 24575, 27305, 32766, 32767],
            (0..0x8000).step_by(1820).chain([1, 9598, 16383, 16384, 32767]).collect(),
        ),
        (0..0x8000).step_by(700).chain([1, 9598, 16383, 16384, 32767]).collect(),
    );
    ctx.suite("every value of one rotation component", |ctx| {
        for largest in 0..4u16 {
            for neg in [false, true] {
                for pos in 0..3 {
                    for a in &vals {
                        for b in &vals {
                            ctx.case(
                                || format!("largest {} negative {} component {} others ({}, {})", largest, neg, pos, a, b),
                                |st| {
                                    let mut h = 0;
                                    for v in (0..0x8000u16).step_by(4) {
                                        // Four consecutive values, one per lane.
                                        let keys = std::array::from_fn(|l| {
                                            let mut c = [0u16; 3];
                                            c[pos] = v + l as u16;
                                            c[(pos + 1) % 3] = *a;
                                            c[(pos + 2) % 3] = *b;
                                            quat_key(largest, neg, c)
                                        });
                                        h ^= check_q(keys)?;
                                    }
                                    st.evaluations += 0x2000;
                                    Ok(h)
                                },
                            );
                        }
                    }
                }
            }
        }
    });
    ctx.suite("every mix of stored positions and signs over the four lanes", |ctx| {
        let step = ctx.more(if th { 7 } else { 31 }, 1);
        tuples(8, 4, |d| {
            ctx.case(
                || format!("(largest, sign) per lane {:?}", d),
                |st| {
                    let mut h = 0;
                    for i in 0..(217 / step) {
                        let keys = std::array::from_fn(|l| {
                            let n = (i * step + l * 53) as u16;
                            let c = [n.wrapping_mul(151) & 0x7fff, (9598 + n * 61) & 0x7fff, (20000 - n * 37) & 0x7fff];
                            quat_key((d[l] & 3) as u16, d[l] & 4 != 0, c)
                        });
                        h ^= check_q(keys)?;
                        st.evaluations += 1;
                    }
                    Ok(h)
                },
            );
        });
    });
    ctx.suite("every value of each stored 16-bit word", |ctx| {
        // Raw words, including the unused top bit.
        for w in 0..3 {
            for hi in 0..256u32 {
                ctx.case(
                    || format!("word {} values {:#06x}..", w, hi << 8),
                    |st| {
                        let mut h = 0;
                        for lo in (0..256u32).step_by(2) {
                            for fill in [[0u16; 3], [0xffff; 3], [0x55aa, 0x4bd1, 0x3333]] {
                                let mut k = [fill; 4];
                                k[0][w] = (hi << 8 | lo) as u16;
                                k[1][w] = (hi << 8 | lo | 1) as u16;
                                k[2][w] = !(hi << 8 | lo) as u16;
                                k[3][(w + 1) % 3] = (hi << 8 | lo) as u16;
                                h ^= check_q(k)?;
                                st.evaluations += 1;
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    ctx.suite("encoded unit quaternions come back", |ctx| {
        let n = ctx.more(if th { 14 } else { 9 }, 50);
        for i in 0..n {
            for j in 0..n {
                ctx.case(
                    || format!("grid row {} {}", i, j),
                    |st| {
                        let f = |i: usize| i as f64 / (n - 1) as f64 * 2.0 - 1.0;
                        let mut hh = Fnv::new();
                        for k in 0..n {
                            for l in 0..n {
                                let q = [f(i), f(j), f(k), f(l)];
                                let len = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                                if len < 1e-3 {
                                    continue;
                                }
                                let q = q.map(|x| x / len);
                                let key = encode_quat(q);
                                hh.u64(check_q([key; 4])?);
                                st.evaluations += 1;
                                let got = QuaternionKey::new(key).decompress().to_array();
                                for c in 0..4 {
                                    ensure!((got[c] as f64 - q[c]).abs() < 6e-5, "{:?} came back as {:?}", q, got);
                                }
                            }
                        }
                        Ok(hh.get())
                    },
                );
            }
        }
    });
}
