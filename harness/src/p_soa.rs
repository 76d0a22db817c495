//! C25: four-wide values are four independent values.

use crate::core::*;
use crate::p_sampling::to_rkyv;
use crate::util::*;
use glam::{Quat, Vec3};
use glam_ext::Transform3A;
use ozz_animation_rs::math::SoaMat4;
use ozz_animation_rs::*;
use std::simd::*;

/// Any value.
const ANY: [f32; 18] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -2.75, 3.0e-5, -7.0e7, 1e-38, 1e-45, -1e-45, 3.4e38, -3.4e38, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 123456.79,
];
/// Values for which rounding is the only difference between ways of computing.
const TAME: [f32; 9] = [0.0, 1.0, -1.0, 0.5, -2.75, 0.1, 1000.25, -0.003, 7.0];
/// What may stand in the other lanes.
const JUNK: [f32; 4] = [0.0, f32::NAN, f32::INFINITY, -3.0e38];

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Same value; the sign of a zero is left to the operation.
fn equal(a: f32, b: f32) -> bool {
    same(a, b) || a == b
}

fn near(got: f32, want: f64, mag: f64) -> bool {
    (got as f64 - want).abs() <= 1e-6 * mag + 1e-12
}

fn v4(v: &SoaVec3) -> [[f32; 4]; 3] {
    [v.x.to_array(), v.y.to_array(), v.z.to_array()]
}

fn q4(q: &SoaQuat) -> [[f32; 4]; 4] {
    [q.x.to_array(), q.y.to_array(), q.z.to_array(), q.w.to_array()]
}

/// Puts `v` in `lane`, junk in the others.
fn place<const N: usize>(v: [f32; N], lane: usize, junk: usize) -> [[f32; 4]; N] {
    std::array::from_fn(|c| std::array::from_fn(|l| if l == lane { v[c] } else { JUNK[(junk + l + c) % 4] }))
}

fn pv(v: [f32; 3], lane: usize, junk: usize) -> SoaVec3 {
    let [x, y, z] = place(v, lane, junk);
    SoaVec3::new(x, y, z)
}

fn pq(v: [f32; 4], lane: usize, junk: usize) -> SoaQuat {
    let [x, y, z, w] = place(v, lane, junk);
    SoaQuat::new(x, y, z, w)
}

fn pf(v: f32, lane: usize, junk: usize) -> f32x4 {
    f32x4::from_array(place([v], lane, junk)[0])
}

fn pi(v: i32, lane: usize) -> i32x4 {
    i32x4::from_array(std::array::from_fn(|l| if l == lane { v } else { 0x5555_5555 << (l % 2) }))
}

/// Runs an operation with the operands in every lane among every junk: one result, wherever it stands.
fn lanes<const N: usize>(op: &str, f: impl Fn(usize, usize) -> [[f32; 4]; N]) -> Result<[f32; N], String> {
    let mut first: Option<[f32; N]> = None;
    for lane in 0..4 {
        for junk in 0..4 {
            let all = f(lane, junk);
            let r: [f32; N] = std::array::from_fn(|c| all[c][lane]);
            match &first {
                None => first = Some(r),
                Some(o) => ensure!((0..N).all(|c| same(o[c], r[c])), "{}: lane {} among values {} gives {:?}, lane 0 gave {:?}", op, lane, junk, r, o),
            }
        }
    }
    Ok(first.unwrap())
}

fn vec_ops(a: [f32; 3], b: [f32; 3], t: f32, m: i32) -> Result<u64, String> {
    let mut h = Fnv::new();
    let bits = |f: fn(u32, u32) -> u32| -> [f32; 3] { a.map(|x| f32::from_bits(f(x.to_bits(), m as u32))) };
    let exact: [(&str, [f32; 3], [f32; 3]); 7] = [
        ("negation", lanes("negation", |l, j| v4(&pv(a, l, j).neg()))?, a.map(|x| -x)),
        ("sum", lanes("sum", |l, j| v4(&pv(a, l, j).add(&pv(b, l, j + 1))))?, std::array::from_fn(|c| a[c] + b[c])),
        ("difference", lanes("difference", |l, j| v4(&pv(a, l, j).sub(&pv(b, l, j + 1))))?, std::array::from_fn(|c| a[c] - b[c])),
        ("scaling", lanes("scaling", |l, j| v4(&pv(a, l, j).mul_num(pf(t, l, j + 2))))?, a.map(|x| x * t)),
        ("and", lanes("and", |l, j| v4(&pv(a, l, j).and_num(pi(m, l))))?, bits(|x, y| x & y)),
        ("or", lanes("or", |l, j| v4(&pv(a, l, j).or_num(pi(m, l))))?, bits(|x, y| x | y)),
        ("xor", lanes("xor", |l, j| v4(&pv(a, l, j).xor_num(pi(m, l))))?, bits(|x, y| x ^ y)),
    ];
    for (op, got, want) in exact {
        ensure!((0..3).all(|c| equal(got[c], want[c])), "vector {} of {:?}, {:?}, {}, {:#x}: {:?} expected {:?}", op, a, b, t, m, got, want);
        h.fs(&got);
    }
    let r = lanes("interpolation", |l, j| v4(&SoaVec3::lerp(&pv(a, l, j), &pv(b, l, j + 1), pf(t, l, j + 2))))?;
    for c in 0..3 {
        let (x, y, k) = (a[c] as f64, b[c] as f64, t as f64);
        if x.abs() < 1e6 && y.abs() < 1e6 && k.abs() < 1e6 {
            let (want, mag) = (x + (y - x) * k, (x.abs() + y.abs()) * (1.0 + k.abs()));
            ensure!(near(r[c], want, mag), "interpolation of {} and {} at {}: {} expected {}", x, y, k, r[c], want);
        }
    }
    Ok(h.fs(&r).get())
}

fn quat_ops(a: [f32; 4], b: [f32; 4], t: f32, m: i32) -> Result<u64, String> {
    let mut h = Fnv::new();
    let bits = |f: fn(u32, u32) -> u32| -> [f32; 4] { a.map(|x| f32::from_bits(f(x.to_bits(), m as u32))) };
    let flip = if a[3] < 0.0 { a.map(|x| -x) } else { a };
    let mut exact: Vec<(&str, [f32; 4], [f32; 4])> = vec![
        ("conjugate", lanes("conjugate", |l, j| q4(&pq(a, l, j).conjugate()))?, [-a[0], -a[1], -a[2], a[3]]),
        ("sum", lanes("sum", |l, j| q4(&pq(a, l, j).add(&pq(b, l, j + 1))))?, std::array::from_fn(|c| a[c] + b[c])),
        ("scaling", lanes("scaling", |l, j| q4(&pq(a, l, j).mul_num(pf(t, l, j + 2))))?, a.map(|x| x * t)),
        ("and", lanes("and", |l, j| q4(&pq(a, l, j).and_num(pi(m, l))))?, bits(|x, y| x & y)),
        ("or", lanes("or", |l, j| q4(&pq(a, l, j).or_num(pi(m, l))))?, bits(|x, y| x | y)),
        ("xor", lanes("xor", |l, j| q4(&pq(a, l, j).xor_num(pi(m, l))))?, bits(|x, y| x ^ y)),
    ];
    // The sign of a zero or NaN picks either representative.
    if a[3] != 0.0 && !a[3].is_nan() {
        exact.push(("positive w", lanes("positive w", |l, j| q4(&pq(a, l, j).positive_w()))?, flip));
    }
    for (op, got, want) in exact {
        ensure!((0..4).all(|c| equal(got[c], want[c])), "quaternion {} of {:?}, {:?}, {}, {:#x}: {:?} expected {:?}", op, a, b, t, m, got, want);
        h.fs(&got);
    }
    let mul = lanes("product", |l, j| q4(&pq(a, l, j).mul(&pq(b, l, j + 1))))?;
    let dot = lanes("dot", |l, j| [pq(a, l, j).dot(&pq(b, l, j + 1)).to_array()])?[0];
    let unit = lanes("normalisation", |l, j| q4(&pq(a, l, j).normalize()))?;
    let nlerp = lanes("normalised interpolation", |l, j| q4(&pq(a, l, j).nlerp(&pq(b, l, j + 1), pf(t, l, j + 2))))?;
    let tame = |v: &[f32]| v.iter().all(|x| x.abs() < 1e4 && (*x == 0.0 || x.abs() > 1e-6));
    if tame(&a) && tame(&b) && tame(&[t]) {
        let (x, y, k) = (q64(a), q64(b), t as f64);
        let (lx, ly) = (qdot(x, x).sqrt(), qdot(y, y).sqrt());
        let want = qmul(x, y);
        ensure!((0..4).all(|c| near(mul[c], want[c], lx * ly)), "product of {:?} and {:?}: {:?} expected {:?}", a, b, mul, want);
        ensure!(near(dot, qdot(x, y), lx * ly), "dot of {:?} and {:?}: {} expected {}", a, b, dot, qdot(x, y));
        if lx > 1e-3 {
            let want = qnorm(x);
            ensure!((0..4).all(|c| near(unit[c], want[c], 1.0)), "normalising {:?}: {:?} expected {:?}", a, unit, want);
        }
        let mix: [f64; 4] = std::array::from_fn(|c| x[c] + (y[c] - x[c]) * k);
        let l = qdot(mix, mix).sqrt();
        let mag = (lx + ly) * (1.0 + k.abs());
        if l > 1e-2 * mag {
            let want = qnorm(mix);
            ensure!((0..4).all(|c| near(nlerp[c], want[c], 2.0 * mag / l)), "normalised interpolation of {:?} and {:?} at {}: {:?} expected {:?}", a, b, t, nlerp, want);
        }
    }
    Ok(h.fs(&mul).f32(dot).fs(&unit).fs(&nlerp).get())
}

fn affine(t: [f32; 3], r: [f32; 4], s: [f32; 3]) -> Result<u64, String> {
    let got = lanes("affine matrix", |l, j| SoaMat4::from_affine(&pv(t, l, j), &pq(r, l, j + 1), &pv(s, l, j + 2)).cols.map(|c| c.to_array()))?;
    let want = maffine(&crate::assets::Xf { t, r, s });
    let big = s.iter().chain(&t).fold(1.0f64, |m, x| m.max(x.abs() as f64));
    for c in 0..4 {
        for k in 0..4 {
            ensure!(near(got[c * 4 + k], want[c][k], 4.0 * big), "affine matrix of {:?} {:?} {:?}: element {} of column {} is {} expected {}", t, r, s, k, c, got[c * 4 + k], want[c][k]);
        }
    }
    Ok(hash_bits(&got.map(f32::to_bits)))
}

fn quats() -> Vec<[f32; 4]> {
    let mut v = vec![[0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, -1.0], [1.0, 0.0, 0.0, 0.0], [0.0, -1.0, 0.0, 0.0], [0.0, 0.0, 1.0, -0.0], [2.0, -3.0, 0.5, 4.0], [0.01, 0.02, -0.03, 0.04]];
    for (k, ax) in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -1.0, 0.5], [-0.3, 0.2, 2.0]].into_iter().enumerate() {
        for a in [0.3, 1.7, 3.0, -2.2] {
            v.push(quat_axis(ax, a + 0.1 * k as f64));
        }
    }
    v
}

/// Values as (component, lane) bits.
fn tbits(t: &SoaTransform) -> Vec<u32> {
    xf_floats(t).iter().map(|f| f.to_bits()).collect()
}

fn trips<T>(v: &T, json: bool, eq: impl Fn(&T, &T) -> bool) -> Result<(), String>
where
    T: serde::Serialize + serde::de::DeserializeOwned + rkyv::Archive<Archived = T> + rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<4096>>,
    T: rkyv::Deserialize<T, rkyv::Infallible> + for<'a> rkyv::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>,
{
    let b = to_rkyv(v);
    // Validated access wherever the bytes lie: granted exactly where the value is aligned.
    let mut room = rkyv::AlignedVec::with_capacity(b.len() + 32);
    room.resize(b.len() + 16, 0);
    for at in 0..16 {
        room[at..at + b.len()].copy_from_slice(&b);
        let r = rkyv::check_archived_root::<T>(&room[at..at + b.len()]).ok();
        let aligned = at % std::mem::align_of::<T>() == 0;
        ensure!(r.is_some() == aligned, "validated access to a value at offset {}: granted {}", at, r.is_some());
        if let Some(r) = r {
            ensure!(eq(v, r), "validated access changed the value");
        }
    }
    let r: T = rkyv::Deserialize::<T, _>::deserialize(unsafe { rkyv::archived_root::<T>(&b) }, &mut rkyv::Infallible).unwrap();
    ensure!(eq(v, &r), "rkyv changed the value");
    let r: T = bincode::deserialize(&bincode::serialize(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(eq(v, &r), "bincode changed the value");
    if json {
        let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let r: T = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(eq(v, &r), "JSON changed the value: {}", s);
        let r: T = serde_json::from_value(serde_json::to_value(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(eq(v, &r), "a JSON value changed the value");
        let r: T = serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string())?;
        ensure!(eq(v, &r), "a JSON reader changed the value");
    }
    Ok(())
}

pub fn c25(ctx: &mut Ctx) {
    let masks = [0i32, -1, i32::MIN, i32::MAX, 0x5a5a_a5a5, 0x3f80_0000];
    // Every pair of values (special ones included) in every component, every lane, among every junk.
    let around = ctx.more(1usize, TAME.len());
    ctx.suite("vector operations", |ctx| {
        for (i, a) in ANY.iter().enumerate() {
            for (j, b) in ANY.iter().enumerate() {
                ctx.case(
                    || format!("values {} and {} in one component", a, b),
                    |st| {
                        let mut h = 0u64;
                        for c in 0..3 {
                            for (ti, t) in ANY.iter().enumerate() {
                                for r in 0..around {
                                    let x: [f32; 3] = std::array::from_fn(|k| if k == c { *a } else { TAME[(i + k * 2 + r) % TAME.len()] });
                                    let y: [f32; 3] = std::array::from_fn(|k| if k == c { *b } else { TAME[(j + k * 4 + 1 + r * 3) % TAME.len()] });
                                    h = h.rotate_left(1) ^ vec_ops(x, y, *t, masks[(ti + i + j + r) % masks.len()])?;
                                    st.transition();
                                }
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    ctx.suite("vector operations on ordinary values", |ctx| {
        let n = TAME.len();
        tuples(n, 3, |a| {
            let x: [f32; 3] = std::array::from_fn(|c| TAME[a[c]]);
            ctx.case(
                || format!("{:?} with every other vector", x),
                |st| {
                    let mut h = 0u64;
                    let mut err = None;
                    tuples(n, 3, |b| {
                        let y: [f32; 3] = std::array::from_fn(|c| TAME[b[c]]);
                        let t = TAME[(a[0] + b[1] + b[2]) % n];
                        if err.is_none() {
                            match vec_ops(x, y, t, masks[(a[1] + b[0]) % masks.len()]) {
                                Ok(v) => h = h.rotate_left(1) ^ v,
                                Err(e) => err = Some(e),
                            }
                            st.transition();
                        }
                    });
                    err.map_or(Ok(h), Err)
                },
            );
        });
    });
    let qs = quats();
    let ctx_ratios: &[f32] = ctx.more(&[0.0, 1.0, 0.5, 0.25, 0.9, -0.3, 1.7], &[0.0, 1.0, 0.5, 0.25, 0.9, -0.3, 1.7, 0.75, 0.1, 0.999, 1e-4, 1e-20, -1.0, 3.0, 100.0]);
    ctx.suite("quaternion operations", |ctx| {
        for a in &qs {
            for b in &qs {
                ctx.case(
                    || format!("{:?} and {:?} at every ratio and under every mask", a, b),
                    |st| {
                        let mut h = 0u64;
                        for &t in ctx_ratios {
                            for m in masks {
                                h = h.rotate_left(1) ^ quat_ops(*a, *b, t, m)?;
                                st.transition();
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
        for (i, a) in ANY.iter().enumerate() {
            for (j, b) in ANY.iter().enumerate() {
                ctx.case(
                    || format!("values {} and {} in one component", a, b),
                    |st| {
                        let mut h = 0u64;
                        for c in 0..4 {
                            for d in 0..4 {
                                let x: [f32; 4] = std::array::from_fn(|k| if k == c { *a } else { TAME[(i + k * 2) % TAME.len()] });
                                let y: [f32; 4] = std::array::from_fn(|k| if k == d { *b } else { TAME[(j + k * 4 + 1) % TAME.len()] });
                                h = h.rotate_left(1) ^ quat_ops(x, y, ANY[(c * 4 + d + i) % ANY.len()], masks[(c + d + j) % masks.len()])?;
                                st.transition();
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    ctx.suite("affine matrices", |ctx| {
        for q in &qs {
            let r = {
                let n = qnorm(q64(*q));
                n.map(|x| x as f32)
            };
            tuples(4, 3, |s| {
                let s: [f32; 3] = std::array::from_fn(|c| [1.0f32, -2.0, 0.25, 3.5][s[c]]);
                ctx.case(
                    || format!("rotation {:?} scale {:?} and every translation", r, s),
                    |st| {
                        let mut h = 0u64;
                        let mut err = None;
                        tuples(4, 3, |t| {
                            let t: [f32; 3] = std::array::from_fn(|c| [0.0f32, 1.0, -7.5, 0.125][t[c]]);
                            if err.is_none() {
                                match affine(t, r, s) {
                                    Ok(v) => h = h.rotate_left(1) ^ v,
                                    Err(e) => err = Some(e),
                                }
                                st.transition();
                            }
                        });
                        err.map_or(Ok(h), Err)
                    },
                );
            });
        }
    });
    // Every sequence of lane replacements against four separate values.
    ctx.suite("lane replacement", |ctx| {
        let xf = |k: usize| Transform3A::new(Vec3::new(k as f32, ANY[k % 18], -0.5), Quat::from_xyzw(0.1 * k as f32, ANY[(k + 5) % 18], -1.0, 0.25), Vec3::new(ANY[(k + 9) % 18], 2.0, k as f32 + 0.5));
        let depth = ctx.more(ctx.pick3(3usize, 4, 4), 5);
        // 4 lanes x 3 values x (transform, translation, rotation, scale).
        for first in 0..48usize {
            ctx.case(
                || format!("every sequence of {} replacements after replacement {}", depth - 1, first),
                |st| {
                    let mut err = None;
                    let ops = if depth > 3 { 24 } else { 48 };
                    let mut h = 0u64;
                    tuples(ops, depth - 1, |d| {
                        if err.is_some() {
                            return;
                        }
                        let mut soa = SoaTransform::IDENTITY;
                        let mut m = [Transform3A::IDENTITY; 4];
                        for (n, o) in std::iter::once(&first).chain(d).enumerate() {
                            let (lane, k, what) = (o % 4, o / 4 % 3, o / 12);
                            let v = xf(k * 5 + lane + n);
                            match what {
                                0 => {
                                    soa.set_transform(lane, v);
                                    m[lane] = v;
                                }
                                1 => {
                                    soa.translation.set_vec3(lane, v.translation.into());
                                    m[lane].translation = v.translation;
                                }
                                2 => {
                                    soa.rotation.set_quat(lane, v.rotation);
                                    m[lane].rotation = v.rotation;
                                }
                                _ => {
                                    soa.scale.set_vec3(lane, v.scale.into());
                                    m[lane].scale = v.scale;
                                }
                            }
                            for l in 0..4 {
                                let want = crate::p_blend::xf3_bits(&m[l]);
                                let got = crate::p_blend::xf3_bits(&soa.transform(l));
                                let parts = crate::p_blend::xf3_bits(&Transform3A::new(soa.translation.vec3(l), soa.rotation.quat(l), soa.scale.vec3(l)));
                                if got != want || parts != want {
                                    err = Some(format!("after replacement {} of {:?}: lane {} is {:x?} expected {:x?}", n, d, l, got, want));
                                    return;
                                }
                            }
                        }
                        h = h.rotate_left(1) ^ hash_bits(&tbits(&soa));
                        st.transition();
                    });
                    err.map_or(Ok(h), Err)
                },
            );
        }
    });
    ctx.suite("construction", |ctx| {
        for a in ANY {
            for b in ANY {
                ctx.case(
                    || format!("from {} and {}", a, b),
                    |_| {
                        for (v, q) in [([a, b, 0.5], [a, b, 0.5, -1.0]), ([0.25, a, b], [b, 0.75, a, 2.0]), ([b, 1.5, a], [0.5, a, 0.125, b])] {
                            let s = SoaVec3::splat_vec3(Vec3::from(v));
                            let r = SoaQuat::splat_quat(Quat::from_array(q));
                            let t = Transform3A::new(Vec3::from(v), Quat::from_array(q), Vec3::new(b, a, 3.0));
                            let x = SoaTransform::splat_transform(t);
                            let made = SoaTransform::new(s, r, SoaVec3::splat_vec3(Vec3::new(b, a, 3.0)));
                            for l in 0..4 {
                                let w = crate::p_blend::xf3_bits(&t);
                                ensure!(s.vec3(l).to_array().map(f32::to_bits) == v.map(f32::to_bits), "vector lane {}", l);
                                ensure!(r.quat(l).to_array().map(f32::to_bits) == q.map(f32::to_bits), "quaternion lane {}", l);
                                ensure!(crate::p_blend::xf3_bits(&x.transform(l)) == w && crate::p_blend::xf3_bits(&made.transform(l)) == w, "transform lane {}", l);
                            }
                            let n = SoaVec3::new([a, b, 1.0, 2.0], [b, 3.0, a, 4.0], [5.0, a, 6.0, b]);
                            let want = [[a, b, 5.0], [b, 3.0, a], [1.0, a, 6.0], [2.0, 4.0, b]];
                            for (l, w) in [[a, b, 5.0f32], [b, 3.0, a], [1.0, a, 6.0], [2.0, 4.0, b]].iter().enumerate() {
                                ensure!(n.vec3(l).to_array().map(f32::to_bits) == w.map(f32::to_bits), "new: lane {} of {:?}", l, want);
                            }
                        }
                        for l in 0..4 {
                            ensure!(SoaVec3::splat(a).vec3(l).to_array().map(f32::to_bits) == [a; 3].map(f32::to_bits), "splat");
                            ensure!(SoaQuat::splat(a).quat(l).to_array().map(f32::to_bits) == [a; 4].map(f32::to_bits), "splat");
                        }
                        Ok(hash_bits(&[a.to_bits(), b.to_bits()]))
                    },
                );
            }
        }
        ctx.case(
            || "named constants".into(),
            |_| {
                let m = f32::MAX;
                let named: [(&str, SoaVec3, [f32; 3]); 14] = [
                    ("ZERO", SoaVec3::ZERO, [0.0; 3]),
                    ("ONE", SoaVec3::ONE, [1.0; 3]),
                    ("NEG_ONE", SoaVec3::NEG_ONE, [-1.0; 3]),
                    ("MIN", SoaVec3::MIN, [-m; 3]),
                    ("MAX", SoaVec3::MAX, [m; 3]),
                    ("NAN", SoaVec3::NAN, [f32::NAN; 3]),
                    ("INFINITY", SoaVec3::INFINITY, [f32::INFINITY; 3]),
                    ("NEG_INFINITY", SoaVec3::NEG_INFINITY, [f32::NEG_INFINITY; 3]),
                    ("X", SoaVec3::X, [1.0, 0.0, 0.0]),
                    ("Y", SoaVec3::Y, [0.0, 1.0, 0.0]),
                    ("Z", SoaVec3::Z, [0.0, 0.0, 1.0]),
                    ("NEG_X", SoaVec3::NEG_X, [-1.0, 0.0, 0.0]),
                    ("NEG_Y", SoaVec3::NEG_Y, [0.0, -1.0, 0.0]),
                    ("NEG_Z", SoaVec3::NEG_Z, [0.0, 0.0, -1.0]),
                ];
                for l in 0..4 {
                    for (n, v, w) in &named {
                        let g = v.vec3(l).to_array();
                        ensure!((0..3).all(|c| equal(g[c], w[c])), "{} is {:?}", n, g);
                    }
                    let q = |q: SoaQuat| q.quat(l).to_array();
                    ensure!(q(SoaQuat::ZERO) == [0.0; 4] && q(SoaQuat::IDENTITY) == [0.0, 0.0, 0.0, 1.0] && q(SoaQuat::NAN).iter().all(|x| x.is_nan()), "quaternion constants");
                    let t = SoaTransform::IDENTITY.transform(l);
                    ensure!(t.translation == glam::Vec3A::ZERO && t.rotation == Quat::IDENTITY && t.scale == glam::Vec3A::ONE, "IDENTITY is {:?}", t);
                }
                ensure!(tbits(&SoaTransform::ZERO).iter().all(|b| *b == 0) && xf_floats(&SoaTransform::NAN).iter().all(|f| f.is_nan()), "transform constants");
                ensure!(tbits(&SoaTransform::default()).iter().all(|b| *b == 0), "default");
                Ok(1)
            },
        );
    });
    ctx.suite("serialised copies", |ctx| {
        for i in 0..40usize {
            for (k, a) in ANY.iter().enumerate() {
                ctx.case(
                    || format!("{} as value {} of a transform", a, i),
                    |st| {
                        let f: [f32; 40] = std::array::from_fn(|n| if n == i { *a } else { (n * 7 + k) as f32 * 0.37 - 3.0 });
                        let r = |n: usize| -> [f32; 4] { std::array::from_fn(|l| f[n * 4 + l]) };
                        let t = SoaTransform::new(SoaVec3::new(r(0), r(1), r(2)), SoaQuat::new(r(3), r(4), r(5), r(6)), SoaVec3::new(r(7), r(8), r(9)));
                        ensure!((0..40).all(|n| xf_floats(&t)[n].to_bits() == f[n].to_bits()), "layout of a transform");
                        let json = a.is_finite();
                        trips(&t, json, |a, b| tbits(a) == tbits(b))?;
                        trips(&t.translation, json, |a, b| v4(a).map(|r| r.map(f32::to_bits)) == v4(b).map(|r| r.map(f32::to_bits)))?;
                        trips(&t.scale, json, |a, b| v4(a).map(|r| r.map(f32::to_bits)) == v4(b).map(|r| r.map(f32::to_bits)))?;
                        trips(&t.rotation, json, |a, b| q4(a).map(|r| r.map(f32::to_bits)) == q4(b).map(|r| r.map(f32::to_bits)))?;
                        let pair = InterpSoaFloat3 { ratio: [t.rotation.x, t.rotation.y], value: [t.translation, t.scale] };
                        let fbits = |p: &InterpSoaFloat3| [p.ratio.map(|r| r.to_array().map(f32::to_bits)).concat(), p.value.iter().flat_map(|v| v4(v).concat()).map(f32::to_bits).collect()].concat();
                        trips(&pair, json, |a, b| fbits(a) == fbits(b))?;
                        let pair = InterpSoaQuaternion { ratio: [t.translation.x, t.scale.z], value: [t.rotation, SoaQuat::new(r(1), r(4), r(9), r(0))] };
                        let qbits = |p: &InterpSoaQuaternion| [p.ratio.map(|r| r.to_array().map(f32::to_bits)).concat(), p.value.iter().flat_map(|v| q4(v).concat()).map(f32::to_bits).collect()].concat();
                        trips(&pair, json, |a, b| qbits(a) == qbits(b))?;
                        st.transition();
                        Ok(hash_bits(&tbits(&t)))
                    },
                );
            }
        }
    });
}
