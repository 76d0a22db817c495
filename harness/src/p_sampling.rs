//! C01 - C04: animation sampling and its context.

use crate::assets::*;
use crate::core::*;
use crate::util::*;
use ozz_animation_rs::*;
use std::collections::{HashMap, VecDeque};

// ---------------------------------------------------------------------------------------------------
// Families of animations

/// Distinct, well-spread key values per channel / track / key ordinal.
pub fn key_value(c: usize, track: usize, ord: usize, last: bool) -> [u16; 3] {
    let k = ord as f64;
    let t = track as f64;
    match c {
        T => [
            half((0.25 + 0.5 * t - 0.75 * k) as f32),
            half((1.0 - 0.3 * t + 1.25 * k * if ord % 2 == 0 { 1.0 } else { -1.0 }) as f32),
            half((-2.0 + 0.1 * t + 0.4 * k + if last { 3.0 } else { 0.0 }) as f32),
        ],
        R => {
            // Rotations whose largest component and sign vary with the track, neighbouring keys on one side.
            let axis = [
                [1.0, 0.2, -0.3],
                [-0.3, 1.0, 0.25],
                [0.15, -0.4, 1.0],
                [0.6, 0.6, 0.6],
                [-1.0, 0.1, 0.5],
            ][track % 5];
            let base = [0.4, 1.7, 2.9, 3.6, 5.0, 0.9][(track / 2) % 6];
            let a = base + 0.35 * k + if last { 0.2 } else { 0.0 };
            let q = qaxis(axis, a);
            let s = if track % 3 == 2 { -1.0 } else { 1.0 };
            encode_quat(q.map(|x| x * s))
        }
        _ => [
            half((1.0 + 0.25 * k + 0.01 * t) as f32),
            half((0.5 + 0.125 * ((ord + track) % 4) as f64) as f32),
            half((2.0 - 0.0625 * k - 0.02 * (t % 7.0) + if last { 0.5 } else { 0.0 }) as f32),
        ],
    }
}

/// Animation from per-channel, per-track sets of interior key positions in `times`.
pub fn build(times: &[f32], interior: &[Vec<Vec<usize>>; 3], interval: [f32; 3]) -> Anim {
    let last = times.len() - 1;
    let chans = std::array::from_fn(|c| {
        interior[c]
            .iter()
            .enumerate()
            .map(|(t, ins)| {
                let mut keys = vec![Key { at: 0, v: key_value(c, t, 0, false) }];
                for (i, at) in ins.iter().enumerate() {
                    keys.push(Key { at: *at, v: key_value(c, t, i + 1, false) });
                }
                keys.push(Key { at: last, v: key_value(c, t, ins.len() + 1, true) });
                keys
            })
            .collect()
    });
    Anim { duration: 2.0, name: "clip".into(), times: times.to_vec(), chans, interval }
}

fn mask_set(mask: usize, n: usize) -> Vec<usize> {
    (0..n).filter(|i| mask & (1 << i) != 0).map(|i| i + 1).collect()
}

/// Small family: `tracks` tracks over a grid with `inner` interior times; every key layout of every track
/// for the translations; rotations and scales use permuted layouts so that the channels differ.
pub fn layouts(tracks: usize, inner: usize, mut f: impl FnMut(&[Vec<Vec<usize>>; 3])) {
    tuples(1 << inner, tracks, |d| {
        let t: Vec<Vec<usize>> = d.iter().map(|m| mask_set(*m, inner)).collect();
        let full = (1usize << inner) - 1;
        let r: Vec<Vec<usize>> = (0..tracks).map(|i| mask_set(full ^ d[(i + 1) % tracks], inner)).collect();
        let s: Vec<Vec<usize>> = (0..tracks).map(|i| mask_set((d[i] << 1 | d[i] >> (inner - 1)) & full, inner)).collect();
        f(&[t, r, s]);
    });
}

pub fn grid(inner: usize) -> Vec<f32> {
    // Uneven on purpose; 0.25, 0.5 and 0.75 coincide with seek frames of the intervals used.
    match inner {
        1 => vec![0.0, 0.5, 1.0],
        2 => vec![0.0, 0.25, 0.7, 1.0],
        3 => vec![0.0, 0.25, 0.5, 0.8, 1.0],
        4 => vec![0.0, 0.1, 0.25, 0.5, 0.75, 1.0],
        _ => (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect(),
    }
}

pub const INTERVALS: [f32; 5] = [0.0, 1.0, 0.5, 0.25, 1.0 / 3.0];

/// Deterministic scattered key layout for larger animations.
pub fn scattered(tracks: usize, inner: usize, step: usize) -> [Vec<Vec<usize>>; 3] {
    std::array::from_fn(|c| {
        (0..tracks)
            .map(|t| (1..=inner).filter(|i| (i * (7 + 2 * c) + t * (5 + c) + i * i * (t % 3)) % step == 0).collect())
            .collect()
    })
}

/// Larger animations: more than one byte of outdated flags, many keys, wide indices, many seek frames.
pub fn large_family(level: u8) -> Vec<(String, Anim)> {
    let mut v = Vec::new();
    let specs: &[(usize, usize, usize, [f32; 3])] = &[
        (4, 9, 2, [0.0, 0.5, 0.25]),
        (5, 7, 3, [0.25, 0.0, 1.0]),
        (31, 6, 3, [0.5, 0.5, 0.5]),
        (32, 6, 3, [0.25, 0.25, 0.0]),
        (33, 6, 3, [0.0, 0.25, 0.5]),
        (36, 8, 4, [0.2, 0.0, 0.2]),
        (64, 5, 3, [0.0, 0.5, 0.25]),
        (65, 5, 2, [1.0, 0.25, 0.0]),
        (70, 5, 2, [0.25, 0.5, 0.125]),
        (3, 253, 2, [0.1, 0.0, 0.25]),
        (3, 254, 2, [0.1, 0.25, 0.0]),
        (6, 300, 5, [0.05, 0.1, 0.0]),
    ];
    for (n, inner, step, iv) in specs {
        let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
        v.push((format!("{} tracks, {} times, intervals {:?}", n, inner + 2, iv), build(&times, &scattered(*n, *inner, *step), *iv)));
    }
    // More than 65535 keys in a channel: three-byte entries in the seek frames.
    if level >= 1 {
        let inner = 1800;
        let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
        let ins: [Vec<Vec<usize>>; 3] = std::array::from_fn(|c| {
            (0..40).map(|t| if c == 1 { (1..=inner).collect() } else { vec![1 + t * 3, 900 + t] }).collect()
        });
        let mut a = build(&times, &ins, [0.5, 0.25, 0.0]);
        for keys in a.chans[1].iter_mut() {
            for (i, k) in keys.iter_mut().enumerate() {
                k.v = encode_quat(qaxis([1.0, 0.3, 0.1 * (i % 7) as f64], 0.2 + 0.001 * (i % 1500) as f64));
            }
        }
        v.push(("40 tracks, 72k rotation keys".into(), a));
        for c in [0usize, 2] {
            let ins: [Vec<Vec<usize>>; 3] = std::array::from_fn(|d| (0..40).map(|t| if c == d { (1..=inner).collect() } else { vec![1 + t * 3, 900 + t] }).collect());
            v.push((format!("40 tracks, 72k keys in channel {}", c), build(&times, &ins, [0.25, 0.5, 0.125])));
        }
        // More seek frames, and more bytes of them, than 16 bits can count.
        {
            let inner = 40_000;
            let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
            let ins: [Vec<Vec<usize>>; 3] = std::array::from_fn(|c| (0..4).map(|t| (1..=inner).filter(|i| (i + t) % (900 + c * 700) == 0).collect()).collect());
            v.push(("4 tracks, 39k seek frames".into(), build(&times, &ins, [1.0 / 39_000.0; 3])));
        }
        // Many tracks; and up to as many times as a stored index can tell apart.
        for (n, inner, step, iv) in [(130usize, 6usize, 3usize, [0.25f32, 0.0, 0.5]), (260, 4, 2, [0.5, 0.25, 0.0]), (1024, 4, 3, [0.0, 0.5, 0.25])] {
            let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
            v.push((format!("{} tracks, {} times, intervals {:?}", n, inner + 2, iv), build(&times, &scattered(n, inner, step), iv)));
        }
        for inner in [65532usize, 65533, 65534] {
            let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
            let ins: [Vec<Vec<usize>>; 3] = std::array::from_fn(|c| (0..3).map(|t| (1..=inner).filter(|i| (i + t) % (3 + c * 700) == 0).collect()).collect());
            v.push((format!("3 tracks, {} times", inner + 2), build(&times, &ins, [0.25, 0.0, 0.5])));
        }
    }
    v
}

/// An animation of `n` tracks with a few interior keys and seek frames.
pub fn sample_anim(n: usize) -> Anim {
    let inner = 5;
    let times: Vec<f32> = (0..inner + 2).map(|i| i as f32 / (inner + 1) as f32).collect();
    build(&times, &scattered(n, inner, 3), [0.25, 0.5, 0.0])
}

// ---------------------------------------------------------------------------------------------------
// Running

pub fn sample_into(anim: &Animation, ctx: &mut SamplingContext, ratio: f32, out: &mut [SoaTransform]) -> Result<(), OzzError> {
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(anim);
    job.set_context(ctx);
    job.set_ratio(ratio);
    job.set_output(out);
    job.run()
}

pub fn sample_bits(anim: &Animation, ctx: &mut SamplingContext, ratio: f32, extra: usize) -> Result<Vec<u32>, String> {
    let n = anim.num_soa_tracks();
    let mut out = sentinel_pose(n + extra, 3);
    sample_into(anim, ctx, ratio, &mut out).map_err(|e| format!("sampling failed: {}", e))?;
    Ok(pose_bits(&out))
}

pub fn fresh_bits(anim: &Animation, ratio: f32, extra: usize) -> Result<Vec<u32>, String> {
    let mut ctx = SamplingContext::new(anim.num_tracks());
    sample_bits(anim, &mut ctx, ratio, extra)
}

/// Everything a context's future depends on, through its public getters (the animation identity is
/// mapped by the caller because it is address-like).
pub fn ctx_state(ctx: &SamplingContext, identity: u64) -> u64 {
    let mut h = Fnv::new();
    h.u64(identity).f32(ctx.ratio()).u64(ctx.max_tracks() as u64);
    for v in [ctx.translations(), ctx.scales()] {
        for i in v {
            for k in 0..2 {
                h.fs(i.ratio[k].as_array());
                h.fs(i.value[k].x.as_array()).fs(i.value[k].y.as_array()).fs(i.value[k].z.as_array());
            }
        }
    }
    for i in ctx.rotations() {
        for k in 0..2 {
            h.fs(i.ratio[k].as_array());
            h.fs(i.value[k].x.as_array()).fs(i.value[k].y.as_array());
            h.fs(i.value[k].z.as_array()).fs(i.value[k].w.as_array());
        }
    }
    for e in [ctx.translation_entries(), ctx.rotation_entries(), ctx.scale_entries()] {
        for x in e {
            h.u32(*x);
        }
    }
    for o in [ctx.translation_outdated(), ctx.rotation_outdated(), ctx.scale_outdated()] {
        h.bytes(o);
    }
    h.u64(ctx.translation_next() as u64).u64(ctx.rotation_next() as u64).u64(ctx.scale_next() as u64);
    h.get()
}

/// Ratios that matter for an animation: key times, both sides of each, seek-frame instants, out of range.
fn ratio_alphabet(a: &Anim, max: usize) -> Vec<f32> {
    let mut pts: Vec<f32> = vec![0.0, 1.0];
    let mut inner: Vec<f32> = a.times[1..a.times.len() - 1].to_vec();
    if inner.len() > 6 {
        let n = inner.len();
        inner = vec![inner[0], inner[n / 4], inner[n / 2], inner[n / 2 + 1], inner[3 * n / 4], inner[n - 1]];
    }
    for t in inner {
        pts.push(t);
        pts.push(f32::from_bits(t.to_bits() - 1));
        pts.push(t + 0.03);
    }
    pts.extend_from_slice(&[0.12, 0.38, 0.6, 0.95, -0.5, 1.5, f32::NAN]);
    let mut out: Vec<f32> = Vec::new();
    for p in pts {
        if p.is_nan() || !out.contains(&p) {
            out.push(p);
        }
    }
    out.truncate(max);
    out
}

/// Breadth-first search over all contexts reachable by sampling at ratios of the alphabet. Every
/// transition runs the real job and is compared with a brand-new context.
fn bfs_ratios(a: &Anim, ratios: &[f32], cap: usize, st: &mut Stats) -> Result<u64, String> {
    let anim = load_anim(a);
    let expect: Vec<Vec<u32>> = ratios.iter().map(|r| fresh_bits(&anim, *r, 1)).collect::<Result<_, _>>()?;
    let mut seen: HashMap<u64, ()> = HashMap::new();
    let mut queue: VecDeque<Vec<usize>> = VecDeque::new();
    queue.push_back(vec![]);
    let base = a as *const _ as u64 ^ hash_str(&format!("{:?}", a.chans)) ^ (a.interval[0].to_bits() as u64) << 7;
    let mut outcome = Fnv::new();
    while let Some(path) = queue.pop_front() {
        // Rebuild the state by its history: contexts are never copied, so no copying code is trusted.
        let rebuild = || -> Result<SamplingContext, String> {
            let mut ctx = SamplingContext::new(anim.num_tracks());
            for p in &path {
                sample_bits(&anim, &mut ctx, ratios[*p], 1)?;
            }
            Ok(ctx)
        };
        for (i, r) in ratios.iter().enumerate() {
            let mut ctx = rebuild()?;
            let got = sample_bits(&anim, &mut ctx, *r, 1)
                .map_err(|e| format!("after ratios {:?} then {}: {}", path.iter().map(|p| ratios[*p]).collect::<Vec<_>>(), r, e))?;
            st.transition();
            st.traces += 1;
            ensure!(
                got == expect[i],
                "pose at ratio {} after sampling {:?} differs from a fresh context's pose at index {:?}",
                r,
                path.iter().map(|p| ratios[*p]).collect::<Vec<_>>(),
                got.iter().zip(&expect[i]).position(|(x, y)| x != y)
            );
            let s = ctx_state(&ctx, 1);
            if seen.len() < cap && seen.insert(s, ()).is_none() {
                st.state(s ^ base);
                outcome.u64(s);
                let mut p = path.clone();
                p.push(i);
                queue.push_back(p);
            }
        }
    }
    Ok(outcome.get())
}

pub fn c01(ctx: &mut Ctx) {
    let th = ctx.wide();
    let cap = ctx.pick3(400, 3000, 20000);
    ctx.suite("all layouts, 1-3 tracks", |ctx| {
        let shapes = ctx.pick3(
            vec![(1, 3), (2, 2), (3, 1), (2, 3)],
            vec![(1, 3), (2, 3), (1, 4), (3, 2), (2, 4), (3, 3), (4, 2), (5, 1), (1, 5)],
            vec![(1, 3), (2, 3), (1, 4), (3, 2), (2, 4), (3, 3), (4, 2), (5, 1), (1, 5), (2, 5), (3, 4), (4, 3), (5, 2), (9, 1)],
        );
        for (tracks, inner) in shapes {
            for iv in INTERVALS {
                layouts(tracks, inner, |ins| {
                    let a = build(&grid(inner), ins, [iv, iv, iv]);
                    ctx.case(
                        || format!("{} tracks, interior keys {:?}, seek interval {}", tracks, ins, iv),
                        |st| bfs_ratios(&a, &ratio_alphabet(&a, if th { 14 } else { 9 }), cap, st),
                    );
                });
            }
        }
    });
    ctx.suite("mixed seek intervals per channel", |ctx| {
        tuples(INTERVALS.len(), 3, |d| {
            let iv = [INTERVALS[d[0]], INTERVALS[d[1]], INTERVALS[d[2]]];
            for (n, inner) in [(2usize, 3usize), (5, 4)] {
                let a = build(&grid(inner), &scattered(n, inner, 2), iv);
                ctx.case(
                    || format!("{} tracks, {} interior times, seek intervals {:?}", n, inner, iv),
                    |st| bfs_ratios(&a, &ratio_alphabet(&a, if th { 16 } else { 9 }), cap, st),
                );
            }
        });
    });
    // Every sequence of ratios, without merging states: nothing hidden in a context can be missed.
    ctx.suite("all sequences", |ctx| {
        let depth = ctx.pick3(2, 3, 4);
        for (tracks, inner) in ctx.pick3(vec![(2, 2)], vec![(1, 4), (2, 3), (3, 2)], vec![(1, 4), (2, 3), (3, 2), (5, 1)]) {
            for iv in INTERVALS {
                layouts(tracks, inner, |ins| {
                    let a = build(&grid(inner), ins, [iv, iv, iv]);
                    ctx.case(
                        || format!("{} tracks, interior keys {:?}, seek interval {}: sequences of {}", tracks, ins, iv, depth),
                        |st| {
                            let anim = load_anim(&a);
                            let ratios = ratio_alphabet(&a, 14);
                            let expect: Vec<Vec<u32>> = ratios.iter().map(|r| fresh_bits(&anim, *r, 1)).collect::<Result<_, _>>()?;
                            let mut bad = None;
                            tuples(ratios.len(), depth, |d| {
                                if bad.is_some() {
                                    return;
                                }
                                let mut c = SamplingContext::new(anim.num_tracks());
                                for (k, i) in d.iter().enumerate() {
                                    st.transition();
                                    match sample_bits(&anim, &mut c, ratios[*i], 1) {
                                        Ok(b) if b == expect[*i] => {}
                                        r => {
                                            bad = Some(format!("ratios {:?}: pose of step {} differs from a fresh context's ({:?})", d.iter().map(|i| ratios[*i]).collect::<Vec<_>>(), k, r.err()));
                                            return;
                                        }
                                    }
                                }
                                st.traces += 1;
                            });
                            bad.map_or(Ok(hash_bits(&expect[0])), Err)
                        },
                    );
                });
            }
        }
    });
    ctx.suite("large animations", |ctx| {
        for (name, a) in large_family(ctx.level) {
            let alpha = ratio_alphabet(&a, 99);
            // All pairs/triples among a wide alphabet: chains through every ratio.
            let big = a.num_tracks() > 8 || a.times.len() > 20;
            let deep = ctx.pick3(30, 120, 2000);
            for k in 0..4 {
                let sub: Vec<f32> = alpha.iter().enumerate().filter(|(i, _)| !big || i % 4 == k || *i < 2).map(|x| *x.1).collect();
                ctx.case(|| format!("{} alphabet part {}", name, k), |st| bfs_ratios(&a, &sub, if a.times.len() > 1000 || a.num_tracks() > 200 { 12 } else { deep }, st));
            }
        }
    });
    ctx.suite("dense playback forward, backward and strided", |ctx| {
        for (name, a) in large_family(ctx.level) {
            let huge = a.times.len() > 1000;
            for mode in 0..6usize {
                ctx.case(
                    || format!("{} mode {}", name, mode),
                    |st| {
                        let anim = load_anim(&a);
                        let n = if huge { 97 } else { 211i64 };
                        let seq: Vec<f32> = (0..2 * n)
                            .map(|i| {
                                let x = match mode {
                                    0 => i % n,
                                    1 => n - 1 - i % n,
                                    2 => (i * 53) % n,
                                    3 => (i * 2) % n,
                                    4 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
                                    _ => if i % 3 == 2 { (i * 31) % n } else { (i * 7 / 5) % n },
                                };
                                x as f32 / (n - 1) as f32
                            })
                            .collect();
                        let mut c = SamplingContext::new(anim.num_tracks());
                        let mut h = Fnv::new();
                        for (i, r) in seq.iter().enumerate() {
                            let got = sample_bits(&anim, &mut c, *r, 0)?;
                            let exp = fresh_bits(&anim, *r, 0)?;
                            st.transition();
                            st.state(ctx_state(&c, hash_str(&name)));
                            ensure!(got == exp, "step {} ratio {} (mode {}) differs from fresh context", i, r, mode);
                            h.u64(hash_bits(&got));
                        }
                        st.traces += 1;
                        Ok(h.get())
                    },
                );
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------
// C02

pub fn check_pose(a: &Anim, out: &[SoaTransform], ratio: f32) -> Result<(), String> {
    for t in 0..a.num_tracks() {
        for c in 0..3 {
            let exp = a.value(c, t, ratio);
            let got = lane(out, t, c);
            let keys = &a.chans[c][t];
            // Rounding is relative to the track's own values.
            let mut mag = if c == R { 1.0 } else { 1e-30f64 };
            let mut gap = 1.0f64;
            for w in keys.windows(2) {
                gap = gap.min((a.times[w[1].at] - a.times[w[0].at]) as f64);
                for k in w {
                    for v in k.v {
                        if c != R {
                            mag = mag.max(half_value(v).abs());
                        }
                    }
                }
            }
            let tol = mag * (4e-6 + 4e-7 / gap);
            for j in 0..if c == R { 4 } else { 3 } {
                ensure!(
                    (got[j] as f64 - exp[j]).abs() <= tol,
                    "track {} channel {} component {} at ratio {}: got {} expected {} (tolerance {:e})",
                    t,
                    ["translation", "rotation", "scale"][c],
                    j,
                    ratio,
                    got[j],
                    exp[j],
                    tol
                );
            }
        }
    }
    Ok(())
}

fn sample_checked(a: &Anim, anim: &Animation, ratios: &[f32], extra: usize, st: &mut Stats) -> Result<u64, String> {
    let mut h = Fnv::new();
    for r in ratios {
        let n = anim.num_soa_tracks();
        let sentinel = sentinel_pose(n + extra, 9);
        let mut out = sentinel.clone();
        let mut ctx = SamplingContext::new(anim.num_tracks());
        sample_into(anim, &mut ctx, *r, &mut out).map_err(|e| format!("sampling at {} failed: {}", r, e))?;
        st.evaluations += 1;
        tick();
        check_pose(a, &out, *r)?;
        ensure!(pose_bits(&out[n..]) == pose_bits(&sentinel[n..]), "output beyond the animation's tracks was modified at ratio {}", r);
        h.u64(hash_pose(&out));
        st.outcome(hash_pose(&out));
    }
    Ok(h.get())
}

fn dense(a: &Anim, steps: usize) -> Vec<f32> {
    let mut v: Vec<f32> = (0..=steps).map(|i| i as f32 / steps as f32).collect();
    for t in a.times.iter().take(40) {
        for d in [-1i32, 0, 1] {
            let b = t.to_bits() as i32 + d;
            if *t > 0.0 {
                v.push(f32::from_bits(b as u32));
            }
        }
    }
    // Next to the keys at every distance.
    for t in a.times.iter().take(9) {
        for d in [1e-6f32, 1e-5, 1e-4, 3e-4, 1e-3, 4e-3] {
            v.extend([t - d, t + d].into_iter().filter(|r| (0.0..=1.0).contains(r)));
        }
    }
    v.extend_from_slice(&[-1.0, -1e-9, 1.0000001, 2.0, 1e30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -0.0, 1e-40]);
    v
}

pub fn c02(ctx: &mut Ctx) {
    let th = ctx.wide();
    ctx.suite("all layouts", |ctx| {
        for (tracks, inner) in ctx.more(ctx.pick3(vec![(1, 4), (2, 3), (3, 2)], vec![(1, 4), (2, 3), (3, 3), (2, 4), (4, 2)], vec![(1, 4), (1, 6), (2, 3), (3, 3), (2, 4), (4, 2), (2, 5), (4, 3), (5, 2)]), vec![(1, 4), (1, 6), (1, 8), (2, 3), (3, 3), (2, 4), (4, 2), (2, 5), (4, 3), (5, 2), (2, 6), (3, 4), (6, 2), (9, 1)]) {
            for iv in INTERVALS {
                layouts(tracks, inner, |ins| {
                    let a = build(&grid(inner), ins, [iv, iv, iv]);
                    ctx.case(
                        || format!("{} tracks, interior keys {:?}, seek interval {}", tracks, ins, iv),
                        |st| {
                            let anim = load_anim(&a);
                            sample_checked(&a, &anim, &dense(&a, if th { 40 } else { 16 }), tracks % 3, st)
                        },
                    );
                });
            }
        }
    });
    ctx.suite("every track count", |ctx| {
        for n in 1..=ctx.more(ctx.pick3(72, 140, 300), 1024) {
            for (inner, iv) in [(3usize, [0.0f32, 0.25, 0.5]), (5, [0.5, 0.0, 0.25])] {
                let a = build(&grid(inner), &scattered(n, inner, 2), iv);
                ctx.case(
                    || format!("{} tracks, {} interior times, intervals {:?}", n, inner, iv),
                    |st| {
                        let anim = load_anim(&a);
                        ensure!(anim.num_tracks() == n, "num_tracks {} != {}", anim.num_tracks(), n);
                        ensure!(anim.num_soa_tracks() == n.div_ceil(4), "num_soa_tracks");
                        ensure!(anim.num_aligned_tracks() == n.div_ceil(4) * 4, "num_aligned_tracks");
                        sample_checked(&a, &anim, &dense(&a, 8), n % 3, st)
                    },
                );
            }
        }
    });
    ctx.suite("large animations", |ctx| {
        for (name, a) in large_family(ctx.level) {
            for part in 0..8usize {
                ctx.case(
                    || format!("{} ratios part {}", name, part),
                    |st| {
                        let anim = load_anim(&a);
                        let r: Vec<f32> = dense(&a, if a.times.len() > 1000 { 15 } else { 63 }).into_iter().enumerate().filter(|(i, _)| i % 8 == part).map(|x| x.1).collect();
                        sample_checked(&a, &anim, &r, 2, st)
                    },
                );
            }
        }
    });
    ctx.suite("key value alphabet", |ctx| {
        // Every pair of special half values and every (largest, sign) pair of rotations, in each lane.
        let halfs = [0u16, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x3c00, 0xbc00, 0x7bff, 0xfbff, 0x7bfe, 0x3555, 0xd640];
        for (i, x) in halfs.iter().enumerate() {
            for (j, y) in halfs.iter().enumerate() {
                for ln in 0..4usize {
                    let mut a = build(&[0.0, 0.5, 1.0], &std::array::from_fn(|_| vec![vec![]; 4]), [0.0; 3]);
                    for c in [T, S] {
                        a.chans[c][ln][0].v = [*x, halfs[(i + 1) % halfs.len()], *y];
                        a.chans[c][ln][1].v = [*y, *x, halfs[(j + 3) % halfs.len()]];
                    }
                    a.chans[R][ln][0].v = quat_key((i % 4) as u16, i % 8 >= 4, [20000, 9000 + 500 * j as u16, 16384]);
                    a.chans[R][ln][1].v = quat_key((i % 4) as u16, i % 8 >= 4, [18000, 12000, 17000 + 300 * j as u16]);
                    ctx.case(
                        || format!("keys {:#x} -> {:#x} in lane {}", x, y, ln),
                        |st| {
                            let anim = load_anim(&a);
                            sample_checked(&a, &anim, &[0.0, 0.25, 0.5, 0.75, 1.0], 0, st)
                        },
                    );
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------
// C03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sample(usize, f32),
    Clear,
    /// Replaces the animation in slot i by the next one of its list, at the same place in memory.
    Replace(usize),
    /// Moves the context through a job (set, take).
    Move,
}

fn reuse_anims() -> Vec<Anim> {
    vec![
        build(&grid(3), &scattered(1, 3, 2), [0.0; 3]),
        build(&grid(4), &scattered(5, 4, 2), [0.25, 0.0, 0.5]),
        build(&grid(6), &scattered(6, 6, 2), [0.0; 3]),
        build(&grid(5), &scattered(33, 5, 2), [0.5, 0.25, 0.0]),
        build(&grid(5), &scattered(40, 5, 3), [0.0, 0.0, 0.0]),
        build(&grid(2), &scattered(2, 2, 1), [1.0; 3]),
        build(&grid(7), &scattered(70, 7, 3), [0.25, 0.25, 0.25]),
    ]
}

pub fn c03(ctx: &mut Ctx) {
    let th = ctx.wide();
    let all = reuse_anims();
    ctx.suite("operation sequences over several animations", |ctx| {
        // Sets of slots; a slot holds a list of animations that replace each other in place.
        let sets: Vec<Vec<Vec<usize>>> = vec![
            vec![vec![0, 2], vec![1]],
            vec![vec![1, 2], vec![0]],
            vec![vec![3, 4], vec![1]],
            vec![vec![4], vec![5, 1]],
            vec![vec![3], vec![0], vec![2]],
            vec![vec![6], vec![3, 1]],
            vec![vec![6, 4], vec![5]],
        ];
        let ratios = if th { vec![0.1f32, 0.55, 0.3, 1.0] } else { vec![0.1f32, 0.55, 1.0] };
        let (depth, cap) = ctx.more(ctx.pick3((4, 250), (5, 1500), (5, 3000)), (7, 12000));
        for set in &sets {
            let need = set.iter().flatten().map(|i| all[*i].num_tracks()).max().unwrap();
            for capacity in [need, need + 3, need + 4, need + 31, need + 60, 200] {
                let mut ops = Vec::new();
                for s in 0..set.len() {
                    for r in &ratios {
                        ops.push(Op::Sample(s, *r));
                    }
                    if set[s].len() > 1 {
                        ops.push(Op::Replace(s));
                    }
                }
                ops.push(Op::Clear);
                ops.push(Op::Move);
                // The first operation is part of the case, so that the cases spread over the workers.
                for first in 0..ops.len() {
                    ctx.case(
                        || format!("slots {:?} capacity {} first op {:?}", set, capacity, ops[first]),
                        |st| c03_search(&all, set, capacity, &ops, first, depth, cap, st),
                    );
                }
            }
        }
    });
    ctx.suite("every capacity against every track count", |ctx| {
        let max = ctx.pick3(38, 44, 140);
        for n in 1..=max {
            for cap in [1usize, 2, 4, 5, 8, 9, 31, 32, 33, 36, 37, 40, 64, 65, 128] {
                let a = build(&grid(3), &scattered(n, 3, 2), [0.25, 0.0, 0.5]);
                ctx.case(
                    || format!("animation of {} tracks, context capacity {}", n, cap),
                    |st| {
                        let anim = load_anim(&a);
                        let mut c = SamplingContext::new(cap);
                        let fits = cap.div_ceil(4) >= n.div_ceil(4);
                        ensure!(c.max_soa_tracks() == cap.div_ceil(4) && c.max_tracks() == cap.div_ceil(4) * 4, "capacity getters");
                        for r in [0.3f32, 0.8, 0.1, 1.0, 0.0] {
                            let sent = sentinel_pose(anim.num_soa_tracks() + 1, 5);
                            let mut out = sent.clone();
                            let res = sample_into(&anim, &mut c, r, &mut out);
                            st.transition();
                            if fits {
                                ensure!(res.is_ok(), "rejected although it fits");
                                let mut exp = sent.clone();
                                sample_into(&anim, &mut SamplingContext::new(n), r, &mut exp).map_err(|e| e.to_string())?;
                                ensure!(pose_bits(&out) == pose_bits(&exp), "ratio {}: pose differs from a context of exact capacity", r);
                                check_pose(&a, &out, r)?;
                            } else {
                                ensure!(matches!(res, Err(OzzError::InvalidJob)), "too small context accepted: {:?}", res.is_ok());
                                ensure!(pose_bits(&out) == pose_bits(&sent), "output modified by a rejected job");
                            }
                        }
                        st.state(ctx_state(&c, n as u64));
                        st.traces += 1;
                        Ok((fits as u64).wrapping_add(ctx_state(&c, 0)))
                    },
                );
            }
        }
    });
    ctx.suite("animations that differ in one field", |ctx| {
        let bases = [
            build(&grid(5), &scattered(6, 5, 2), [0.25, 0.5, 0.0]),
            build(&grid(3), &scattered(4, 3, 1), [0.0; 3]),
            build(&grid(4), &scattered(33, 4, 2), [0.5, 0.25, 1.0]),
        ];
        for (bi, base) in bases.iter().enumerate() {
            for (what, var) in one_field_variants(base) {
                ctx.case(
                    || format!("base {} against the same with {}", bi, what),
                    |st| {
                        let (a, b) = (load_anim(base), load_anim(&var));
                        let cap = a.num_tracks().max(b.num_tracks());
                        let ratios: Vec<f32> = if th { vec![0.0, 0.12, 0.3, 0.45, 0.6, 0.77, 0.9, 1.0] } else { vec![0.12, 0.45, 0.77, 0.97] };
                        let mut h = Fnv::new();
                        for first in [&a, &b] {
                            let second = if std::ptr::eq(first, &a) { &b } else { &a };
                            for r0 in &ratios {
                                for r1 in &ratios {
                                    let mut c = SamplingContext::new(cap);
                                    for (i, (an, r)) in [(first, r0), (second, r1), (first, r1)].into_iter().enumerate() {
                                        let got = sample_bits(an, &mut c, *r, 0)?;
                                        st.transition();
                                        ensure!(got == fresh_bits(an, *r, 0)?, "{} then {}: run {} differs from a fresh context", r0, r1, i);
                                        h.u64(hash_bits(&got));
                                    }
                                    st.state(ctx_state(&c, 0));
                                }
                            }
                        }
                        st.traces += 1;
                        Ok(h.get())
                    },
                );
            }
        }
    });
    ctx.suite("context made for one animation, used with another", |ctx| {
        let ratios = [0.2f32, 0.9, 0.4];
        for i in 0..all.len() {
            for j in 0..all.len() {
                ctx.case(
                    || format!("context from animation {} serves {} then back", i, j),
                    |st| {
                        let (ai, aj) = (load_anim(&all[i]), load_anim(&all[j]));
                        let mut c = SamplingContext::from_animation(&ai);
                        let mut h = Fnv::new();
                        for (who, r) in [(0, 0.5f32), (1, ratios[0]), (0, ratios[1]), (1, ratios[2]), (1, 0.0), (0, 0.0)] {
                            let an = if who == 0 { &ai } else { &aj };
                            st.transition();
                            if who == 1 && aj.num_soa_tracks() > ai.num_soa_tracks() {
                                let sent = sentinel_pose(an.num_soa_tracks(), 1);
                                let mut out = sent.clone();
                                ensure!(matches!(sample_into(an, &mut c, r, &mut out), Err(OzzError::InvalidJob)), "too small accepted");
                                ensure!(pose_bits(&out) == pose_bits(&sent), "output modified");
                                continue;
                            }
                            let got = sample_bits(an, &mut c, r, 0)?;
                            ensure!(got == fresh_bits(an, r, 0)?, "step ({}, {}) differs from a fresh context", who, r);
                            h.u64(hash_bits(&got));
                        }
                        st.state(h.get());
                        st.traces += 1;
                        Ok(h.get())
                    },
                );
            }
        }
    });
}

/// Every animation that differs from `base` in one stored field.
pub fn one_field_variants(base: &Anim) -> Vec<(String, Anim)> {
    let mut v = Vec::new();
    for i in 1..base.times.len() - 1 {
        for f in [0.25f32, -0.25, 1e-6] {
            let mut a = base.clone();
            let gap = if f > 0.0 { a.times[i + 1] - a.times[i] } else { a.times[i] - a.times[i - 1] };
            a.times[i] += f * gap;
            v.push((format!("time {} moved by {}", i, f), a));
        }
    }
    let n = base.num_tracks();
    for c in 0..3 {
        for t in [0, 1, n / 2, n - 1] {
            for k in 0..base.chans[c][t].len() {
                for comp in 0..3 {
                    let mut a = base.clone();
                    a.chans[c][t][k].v[comp] ^= 8;
                    v.push((format!("channel {} track {} key {} component {} changed", c, t, k, comp), a));
                }
                let keys = &base.chans[c][t];
                if k > 0 && k + 1 < keys.len() {
                    for at in [keys[k].at - 1, keys[k].at + 1] {
                        if at > keys[k - 1].at && at < keys[k + 1].at {
                            let mut a = base.clone();
                            a.chans[c][t][k].at = at;
                            v.push((format!("channel {} track {} key {} at another time", c, t, k), a));
                        }
                    }
                    let mut a = base.clone();
                    a.chans[c][t].remove(k);
                    v.push((format!("channel {} track {} without key {}", c, t, k), a));
                }
            }
            if t + 1 < n {
                let mut a = base.clone();
                a.chans[c].swap(t, t + 1);
                v.push((format!("channel {} tracks {} and {} swapped", c, t, t + 1), a));
            }
        }
        for iv in [0.0f32, 0.125, 0.25, 1.0] {
            if iv != base.interval[c] {
                let mut a = base.clone();
                a.interval[c] = iv;
                v.push((format!("channel {} seek interval {}", c, iv), a));
            }
        }
    }
    let mut a = base.clone();
    a.chans.swap(0, 2);
    v.push(("translations and scales swapped".into(), a));
    for d in [1usize, 2] {
        if n > d {
            let mut a = base.clone();
            a.chans.iter_mut().for_each(|c| c.truncate(n - d));
            v.push((format!("{} tracks less", d), a));
        }
    }
    let mut a = base.clone();
    a.name = "other".into();
    v.push(("another name".into(), a));
    let mut a = base.clone();
    a.duration = 3.5;
    v.push(("another duration".into(), a));
    v
}

#[allow(clippy::too_many_arguments)]
fn c03_search(
    all: &[Anim],
    set: &[Vec<usize>],
    capacity: usize,
    ops: &[Op],
    first: usize,
    depth: usize,
    cap: usize,
    st: &mut Stats,
) -> Result<u64, String> {
    // expected[anim][ratio bits]
    let mut expected: HashMap<(usize, u32), Vec<u32>> = HashMap::new();
    for i in set.iter().flatten() {
        let an = load_anim(&all[*i]);
        for op in ops {
            if let Op::Sample(_, r) = op {
                expected.insert((*i, r.to_bits()), fresh_bits(&an, *r, 1)?);
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    let mut queue: VecDeque<Vec<usize>> = VecDeque::new();
    queue.push_back(vec![first]);
    let mut outcome = Fnv::new();
    while let Some(path) = queue.pop_front() {
        let mut slots: Vec<Box<Animation>> = set.iter().map(|l| Box::new(load_anim(&all[l[0]]))).collect();
        let mut which: Vec<usize> = vec![0; set.len()];
        let mut c = SamplingContext::new(capacity);
        let mut owner: u64 = 0;
        for (step, o) in path.iter().enumerate() {
            match ops[*o] {
                Op::Sample(s, r) => {
                    let i = set[s][which[s]];
                    let got = sample_bits(&slots[s], &mut c, r, 1).map_err(|e| describe(&path, ops, step, &e))?;
                    owner = 1 + i as u64;
                    if step + 1 == path.len() {
                        ensure!(
                            got == expected[&(i, r.to_bits())],
                            "{}",
                            describe(&path, ops, step, "pose differs from a dedicated fresh context")
                        );
                    }
                }
                Op::Clear => {
                    c.clear();
                    owner = 0;
                }
                Op::Replace(s) => {
                    which[s] = (which[s] + 1) % set[s].len();
                    *slots[s] = load_anim(&all[set[s][which[s]]]);
                }
                Op::Move => {
                    let mut job: SamplingJob<&Animation, Vec<SoaTransform>, SamplingContext> = SamplingJob::default();
                    job.set_context(c);
                    c = job.take_context().ok_or("context lost")?;
                    ensure!(job.context().is_none(), "context still in the job after taking it");
                }
            }
        }
        st.transition();
        st.traces += 1;
        let mut h = Fnv::new();
        h.u64(ctx_state(&c, owner));
        for w in &which {
            h.u64(*w as u64);
        }
        // The identity kept by the context may refer to a replaced animation: distinguish it.
        let live = slots.iter().position(|s| {
            let f = SamplingContext::from_animation(s);
            f.animation_id() == c.animation_id()
        });
        h.u64(live.map(|x| x as u64 + 1).unwrap_or(0)).u64((c.animation_id() == 0) as u64);
        let key = h.get();
        if seen.insert(key) {
            st.state(key ^ hash_str(&format!("{:?}{}", set, capacity)));
            outcome.u64(key);
            if path.len() < depth && seen.len() < cap {
                for o in 0..ops.len() {
                    let mut p = path.clone();
                    p.push(o);
                    queue.push_back(p);
                }
            }
        }
    }
    Ok(outcome.get())
}

fn describe(path: &[usize], ops: &[Op], step: usize, what: &str) -> String {
    format!("{} at step {} of {:?}", what, step, path.iter().map(|p| ops[*p]).collect::<Vec<_>>())
}

// ---------------------------------------------------------------------------------------------------
// C04

pub const MECHS: [&str; 9] = [
    "clone",
    "clone without animation id",
    "clone then clear",
    "rkyv",
    "rkyv checked",
    "json string",
    "json value",
    "json reader",
    "clone of clone",
];

pub fn to_rkyv<T>(v: &T) -> rkyv::AlignedVec
where
    T: rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<4096>>,
{
    use rkyv::ser::Serializer;
    let mut s = rkyv::ser::serializers::AllocSerializer::<4096>::default();
    s.serialize_value(v).unwrap();
    s.into_serializer().into_inner()
}

fn snapshot(c: &SamplingContext, mech: usize) -> Result<SamplingContext, String> {
    use rkyv::Deserialize;
    Ok(match mech {
        0 => c.clone(),
        1 => c.clone_without_animation_id(),
        2 => {
            let mut x = c.clone();
            x.clear();
            x
        }
        3 => {
            let b = to_rkyv(c);
            let a = unsafe { rkyv::archived_root::<SamplingContext>(&b) };
            a.deserialize(&mut rkyv::Infallible).unwrap()
        }
        4 => {
            let b = to_rkyv(c);
            let a = rkyv::check_archived_root::<SamplingContext>(&b).map_err(|e| format!("valid bytes rejected: {}", e))?;
            a.deserialize(&mut rkyv::Infallible).unwrap()
        }
        5 => serde_json::from_str(&serde_json::to_string(c).map_err(|e| e.to_string())?).map_err(|e| format!("json string: {}", e))?,
        6 => serde_json::from_value(serde_json::to_value(c).map_err(|e| e.to_string())?).map_err(|e| format!("json value: {}", e))?,
        7 => {
            let v = serde_json::to_vec(c).map_err(|e| e.to_string())?;
            serde_json::from_reader(std::io::Cursor::new(v)).map_err(|e| format!("json reader: {}", e))?
        }
        _ => c.clone().clone(),
    })
}

pub fn c04(ctx: &mut Ctx) {
    let th = ctx.wide();
    let anims: Vec<Anim> = vec![
        build(&grid(3), &scattered(1, 3, 2), [0.0; 3]),
        build(&grid(3), &scattered(2, 3, 1), [0.25, 0.5, 0.0]),
        build(&grid(4), &scattered(5, 4, 2), [0.0, 0.25, 1.0]),
        build(&grid(5), &scattered(33, 5, 2), [0.5, 0.0, 0.25]),
        build(&grid(5), &scattered(37, 5, 3), [0.0; 3]),
        build(&grid(5), &scattered(70, 5, 3), [0.25; 3]),
    ];
    let ratios: Vec<f32> = if th { vec![0.0, 0.2, 0.25, 0.6, 0.95, 1.0] } else { vec![0.0, 0.25, 0.6, 1.0] };
    ctx.suite("history, snapshot, continuation", |ctx| {
        for (ai, a) in anims.iter().enumerate() {
            for oversize in [0usize, 5, 40] {
                let maxlen = ctx.more(if th { 3 } else { 2 }, 4);
                for len in 0..=maxlen {
                    tuples(ratios.len(), len, |hist| {
                        ctx.case(
                            || format!("animation {} capacity +{} history {:?}", ai, oversize, hist.iter().map(|h| ratios[*h]).collect::<Vec<_>>()),
                            |st| c04_case(a, oversize, &hist.iter().map(|h| ratios[*h]).collect::<Vec<_>>(), &ratios, st),
                        );
                    });
                }
            }
        }
    });
    ctx.suite("fresh contexts", |ctx| {
        for n in 0..=if th { 140usize } else { 72 } {
            ctx.case(
                || format!("capacity {}", n),
                |st| {
                    // Dirty the allocator between the two, so that leftovers would show.
                    let a = SamplingContext::new(n);
                    let (ra, ja) = (to_rkyv(&a).to_vec(), serde_json::to_string(&a).map_err(|e| e.to_string())?);
                    let size = a.size();
                    drop(a);
                    let junk: Vec<Vec<u8>> = (0..4).map(|i| vec![0xA5 + i as u8; size]).collect();
                    drop(junk);
                    let b = SamplingContext::new(n);
                    let c = SamplingContext::new(n);
                    ensure!(b == c, "two fresh contexts of capacity {} differ", n);
                    let (rb, jb) = (to_rkyv(&b).to_vec(), serde_json::to_string(&b).map_err(|e| e.to_string())?);
                    ensure!(ra == rb, "binary form of fresh contexts differs");
                    ensure!(ja == jb, "text form of fresh contexts differs");
                    ensure!(b.clone() == b, "clone of fresh context differs");
                    ensure!(b.ratio() == 0.0 && b.animation_id() == 0, "fresh context not at its start");
                    st.transition();
                    st.traces += 1;
                    st.state(hash_str(&ja));
                    Ok(hash_str(&ja))
                },
            );
        }
    });
}

fn c04_case(a: &Anim, oversize: usize, hist: &[f32], ratios: &[f32], st: &mut Stats) -> Result<u64, String> {
    let anim = load_anim(a);
    let cap = a.num_tracks() + oversize;
    let replay = || -> Result<SamplingContext, String> {
        let mut c = SamplingContext::new(cap);
        for r in hist {
            sample_bits(&anim, &mut c, *r, 0)?;
        }
        Ok(c)
    };
    let c = replay()?;
    let c2 = replay()?;
    ensure!(c == c2, "same operations, different contexts");
    ensure!(ctx_state(&c, 0) == ctx_state(&c2, 0), "same operations, different observable state");
    let before = ctx_state(&c, 0);
    st.state(before ^ hash_str(&format!("{:?}{}", a.chans, oversize)));
    for (m, name) in MECHS.iter().enumerate() {
        let snap = snapshot(&c, m).map_err(|e| format!("{}: {}", name, e))?;
        ensure!(ctx_state(&c, 0) == before && c == c2, "{}: the original changed", name);
        ensure!(snap.max_tracks() == c.max_tracks() && snap.max_soa_tracks() == c.max_soa_tracks() && snap.size() == c.size(), "{}: capacity differs", name);
        match m {
            1 => {
                ensure!(snap.animation_id() == 0, "animation id kept");
                ensure!(snap.ratio().to_bits() == c.ratio().to_bits(), "{}: ratio lost", name);
            }
            2 => ensure!(snap.animation_id() == 0 && snap.ratio() == 0.0, "clear did not reset"),
            _ => {
                ensure!(snap == c, "{}: copy does not compare equal", name);
                ensure!(c == snap, "{}: comparison is not symmetric", name);
                ensure!(ctx_state(&snap, 0) == before, "{}: copy differs in observable state", name);
                ensure!(snap.animation_id() == c.animation_id(), "{}: animation id lost", name);
            }
        }
        // Continue the copy with every pair of ratios; each must equal a fresh context's pose.
        for r in ratios {
            let mut s = snapshot(&c, m)?;
            for r2 in [*r, ratios[(ratios.iter().position(|x| x == r).unwrap() + 2) % ratios.len()]] {
                let got = sample_bits(&anim, &mut s, r2, 0).map_err(|e| format!("{} then ratio {}: {}", name, r2, e))?;
                st.transition();
                ensure!(got == fresh_bits(&anim, r2, 0)?, "{} then ratios up to {}: pose differs", name, r2);
            }
            // And the same observable state as the original continued the same way.
            if !(1..=2).contains(&m) {
                let mut o = replay()?;
                sample_bits(&anim, &mut o, *r, 0)?;
                let mut s = snapshot(&c, m)?;
                sample_bits(&anim, &mut s, *r, 0)?;
                ensure!(o == s, "{} then ratio {}: contexts diverge", name, r);
            }
            st.traces += 1;
        }
        // Divergence of the copy must not disturb the original.
        ensure!(ctx_state(&c, 0) == before, "{}: using the copy changed the original", name);
    }
    // Contexts that differ in an observable part never compare equal.
    let mut other = replay()?;
    sample_bits(&anim, &mut other, 0.37, 0)?;
    ensure!(other != c, "contexts at different ratios compare equal");
    Ok(before)
}
