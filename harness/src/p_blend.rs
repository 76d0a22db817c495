//! C11: pose blending; C17: root-motion blending.

use crate::assets::*;
use crate::core::*;
use crate::util::*;
use glam::{Quat, Vec3, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;

/// One layer: pose number, weight, joint-weight pattern (0 = no joint weights).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lay {
    pub pose: usize,
    pub w: f32,
    pub jw: usize,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize,
    pub threshold: f32,
    pub layers: Vec<Lay>,
    pub add: Vec<Lay>,
}

pub fn pose_joint(k: usize, j: usize) -> Xf {
    let j = j % 59; // bounded magnitudes
    match k {
        // Barely moved, not moved at all, turned almost all the way round.
        5 => return Xf { t: [1e-3 * (j % 5) as f32, 2e-3, -5e-4], r: quat_axis([0.4, -1.0, 0.2 * (j % 3) as f64], 3e-3), s: [1.0005, 0.9995, 1.001] },
        6 => return Xf { t: [0.0; 3], r: [0.0, 0.0, 0.0, 1.0], s: [1.0; 3] },
        7 => return Xf { t: [100.0, -50.0, 0.125 * j as f32], r: quat_axis([1.0, 0.1 * (j % 4) as f64, 0.5], 3.13), s: [-1.0, 0.25, 4.0] },
        _ => {}
    }
    let a = 0.35 + 0.55 * ((k * 3 + j) % 5) as f64;
    let axis = [[1.0, 0.2, -0.3], [0.9, 0.5, 0.1], [0.7, -0.4, 0.6], [1.0, 1.0, 0.2]][(k + j) % 4];
    let mut r = quat_axis(axis, a);
    if (k * 5 + j) % 3 == 1 {
        r = r.map(|x| -x); // same rotation, other side
    }
    Xf {
        t: [k as f32 - 0.5 * j as f32, 2.0 + j as f32, -1.25 * k as f32],
        r,
        s: [1.0 + 0.25 * k as f32, 0.5 + 0.125 * j as f32, 2.0 - 0.25 * ((k + j) % 3) as f32],
    }
}

pub fn rest_joint(j: usize) -> Xf {
    let j = j % 61;
    Xf { t: [10.0 + j as f32, -3.0, 0.5], r: quat_axis([0.3, 1.0, -0.2], 0.4 + 0.3 * (j % 4) as f64), s: [1.5, 1.0, 0.75 + 0.05 * (j % 5) as f32] }
}

pub fn pose(k: usize, n: usize) -> Vec<Xf> {
    (0..n).map(|j| pose_joint(k, j)).collect()
}

/// Joint weight of pattern `p` (p > 0).
pub fn jw(p: usize, j: usize) -> f32 {
    match p {
        1 => 1.0,
        2 => [0.0, 0.5, 1.0, 0.25, 0.75][j % 5],
        3 => [-1.0, 2.0, 0.0, 0.3, 1.0, -0.0][(j + 1) % 6],
        4 => 0.0,
        7 => [0.9995, 1.0, 1.0005, 5e-4, 1.0][j % 5],
        _ => [0.02, 0.0, 1.0][j % 3],
    }
}

pub fn jws(p: usize, soa: usize) -> Vec<Vec4> {
    if p == 0 {
        vec![]
    } else {
        (0..soa).map(|g| Vec4::new(jw(p, g * 4), jw(p, g * 4 + 1), jw(p, g * 4 + 2), jw(p, g * 4 + 3))).collect()
    }
}

pub fn blend_skel(n: usize) -> Skel {
    let mut s = Skel::of(&(0..n).map(|i| i as i16 - 1).collect::<Vec<_>>());
    s.rest = (0..n).map(rest_joint).collect();
    s
}

/// Reference: per joint, in f64. None for a channel means the sum has no usable direction.
fn reference(c: &Cfg, j: usize) -> (V, Option<Q>, V) {
    let (mut t, mut r, mut s) = ([0.0; 3], [0.0; 4], [0.0; 3]);
    let mut aw = 0.0f64;
    let mut ambiguous = false;
    let mut acc = |x: Xf, w: f64, r: &mut Q| {
        t = vadd(t, vmul(v64(x.t), w));
        s = vadd(s, vmul(v64(x.s), w));
        let q = q64(x.r);
        let d = qdot(*r, q);
        let l = qdot(*r, *r).sqrt();
        if l > 0.0 && d.abs() < 1e-4 * l.max(1e-3 * c.threshold.min(1.0) as f64) && w > 0.0 {
            ambiguous = true;
        }
        let sg = if d < 0.0 { -1.0 } else { 1.0 };
        for i in 0..4 {
            r[i] += q[i] * w * sg;
        }
    };
    for l in &c.layers {
        if l.w > 0.0 {
            let w = l.w as f64 * if l.jw == 0 { 1.0 } else { (jw(l.jw, j) as f64).max(0.0) };
            acc(pose_joint(l.pose, j), w, &mut r);
            aw += w;
        }
    }
    let bp = (c.threshold as f64 - aw).max(0.0);
    if bp > 0.0 {
        acc(rest_joint(j), bp, &mut r);
        aw += bp;
    }
    if qdot(r, r).sqrt() < 1e-3 * aw {
        ambiguous = true;
    }
    let mut t = vmul(t, 1.0 / aw);
    let mut s = vmul(s, 1.0 / aw);
    let mut r = qnorm(r);
    for l in &c.add {
        let x = pose_joint(l.pose, j);
        let w = l.w.abs() as f64 * if l.jw == 0 { 1.0 } else { (jw(l.jw, j) as f64).max(0.0) };
        let sg = if l.w > 0.0 { 1.0 } else if l.w < 0.0 { -1.0 } else { continue };
        t = vadd(t, vmul(v64(x.t), w * sg));
        let mut q = q64(x.r);
        if q[3] < 0.0 {
            q = q.map(|v| -v);
        }
        let i = qnorm([q[0] * w, q[1] * w, q[2] * w, (q[3] - 1.0) * w + 1.0]);
        r = qmul(r, if sg > 0.0 { i } else { qconj(i) });
        for k in 0..3 {
            let f = 1.0 - w + x.s[k] as f64 * w;
            s[k] = if sg > 0.0 { s[k] * f } else { s[k] / f };
        }
    }
    (t, if ambiguous { None } else { Some(r) }, s)
}

/// Smallest scale divisor met by subtractive layers (ill-conditioned cases are not compared).
fn conditioned(c: &Cfg, j: usize) -> bool {
    c.add.iter().all(|l| {
        let w = l.w.abs() * if l.jw == 0 { 1.0 } else { jw(l.jw, j).max(0.0) };
        let x = pose_joint(l.pose, j);
        (0..3).all(|k| (1.0 - w + x.s[k] * w).abs() > 0.05)
    })
}

pub struct Inputs {
    pub skel: Skeleton,
    pub poses: Vec<Vec<SoaTransform>>,
}

pub fn inputs(n: usize, extra: usize) -> Inputs {
    let soa = n.div_ceil(4);
    Inputs { skel: load_skel(&blend_skel(n)), poses: (0..8).map(|k| soa_pose(&pose(k, soa * 4 + extra * 4), soa + extra)).collect() }
}

type Job<'a> = BlendingJob<&'a Skeleton, &'a [SoaTransform], &'a mut [SoaTransform]>;

pub fn layers<'a>(inp: &'a Inputs, l: &[Lay], extra: usize) -> Vec<BlendingLayer<&'a [SoaTransform]>> {
    let soa = inp.skel.num_soa_joints();
    l.iter()
        .map(|l| BlendingLayer { transform: &inp.poses[l.pose][..], weight: l.w, joint_weights: if l.jw == 0 { vec![] } else { jws(l.jw, soa + extra) } })
        .collect()
}

fn run_fresh(inp: &Inputs, c: &Cfg, ctx: Option<BlendingContext>, out: &mut [SoaTransform]) -> Result<Option<BlendingContext>, String> {
    let mut job: Job = BlendingJob::default();
    job.set_skeleton(&inp.skel);
    job.set_threshold(c.threshold);
    *job.layers_mut() = layers(inp, &c.layers, 0);
    *job.additive_layers_mut() = layers(inp, &c.add, 0);
    if let Some(x) = ctx {
        job.set_context(x);
    }
    job.set_output(out);
    ensure!(job.validate(), "valid job refused");
    job.run().map_err(|e| format!("run failed: {:?}", e))?;
    Ok(job.take_context())
}

fn check_cfg(inp: &Inputs, c: &Cfg) -> Result<u64, String> {
    let soa = c.n.div_ceil(4);
    let mut out = sentinel_pose(soa + 1, 3);
    let before = pose_bits(&out[soa..]);
    run_fresh(inp, c, None, &mut out)?;
    ensure!(pose_bits(&out[soa..]) == before, "output beyond the rest pose was written");
    let mut h = Fnv::new();
    for j in 0..c.n {
        let (t, r, s) = reference(c, j);
        let g = get_xf(&out, j);
        for k in 0..3 {
            ensure!(close(g.t[k], t[k], 2e-5), "joint {}: translation {:?} expected {:?} ({:?})", j, g.t, t, c);
            ensure!(!conditioned(c, j) || close(g.s[k], s[k], 1e-4), "joint {}: scale {:?} expected {:?} ({:?})", j, g.s, s, c);
        }
        let q = q64(g.r);
        ensure!((qdot(q, q) - 1.0).abs() < 2e-5, "joint {}: rotation {:?} is not normalised ({:?})", j, g.r, c);
        if let Some(r) = r {
            for k in 0..4 {
                ensure!(close(g.r[k], r[k], 5e-5), "joint {}: rotation {:?} expected {:?} ({:?})", j, g.r, r, c);
            }
        }
        h.fs(&g.t).fs(&g.r).fs(&g.s);
    }
    Ok(h.get())
}

const WS: [f32; 6] = [0.0, -0.5, 0.3, 1.0, 2.0, 0.04];
const AWS: [f32; 5] = [0.5, -0.5, 0.0, 1.0, -1.25];

fn layer_options(jwn: usize) -> Vec<(f32, usize)> {
    WS.iter().flat_map(|w| (0..jwn).map(move |p| (*w, p))).collect()
}

fn ctx_start(k: usize) -> usize {
    if k <= 40 { 36 } else { 9 }
}

pub fn c11(ctx: &mut Ctx) {
    let th = ctx.wide();
    let jwn = ctx.pick(5, 6);
    let opts = layer_options(jwn);
    let add_opts: Vec<(f32, usize)> = AWS.iter().flat_map(|w| (0..jwn).map(move |p| (*w, p))).collect();
    let mut adds: Vec<Vec<Lay>> = vec![vec![]];
    for (k, (w, p)) in add_opts.iter().enumerate() {
        adds.push(vec![Lay { pose: 3 + k % 2, w: *w, jw: *p }]);
    }
    for (w, p) in &add_opts {
        for (w2, p2) in &add_opts {
            if th || (*p < 3 && *p2 < 3) {
                adds.push(vec![Lay { pose: 3, w: *w, jw: *p }, Lay { pose: 4, w: *w2, jw: *p2 }]);
            }
        }
    }
    let thresholds = [0.1f32, 1.0, 0.5, 1e-3, 3.0];

    ctx.suite("normal-and-additive", |ctx| {
        for (ti, &threshold) in thresholds.iter().enumerate() {
            for k in 0..=2usize {
                tuples(opts.len(), k, |d| {
                    let ls: Vec<Lay> = d.iter().enumerate().map(|(i, o)| Lay { pose: i, w: opts[*o].0, jw: opts[*o].1 }).collect();
                    ctx.case(
                        || format!("threshold {}, layers {:?}, every additive combination", threshold, ls),
                        |st| {
                            let n = 5;
                            let inp = inputs(n, 0);
                            let mut h = 0;
                            for (ai, a) in adds.iter().enumerate() {
                                if !th && k == 2 && a.len() == 2 && (ai + ti) % 8 != 0 {
                                    continue;
                                }
                                h ^= check_cfg(&inp, &Cfg { n, threshold, layers: ls.clone(), add: a.clone() })?.rotate_left(ai as u32 % 64);
                                st.transition();
                            }
                            Ok(h)
                        },
                    );
                });
            }
        }
    });
    ctx.suite("three-and-four-layers", |ctx| {
        let o3: Vec<(f32, usize)> = opts.iter().copied().filter(|o| th || (o.1 < 4 && o.0 < 2.0)).collect();
        for k in 3..=ctx.more(ctx.pick(3, 4), 5) {
            let o: Vec<(f32, usize)> = match k {
                3 => o3.clone(),
                4 => o3.iter().copied().filter(|o| ctx.deep() || (o.1 < 4 && o.0 != 2.0)).collect(),
                _ => o3.iter().copied().filter(|o| o.1 < 3 && o.0 != 2.0).collect(),
            };
            tuples(o.len(), k - 1, |d| {
                let head: Vec<Lay> = d.iter().enumerate().map(|(i, x)| Lay { pose: i, w: o[*x].0, jw: o[*x].1 }).collect();
                ctx.case(
                    || format!("layers starting {:?}, every last layer and threshold", head),
                    |st| {
                        let n = 6;
                        let inp = inputs(n, 0);
                        let mut h = 0u64;
                        for last in &o {
                            for t in [0.1f32, 1.0] {
                                let mut l = head.clone();
                                // The same pose may appear twice.
                                l.push(Lay { pose: if last.1 == 2 { 0 } else { k - 1 }, w: last.0, jw: last.1 });
                                h = h.rotate_left(5) ^ check_cfg(&inp, &Cfg { n, threshold: t, layers: l, add: vec![] })?;
                                st.transition();
                            }
                        }
                        Ok(h)
                    },
                );
            });
        }
    });
    // Only the proportions of the weights and of the threshold matter, not their size.
    ctx.suite("scaled-weights", |ctx| {
        for e in [-60i32, -40, -30, -24, -16, -8, 8, 16, 30, 60] {
            tuples(opts.len(), 2, |d| {
                let ls: Vec<Lay> = d.iter().enumerate().map(|(i, o)| Lay { pose: i, w: opts[*o].0 * 2f32.powi(e), jw: opts[*o].1 }).collect();
                ctx.case(
                    || format!("layers {:?}, thresholds of the same size", ls),
                    |st| {
                        let inp = inputs(5, 0);
                        let mut h = 0;
                        for t in [0.1f32, 1.0] {
                            h ^= check_cfg(&inp, &Cfg { n: 5, threshold: t * 2f32.powi(e), layers: ls.clone(), add: vec![] })?;
                            st.transition();
                        }
                        Ok(h)
                    },
                );
            });
        }
    });
    // Weights next to none and next to all, for layers, joints and the rest pose.
    ctx.suite("nearly-one", |ctx| {
        let ws = [1.0f32, 0.9995, 1.0005, 5e-4, 0.5];
        let o: Vec<(f32, usize)> = ws.iter().flat_map(|w| [(*w, 0), (*w, 7)]).collect();
        for k in 1..=2usize {
            tuples(o.len(), k, |d| {
                let ls: Vec<Lay> = d.iter().enumerate().map(|(i, x)| Lay { pose: i, w: o[*x].0, jw: o[*x].1 }).collect();
                ctx.case(
                    || format!("layers {:?}, every threshold and additive layer", ls),
                    |st| {
                        let inp = inputs(6, 0);
                        let mut h = 0u64;
                        for threshold in [0.1f32, 0.9995, 1.0, 1.0005, 2.0] {
                            for a in std::iter::once(None).chain(o.iter().flat_map(|x| [Some((x.0, x.1)), Some((-x.0, x.1))])) {
                                let add = a.map(|(w, jw)| Lay { pose: 3, w, jw }).into_iter().collect();
                                h = h.rotate_left(1) ^ check_cfg(&inp, &Cfg { n: 6, threshold, layers: ls.clone(), add })?;
                                st.transition();
                            }
                        }
                        Ok(h)
                    },
                );
            });
        }
    });
    // Poses next to the identity, the identity itself and nearly half turns, in every role.
    ctx.suite("special-poses", |ctx| {
        let ls: Vec<(usize, f32)> = [0usize, 5, 6, 7].into_iter().flat_map(|p| [(p, 1.0), (p, 0.3)]).collect();
        for k in 0..=2usize {
            tuples(ls.len(), k, |d| {
                let layers: Vec<Lay> = d.iter().map(|x| Lay { pose: ls[*x].0, w: ls[*x].1, jw: 0 }).collect();
                ctx.case(
                    || format!("layers {:?}, every special pose added and removed", layers),
                    |st| {
                        let inp = inputs(6, 0);
                        let mut h = 0u64;
                        for threshold in [0.1f32, 1.0] {
                            for p in [0usize, 5, 6, 7] {
                                for q in [0usize, 5, 6, 7] {
                                    for (w, v) in [(0.5f32, 0.0f32), (-0.5, 0.0), (1.0, -1.0), (-1.0, 0.25), (1.0, 1.0), (0.01, -0.01)] {
                                        for jw in [0usize, 2] {
                                            let add = vec![Lay { pose: p, w, jw }, Lay { pose: q, w: v, jw: 0 }];
                                            h = h.rotate_left(1) ^ check_cfg(&inp, &Cfg { n: 6, threshold, layers: layers.clone(), add })?;
                                            st.transition();
                                        }
                                    }
                                }
                            }
                        }
                        Ok(h)
                    },
                );
            });
        }
    });
    // Translations and (without additive layers) scales are proportional to the inputs', bit for bit for powers of two.
    ctx.suite("magnitudes", |ctx| {
        for k in 1..=2usize {
            tuples(opts.len(), k, |d| {
                let ls: Vec<Lay> = d.iter().enumerate().map(|(i, o)| Lay { pose: i, w: opts[*o].0, jw: opts[*o].1 }).collect();
                ctx.case(
                    || format!("layers {:?}: every magnitude and sign of translations and scales", ls),
                    |st| {
                        let n = 6;
                        let mut h = Fnv::new();
                        for add in [vec![], vec![Lay { pose: 3, w: 0.5, jw: 2 }], vec![Lay { pose: 4, w: -0.75, jw: 0 }]] {
                            let cfg = Cfg { n, threshold: 0.5, layers: ls.clone(), add };
                            let mut want = sentinel_pose(2, 3);
                            run_fresh(&inputs(n, 0), &cfg, None, &mut want)?;
                            for f in [2f32.powi(-40), 2f32.powi(-20), 2f32.powi(-10), -1.0, 2f32.powi(10), -(2f32.powi(20)), 2f32.powi(40)] {
                                let fs = if cfg.add.is_empty() { f } else { 1.0 };
                                let by = |x: Xf| Xf { t: x.t.map(|v| v * f), s: x.s.map(|v| v * fs), ..x };
                                let mut sk = blend_skel(n);
                                sk.rest = (0..n).map(|j| by(rest_joint(j))).collect();
                                let inp = Inputs { skel: load_skel(&sk), poses: (0..5).map(|k| soa_pose(&pose(k, 8).into_iter().map(by).collect::<Vec<_>>(), 2)).collect() };
                                let mut out = sentinel_pose(2, 3);
                                run_fresh(&inp, &cfg, None, &mut out)?;
                                for j in 0..n {
                                    let (a, b) = (by(get_xf(&want, j)), get_xf(&out, j));
                                    let same = |x: &[f32], y: &[f32]| x.iter().zip(y).all(|(x, y)| x == y);
                                    ensure!(same(&a.t, &b.t) && same(&a.s, &b.s) && same(&a.r, &b.r), "everything {} times as large: joint {} is {:?} expected {:?} ({:?})", f, j, b, a, cfg);
                                }
                                st.transition();
                            }
                            h.u64(hash_bits(&pose_bits(&want)));
                        }
                        Ok(h.get())
                    },
                );
            });
        }
    });
    ctx.suite("joint-counts", |ctx| {
        for n in 0..=ctx.more(ctx.pick(40, 130), 600) {
            for (o, (w, p)) in opts.iter().enumerate() {
                ctx.case(
                    || format!("{} joints, layer weight {} pattern {}", n, w, p),
                    |st| {
                        let mut h = 0;
                        for extra in 0..2 {
                            let inp = inputs(n, extra);
                            for (ai, a) in adds.iter().enumerate().filter(|(i, _)| *i < 12) {
                                let second = opts[(o * 7 + ai) % opts.len()];
                                let ls = vec![Lay { pose: 0, w: *w, jw: *p }, Lay { pose: 1, w: second.0, jw: second.1 }];
                                h ^= check_cfg(&inp, &Cfg { n, threshold: 0.5, layers: ls, add: a.clone() })?;
                                st.transition();
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    // Large skeletons and many layers.
    ctx.suite("sizes", |ctx| {
        let ns: Vec<usize> = ctx.pick3(vec![255, 256, 257, 1024], vec![131, 255, 256, 257, 511, 512, 513, 1021, 1022, 1023, 1024], (131..=1024).step_by(3).chain([1024]).collect());
        for n in ns {
            for (o, (w, p)) in opts.iter().enumerate() {
                if !th && o % 3 != 0 {
                    continue;
                }
                ctx.case(
                    || format!("{} joints, layer weight {} pattern {}", n, w, p),
                    |st| {
                        let inp = inputs(n, 0);
                        let mut h = 0;
                        for (ai, a) in adds.iter().enumerate().filter(|(i, _)| *i < 6) {
                            let second = opts[(o * 7 + ai) % opts.len()];
                            let ls = vec![Lay { pose: 0, w: *w, jw: *p }, Lay { pose: 1, w: second.0, jw: second.1 }];
                            h ^= check_cfg(&inp, &Cfg { n, threshold: 0.5, layers: ls, add: a.clone() })?;
                            st.transition();
                        }
                        Ok(h)
                    },
                );
            }
        }
        let max = ctx.pick3(40usize, 140, 300);
        for k in 0..=max {
            for na in [0usize, 1, 5, k.min(20)] {
                ctx.case(
                    || format!("{} layers, {} additive layers, every starting option", k, na),
                    |st| {
                        let n = 5;
                        let inp = inputs(n, 0);
                        let mut h = 0u64;
                        for start in 0..ctx_start(k) {
                            let ls: Vec<Lay> = (0..k).map(|i| { let o = opts[(start + i * 5 + i / 6) % opts.len()]; Lay { pose: (i + i / 5) % 5, w: o.0, jw: o.1 } }).collect();
                            let add: Vec<Lay> = (0..na).map(|i| { let o = add_opts[(start + i * 7) % add_opts.len()]; Lay { pose: 3 + i % 2, w: o.0 * 0.1, jw: o.1 } }).collect();
                            h = h.rotate_left(3) ^ check_cfg(&inp, &Cfg { n, threshold: 0.7, layers: ls, add })?;
                            st.transition();
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    // What a job or context blended before, what the output held before: no influence, bit for bit.
    ctx.suite("histories", |ctx| {
        let mut cfgs: Vec<Cfg> = Vec::new();
        for (i, o) in opts.iter().enumerate() {
            for t in [0.1f32, 1.0] {
                cfgs.push(Cfg { n: 5, threshold: t, layers: vec![Lay { pose: 0, w: o.0, jw: o.1 }], add: vec![] });
                cfgs.push(Cfg {
                    n: if i % 2 == 0 { 3 } else { 9 },
                    threshold: t,
                    layers: vec![Lay { pose: 1, w: o.0, jw: o.1 }, Lay { pose: 2, w: 0.3, jw: (o.1 + 2) % 5 }],
                    add: vec![Lay { pose: 3, w: -0.5, jw: o.1 }],
                });
            }
        }
        cfgs.push(Cfg { n: 5, threshold: 0.1, layers: vec![], add: vec![] });
        cfgs.push(Cfg { n: 8, threshold: 0.1, layers: vec![], add: vec![Lay { pose: 4, w: 0.5, jw: 0 }] });
        cfgs.push(Cfg { n: 1, threshold: 0.1, layers: vec![], add: vec![] });
        let sizes = [1usize, 3, 5, 8, 9];
        let cfgs2 = cfgs.clone();
        for a in cfgs.iter() {
            ctx.case(
                || format!("after {:?}: every next blend, through the same job and through the same context", a),
                |st| {
                    let inps: Vec<Inputs> = sizes.iter().map(|n| inputs(*n, 0)).collect();
                    let inp = |c: &Cfg| &inps[sizes.iter().position(|s| *s == c.n).unwrap()];
                    let mut h = 0;
                    for b in &cfgs2 {
                        let soa = b.n.div_ceil(4);
                        let mut want = sentinel_pose(soa, 1);
                        run_fresh(inp(b), b, None, &mut want)?;
                        let want = pose_bits(&want);
                        // Same context.
                        let mut tmp = sentinel_pose(a.n.div_ceil(4), 7);
                        let cx = run_fresh(inp(a), a, None, &mut tmp)?;
                        let mut got = sentinel_pose(soa, 9);
                        run_fresh(inp(b), b, cx, &mut got)?;
                        ensure!(pose_bits(&got) == want, "reused context: blending {:?} gives another pose", b);
                        // Same job, output of the first blend left in the same buffer.
                        let big = soa.max(a.n.div_ceil(4));
                        let mut job: BlendingJob<&Skeleton, &[SoaTransform], Vec<SoaTransform>> = BlendingJob::default();
                        job.set_output(sentinel_pose(big, 5));
                        for c in [a, b] {
                            job.set_skeleton(&inp(c).skel);
                            job.set_threshold(c.threshold);
                            *job.layers_mut() = layers(inp(c), &c.layers, 0);
                            *job.additive_layers_mut() = layers(inp(c), &c.add, 0);
                            job.run().map_err(|e| format!("{:?}", e))?;
                        }
                        ensure!(pose_bits(&job.output().unwrap()[..soa]) == want, "reused job: blending {:?} gives another pose", b);
                        // Context sized in advance.
                        for pre in [0, 1, soa, soa + 3] {
                            let mut got = sentinel_pose(soa, 2);
                            run_fresh(inp(b), b, Some(BlendingContext::new(pre)), &mut got)?;
                            ensure!(pose_bits(&got) == want, "context of size {}: blending {:?} gives another pose", pre, b);
                        }
                        h ^= hash_bits(&want);
                        st.transition();
                    }
                    Ok(h)
                },
            );
        }
    });
    // A layer without weight is as good as absent, wherever it stands.
    ctx.suite("null-layers", |ctx| {
        for (w1, p1) in &opts {
            for ((w2, p2), hold) in opts.iter().flat_map(|o| [(o, 0), (o, 1)]) {
                ctx.case(
                    || format!("layers ({}, {}) and ({}, {}) with weightless layers inserted, holding {}", w1, p1, w2, p2, ["a pose", "no numbers"][hold]),
                    |_| {
                        let mut inp = inputs(5, 0);
                        if hold == 1 {
                            inp.poses[4].iter_mut().for_each(|x| *x = SoaTransform::new(SoaVec3::splat(f32::INFINITY), SoaQuat::splat(f32::NAN), SoaVec3::splat(f32::NAN)));
                        }
                        let base = Cfg { n: 5, threshold: 0.4, layers: vec![Lay { pose: 0, w: *w1, jw: *p1 }, Lay { pose: 1, w: *w2, jw: *p2 }], add: vec![Lay { pose: 2, w: 0.3, jw: 2 }] };
                        let run = |c: &Cfg| -> Result<Vec<u32>, String> {
                            let mut o = sentinel_pose(2, 1);
                            run_fresh(&inp, c, None, &mut o)?;
                            Ok(pose_bits(&o))
                        };
                        let want = run(&base)?;
                        for at in 0..3 {
                            for w in [0.0f32, -0.0, -1.0, f32::NEG_INFINITY] {
                                for p in 0..5 {
                                    let mut c = base.clone();
                                    c.layers.insert(at, Lay { pose: 4, w, jw: p });
                                    ensure!(run(&c)? == want, "layer with weight {} pattern {} at {} changed the pose", w, p, at);
                                }
                            }
                        }
                        for at in 0..2 {
                            for p in 0..5 {
                                let mut c = base.clone();
                                c.add.insert(at, Lay { pose: 4, w: 0.0, jw: p });
                                ensure!(run(&c)? == want, "additive layer of weight 0 at {} changed the pose", at);
                            }
                        }
                        Ok(hash_bits(&want))
                    },
                );
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------

const MT: [[f32; 3]; 6] = [[0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [-1.0, 0.5, 0.0], [0.0, 0.0, -3.0], [0.01, 0.02, 0.0], [5.0, 5.0, 5.0]];

fn mrot(k: usize) -> [f32; 4] {
    match k {
        0 => [0.0, 0.0, 0.0, 1.0],
        1 => quat_axis([0.0, 1.0, 0.0], 0.8),
        2 => quat_axis([0.0, 1.0, 0.0], 0.8).map(|x| -x),
        3 => quat_axis([1.0, 0.3, 0.0], -2.0),
        _ => quat_axis([0.2, 0.3, 1.0], 3.0),
    }
}

pub fn delta(t: usize, r: usize) -> Transform3A {
    // The scale of a delta is not part of a motion.
    Transform3A::new(Vec3::from(MT[t]), Quat::from_array(mrot(r)), Vec3::new(1.0 + t as f32, 2.0, 0.5))
}

pub fn xf3_bits(t: &Transform3A) -> Vec<u32> {
    let (a, r, s) = (t.translation.to_array(), t.rotation.to_array(), t.scale.to_array());
    a.iter().chain(r.iter()).chain(s.iter()).map(|f| f.to_bits()).collect()
}

fn check_motion(ls: &[(f32, usize, usize)], job: &mut MotionBlendingJob) -> Result<u64, String> {
    let v: Vec<_> = ls.iter().map(|(w, t, r)| (*w, delta(*t, *r))).collect();
    check_deltas(&v, job)
}

/// Errors are measured against the result, not against one: tiny and huge motions count the same.
fn check_deltas(ls: &[(f32, Transform3A)], job: &mut MotionBlendingJob) -> Result<u64, String> {
    *job.layers_mut() = ls.iter().map(|(w, d)| MotionBlendingLayer { weight: *w, delta: *d }).collect();
    ensure!(job.validate(), "valid job refused");
    job.run().map_err(|e| format!("{:?}", e))?;
    for (l, (w, d)) in job.layers().iter().zip(ls) {
        ensure!(l.weight == *w && xf3_bits(&l.delta) == xf3_bits(d), "layers were modified");
    }
    let out = job.output();
    let (mut aw, mut dl, mut dt, mut dr) = (0.0f64, 0.0f64, [0.0f64; 3], [0.0f64; 4]);
    let mut amb = false;
    for (w, d) in ls {
        if *w > 0.0 {
            let w = *w as f64;
            aw += w;
            let v = v64(d.translation.to_array());
            let l = vlen(v);
            dl += l * w;
            if l > 0.0 {
                dt = vadd(dt, vmul(v, w / l));
            }
            let q = q64(d.rotation.to_array());
            let d = qdot(dr, q);
            if d.abs() < 1e-5 * qdot(dr, dr).sqrt() {
                amb = true;
            }
            for k in 0..4 {
                dr[k] += q[k] * if d < 0.0 { -w } else { w };
            }
        }
    }
    // What rounding each of the sums may cost, relative to the sum of the weights.
    let fuzz = 3e-7 * (3.0 + ls.len() as f64);
    let g = [out.translation.x as f64, out.translation.y as f64, out.translation.z as f64];
    let q = q64(out.rotation.to_array());
    ensure!(g.iter().chain(q.iter()).all(|x| x.is_finite()), "output is not finite: {:?} {:?}", g, q);
    ensure!(out.scale.to_array() == [1.0; 3], "scale {:?}", out.scale);
    if aw == 0.0 {
        ensure!(g == [0.0; 3] && q == [0.0, 0.0, 0.0, 1.0], "no effective layer, but {:?} {:?}", g, q);
    } else {
        if vlen(dt) > 1e-3 * aw {
            let want = vmul(vnorm(dt), dl / aw);
            ensure!(vlen(vsub(g, want)) < fuzz * vlen(want) * aw / vlen(dt), "translation {:?} expected {:?}", g, want);
        } else if dl == 0.0 {
            ensure!(g == [0.0; 3], "translation {:?} expected zero", g);
        }
        ensure!((qdot(q, q) - 1.0).abs() < 1e-5, "rotation {:?} is not normalised", q);
        let len = qdot(dr, dr).sqrt();
        if !amb && len > 1e-3 * aw {
            let want = qnorm(dr);
            // A quaternion and its opposite are one rotation.
            let s = if qdot(q, want) < 0.0 { -1.0 } else { 1.0 };
            let e = (0..4).map(|k| (q[k] * s - want[k]).powi(2)).sum::<f64>().sqrt();
            ensure!(e < fuzz * aw / len, "rotation {:?} expected {:?}", q, want);
        }
    }
    Ok(hash_bits(&xf3_bits(&out)))
}

pub fn c17(ctx: &mut Ctx) {
    let ws: Vec<f32> = if ctx.wide() { vec![1.0, 0.3, 0.0, -1.0, 2.5, 1e-4, 100.0] } else { vec![1.0, 0.3, 0.0, -1.0, 2.5] };
    let mut opts = Vec::new();
    for w in &ws {
        for t in 0..MT.len() {
            for r in 0..5 {
                if *w > 0.0 || (t + r) % 3 == 0 {
                    opts.push((*w, t, r));
                }
            }
        }
    }
    ctx.suite("layers", |ctx| {
        let few: Vec<_> = opts.iter().copied().filter(|o| o.0 != 100.0 && o.0 != -1.0 && (o.1 + o.2) % 2 == 0).collect();
        for k in 0..=ctx.more(2usize, 3) {
            let opts = if k == 3 { &few } else { &opts };
            tuples(opts.len(), k, |d| {
                let ls: Vec<_> = d.iter().map(|i| opts[*i]).collect();
                ctx.case(
                    || format!("layers (weight, translation, rotation) {:?} and every last layer", ls),
                    |st| {
                        let mut h = check_motion(&ls, &mut MotionBlendingJob::default())?;
                        // The job is reused for all of these: what it blended before must not matter.
                        let mut job = MotionBlendingJob::default();
                        job.set_output(delta(3, 3));
                        for last in opts {
                            let mut l = ls.clone();
                            l.push(*last);
                            let a = check_motion(&l, &mut job)?;
                            if k < 2 {
                                let b = check_motion(&l, &mut MotionBlendingJob::default())?;
                                ensure!(a == b, "a reused job gives another motion for {:?}", l);
                            }
                            h = h.rotate_left(1) ^ a;
                            st.transition();
                        }
                        Ok(h)
                    },
                );
            });
        }
    });
    // Motions from minute to huge: none is too small to have a direction.
    ctx.suite("magnitudes", |ctx| {
        let sizes: &[f32] = ctx.pick3(&[1e-4, 1.0, 1e4], &[1e-12, 1e-7, 1e-5, 5e-4, 1.0, 1e3, 1e9], &[1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 1e-2, 1.0, 1e3, 1e6, 1e12]);
        let ws = [1.0f32, 0.3, 1e-3];
        let n = sizes.len() * ws.len() * 3;
        let layer = |i: usize, place: usize| {
            let (s, w, k) = (sizes[i % sizes.len()], ws[i / sizes.len() % ws.len()], i / sizes.len() / ws.len());
            let mut d = delta(1 + (k + place * 2) % 5, (k + place) % 3);
            d.translation *= s;
            // Rotations as small as the motion.
            if k == 2 {
                d.rotation = Quat::from_xyzw(s.min(0.5), 0.0, 0.0, (1.0 - s.min(0.5) * s.min(0.5)).sqrt());
            }
            (w, d)
        };
        for a in 0..n {
            ctx.case(
                || format!("layer {} and every one or two more of {}", a, n),
                |st| {
                    let mut job = MotionBlendingJob::default();
                    let mut h = check_deltas(&[layer(a, 0)], &mut job)?;
                    for b in 0..n {
                        h = h.rotate_left(1) ^ check_deltas(&[layer(a, 0), layer(b, 1)], &mut job)?;
                        for c in 0..n {
                            h = h.rotate_left(1) ^ check_deltas(&[layer(a, 0), layer(b, 1), layer(c, 2)], &mut job)?;
                            st.transition();
                        }
                    }
                    Ok(h)
                },
            );
        }
    });
    // Many layers: every count, every choice of which layers have no effect (by stride), one job reused.
    ctx.suite("many-layers", |ctx| {
        let max = ctx.pick3(40usize, 300, 1100);
        for stride in [0usize, 1, 2, 3, 7, 16] {
            for start in 0..ctx.pick3(2usize, 4, 12) {
                ctx.case(
                    || format!("1 to {} layers from pattern {}, weight 0 at every {}th", max, start, stride),
                    |st| {
                        let mut job = MotionBlendingJob::default();
                        let mut ls: Vec<(f32, usize, usize)> = Vec::new();
                        let mut h = 0u64;
                        for i in 0..max {
                            let k = i + start * 5;
                            let w = if stride > 0 && i % stride == stride - 1 { [0.0, -1.0][(i / stride) % 2] } else { [0.5, 0.25, 1.0, 2.0, 0.125][k % 5] };
                            // All on one side of the sphere up to sign, so that the sum keeps a direction.
                            ls.push((w, 1 + (k * 3 + k / 7) % 5, [0, 1, 2, 1, 0, 2][(k + k / 11) % 6]));
                            h = h.rotate_left(1) ^ check_motion(&ls, &mut job)?;
                            st.transition();
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    ctx.suite("weight-scaling", |ctx| {
        // Weights need not sum to one: scaling all of them changes nothing (powers of two: exactly).
        let o: Vec<_> = opts.iter().copied().filter(|o| o.2 != 2).collect();
        tuples(o.len(), 2, |d| {
            let ls: Vec<_> = d.iter().map(|i| o[*i]).collect();
            ctx.case(
                || format!("layers {:?} scaled", ls),
                |_| {
                    let mut h = 0;
                    let run = |f: f32| -> Result<Transform3A, String> {
                        let mut job = MotionBlendingJob::default();
                        for (w, t, r) in &ls {
                            job.layers_mut().push(MotionBlendingLayer { weight: w * f, delta: delta(*t, *r) });
                        }
                        job.run().map_err(|e| format!("{:?}", e))?;
                        Ok(job.output())
                    };
                    let a = run(1.0)?;
                    let mut job = MotionBlendingJob::default();
                    job.set_output(delta(ls[0].1, ls[1].2));
                    ensure!(xf3_bits(&job.output()) == xf3_bits(&delta(ls[0].1, ls[1].2)), "the output read back is not the one set");
                    for f in [0.25, 8.0, 3.0, 0.1, 1e-3, 1.0 / (1u32 << 26) as f32, 1e-9, 1e6] {
                        let b = run(f)?;
                        ensure!(a.abs_diff_eq(b, 1e-4) || vlen(vsub(v64(a.translation.to_array()), v64(b.translation.to_array()))) < 1e-3, "scaling the weights by {} changes the motion: {:?} {:?}", f, a, b);
                        h ^= hash_bits(&xf3_bits(&b));
                    }
                    Ok(h)
                },
            );
        });
    });
}
