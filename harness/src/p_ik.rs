//! C15: two-bone IK; C16: aim IK. The corrections the jobs produce are applied, in double precision, to
//! the chain, and the resulting geometry is what is judged.

use crate::core::*;
use crate::util::*;
use glam::{Mat4, Quat, Vec3A};
use ozz_animation_rs::*;

fn f32m(m: &M) -> Mat4 {
    Mat4::from_cols_array_2d(&m.map(|c| c.map(|x| x as f32)))
}

fn rot(q: Q) -> M {
    let mut m = mid();
    for c in 0..3 {
        let mut e = [0.0; 3];
        e[c] = 1.0;
        let v = qrot(q, e);
        for r in 0..3 {
            m[c][r] = v[r];
        }
    }
    m
}

fn scl(v: V) -> M {
    let mut m = mid();
    for c in 0..3 {
        m[c][c] = v[c];
    }
    m
}

fn trs(v: V) -> M {
    let mut m = mid();
    for r in 0..3 {
        m[3][r] = v[r];
    }
    m
}

/// Inverse of an affine matrix.
fn inv(m: &M) -> M {
    let c = [[m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]];
    let r0 = vcross(c[1], c[2]);
    let r1 = vcross(c[2], c[0]);
    let r2 = vcross(c[0], c[1]);
    let d = vdot(c[0], r0);
    let rows = [vmul(r0, 1.0 / d), vmul(r1, 1.0 / d), vmul(r2, 1.0 / d)];
    let mut o = mid();
    for k in 0..3 {
        for r in 0..3 {
            o[k][r] = rows[r][k];
        }
    }
    let t = [m[3][0], m[3][1], m[3][2]];
    for r in 0..3 {
        o[3][r] = -vdot(rows[r], t);
    }
    o
}

fn va(v: V) -> Vec3A {
    Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32)
}

fn q64q(q: Quat) -> Q {
    [q.x as f64, q.y as f64, q.z as f64, q.w as f64]
}

fn col3(m: &M, c: usize) -> V {
    [m[c][0], m[c][1], m[c][2]]
}

/// Component of `v` orthogonal to the unit vector `d`.
fn perp(v: V, d: V) -> V {
    vsub(v, vmul(d, vdot(v, d)))
}

fn unit(q: Q) -> bool {
    (qdot(q, q) - 1.0).abs() < 1e-4
}

/// What weighting must give: the identity blended towards the full correction, normalised.
fn weighted(full: Q, w: f64) -> Q {
    let f = if full[3] < 0.0 { full.map(|x| -x) } else { full };
    let w = w.clamp(0.0, 1.0);
    qnorm([f[0] * w, f[1] * w, f[2] * w, 1.0 + (f[3] - 1.0) * w])
}

fn qclose(a: Q, b: Q, tol: f64) -> bool {
    let d: f64 = (0..4).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    let e: f64 = (0..4).map(|i| (a[i] + b[i]).abs()).fold(0.0, f64::max);
    d.min(e) <= tol
}

pub fn placements() -> Vec<M> {
    let r = qaxis(vnorm([1.0, -0.5, 0.7]), 1.1);
    vec![
        mid(),
        trs([3.0, -2.0, 5.0]),
        mmul(&trs([0.5, 1.0, -4.0]), &rot(r)),
        mmul(&trs([0.0, 1.0, 0.0]), &mmul(&rot(qaxis([0.0, 1.0, 0.0], 2.5)), &scl([2.0, 2.0, 2.0]))),
        mmul(&rot(r), &scl([1.0, 2.0, 1.0])),
        scl([-3.0, -3.0, -3.0]),
        mmul(&trs([10.0, 0.0, 1.0]), &mmul(&rot(qaxis([0.0, 0.0, 1.0], std::f64::consts::PI)), &scl([0.25, 0.5, 1.0]))),
    ]
}

pub fn dirs() -> Vec<V> {
    let mut v = Vec::new();
    for x in -1i32..=1 {
        for y in -1i32..=1 {
            for z in -1i32..=1 {
                if (x, y, z) != (0, 0, 0) {
                    v.push(vnorm([x as f64, y as f64, z as f64]));
                }
            }
        }
    }
    v.push(vnorm([0.3, -0.2, 0.9]));
    v.push(vnorm([-0.8, 0.1, 0.35]));
    v.push(vnorm([0.05, -1.0, 0.02]));
    v
}

/// A two-bone chain. Lengths and directions are those of the start joint's space.
pub struct Chain {
    pub start: M,
    pub mid: M,
    pub end: M,
    pub axis: V, // in mid space
    pub l1: f64,
    pub l2: f64,
}

/// `bend` is the angle from the prolonged first bone to the second around the bend axis.
pub fn chain(start: &M, l1: f64, l2: f64, bend: f64, frame: Q, mid_rot: Q, mid_scale: f64, flip: bool) -> Chain {
    // Canonical plane xy (normal z), rotated by `frame` inside start space.
    let d1 = qrot(frame, [1.0, 0.0, 0.0]);
    let n = qrot(frame, [0.0, 0.0, 1.0]);
    let d2 = qrot(qaxis(n, bend), d1);
    let mid_l = mmul(&trs(vmul(d1, l1)), &mmul(&rot(mid_rot), &scl([mid_scale; 3])));
    let mid_m = mmul(start, &mid_l);
    let end_ms = mpoint(&inv(&mid_l), vadd(vmul(d1, l1), vmul(d2, l2)));
    let end_m = mmul(&mid_m, &mmul(&trs(end_ms), &rot(qaxis([0.0, 1.0, 0.0], 0.4))));
    let mut axis = qrot(qconj(mid_rot), n);
    if flip {
        axis = vmul(axis, -1.0);
    }
    Chain { start: *start, mid: mid_m, end: end_m, axis, l1, l2 }
}

#[derive(Clone, Copy, Debug)]
pub struct Ik {
    pub target: V, // model space
    pub pole: V,   // model space
    pub twist: f64,
    pub soften: f32,
    pub weight: f32,
}

pub struct IkOut {
    pub start: Q,
    pub mid: Q,
    pub reached: bool,
}

pub fn run_two(c: &Chain, k: &Ik) -> Result<IkOut, String> {
    let mut j = IKTwoBoneJob::default();
    j.set_start_joint(f32m(&c.start));
    j.set_mid_joint(f32m(&c.mid));
    j.set_end_joint(f32m(&c.end));
    j.set_mid_axis(va(c.axis));
    j.set_target(va(k.target));
    j.set_pole_vector(va(k.pole));
    j.set_twist_angle(k.twist as f32);
    j.set_soften(k.soften);
    j.set_weight(k.weight);
    j.run().map_err(|e| format!("run failed: {:?}", e))?;
    let o = IkOut { start: q64q(j.start_joint_correction()), mid: q64q(j.mid_joint_correction()), reached: j.reached() };
    ensure!(unit(o.start) && unit(o.mid), "corrections are not unit: {:?} {:?} ({:?})", o.start, o.mid, k);
    Ok(o)
}

/// Mid and end position in start space once the corrections are applied to the joints.
fn apply(c: &Chain, o: &IkOut) -> (V, V) {
    let is = inv(&c.start);
    let mid_l = mmul(&is, &c.mid);
    let end_l = mmul(&inv(&c.mid), &c.end);
    let r = rot(o.start);
    let m = mmul(&r, &mid_l);
    let e = mmul(&mmul(&m, &rot(o.mid)), &end_l);
    (col3(&m, 3), col3(&e, 3))
}

/// Distance from start the end must be placed at, and whether that is the target's distance.
fn expected_len(c: &Chain, d: f64, soften: f64) -> (f64, bool, f64) {
    let full = c.l1 + c.l2;
    let min = (c.l1 - c.l2).abs();
    let da = full * soften.clamp(0.0, 1.0);
    let ds = full - da;
    let mut l = d;
    if d > da && d > 0.0 && ds > 0.0 {
        let a = (d - da) / ds;
        l = da + ds - ds * (3.0 / (a + 3.0)).powi(4);
    }
    (l.clamp(min, full), d > min && d <= da, ((d - min).abs()).min((d - da).abs()))
}

/// Distance to the ends of the reach (relative to the chain) from which on the angles are well conditioned.
const TIGHT: f64 = 0.03;

pub fn judge_two(c: &Chain, k: &Ik) -> Result<u64, String> {
    let o = run_two(c, k)?;
    let is = inv(&c.start);
    let t = mpoint(&is, k.target);
    let d = vlen(t);
    let full = c.l1 + c.l2;
    let (want, reach, margin) = expected_len(c, d, k.soften as f64);
    if margin > 1e-4 * full {
        ensure!(o.reached == (reach && k.weight >= 1.0), "reached {} for a target at {} (bones {} {}, soften {}, weight {})", o.reached, d, c.l1, c.l2, k.soften, k.weight);
    }
    let mut h = Fnv::new();
    h.u64(o.reached as u64).fs(&o.start.map(|x| (x * 64.0).round() as f32)).fs(&o.mid.map(|x| (x * 64.0).round() as f32));
    if k.weight < 1.0 {
        if k.weight <= 0.0 {
            ensure!(qclose(o.start, [0.0, 0.0, 0.0, 1.0], 0.0) && qclose(o.mid, [0.0, 0.0, 0.0, 1.0], 0.0), "weight {}: not the identity", k.weight);
        } else {
            let f = run_two(c, &Ik { weight: 1.0, ..*k })?;
            let (ws, wm) = (weighted(f.start, k.weight as f64), weighted(f.mid, k.weight as f64));
            ensure!(qclose(o.start, ws, 2e-5) && qclose(o.mid, wm, 2e-5), "weight {}: {:?} {:?} expected {:?} {:?}", k.weight, o.start, o.mid, ws, wm);
        }
        return Ok(h.get());
    }
    let (m, e) = apply(c, &o);
    let tight = {
        let (m0, e0) = (col3(&mmul(&is, &c.mid), 3), col3(&mmul(&is, &c.end), 3));
        margin > TIGHT * full && vlen(e0) > TIGHT * full && vlen(perp(m0, vnorm(e0))) > TIGHT * full
    };
    let tol = if tight { 1e-4 * full } else { 2.5e-3 * full };
    ensure!((vlen(e) - want).abs() <= tol, "end placed at distance {} instead of {} (target at {}, bones {} {}, {:?})", vlen(e), want, d, c.l1, c.l2, k);
    ensure!((vlen(m) - c.l1).abs() <= 1e-3 * full && (vlen(vsub(e, m)) - c.l2).abs() <= 1e-3 * full, "bone length changed");
    if d > 0.02 * full && vlen(e) > 0.02 * full {
        let dir = vmul(t, 1.0 / d);
        let off = vlen(perp(e, dir));
        ensure!(off <= tol && vdot(e, dir) > -tol, "end at {:?} is not in the direction of the target {:?} (bones {} {}, {:?})", e, t, c.l1, c.l2, k);
        if reach && margin > 1e-3 * full {
            ensure!(vlen(vsub(e, t)) <= 2.0 * tol, "end at {:?}, target {:?} ({:?})", e, t, k);
        }
        // The middle joint points towards the pole, turned by the twist.
        let pole = mvec(&is, k.pole);
        let pp = perp(pole, dir);
        let mp = perp(m, dir);
        if vlen(pp) > 0.05 * vlen(pole) && vlen(mp) > 0.05 * full {
            let w = qrot(qaxis(dir, k.twist), vnorm(pp));
            let err = vlen(vsub(vnorm(mp), w));
            let clear = tight && vlen(pp) > 0.2 * vlen(pole) && vlen(mp) > 0.2 * full;
            ensure!(err < if clear { 1e-3 } else { 1.5e-2 }, "middle joint at {:?} is not on the pole side {:?} (twist {}; error {}; bones {} {}, {:?})", m, w, k.twist, err, c.l1, c.l2, k);
        }
    }
    Ok(h.get())
}

const PI: f64 = std::f64::consts::PI;

pub fn c15(ctx: &mut Ctx) {
    let th = ctx.wide();
    let bones: Vec<(f64, f64)> = vec![(1.0, 1.0), (1.0, 0.5), (0.4, 2.0), (0.05, 0.07), (30.0, 25.0)];
    let bends = ctx.more(vec![0.0, 0.5, PI / 2.0, 2.4, 3.0, PI, -0.3, -PI / 2.0, -2.0], vec![0.0, 0.02, 0.2, 0.5, 1.0, PI / 2.0, 2.0, 2.4, 2.8, 3.0, 3.1, PI, -0.1, -0.3, -1.0, -PI / 2.0, -2.0, -2.7, -3.0]);
    let frames: Vec<Q> = vec![[0.0, 0.0, 0.0, 1.0], qaxis([1.0, 0.0, 0.0], PI / 2.0), qaxis(vnorm([0.3, 1.0, -0.6]), 2.0), qaxis([0.0, 1.0, 0.0], PI)];
    let mids: Vec<(Q, f64)> = vec![([0.0, 0.0, 0.0, 1.0], 1.0), (qaxis(vnorm([0.2, -1.0, 0.5]), 1.7), 1.0), (qaxis([0.0, 0.0, 1.0], PI / 2.0), 0.5)];
    let fr = ctx.more(vec![0.0, 0.02, 0.3, 0.5, 0.75, 0.9, 0.97, 0.999, 1.001, 1.2, 3.0, 20.0], vec![0.0, 0.005, 0.02, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.85, 0.9, 0.95, 0.97, 0.99, 0.999, 1.001, 1.01, 1.1, 1.2, 2.0, 3.0, 20.0, 200.0]);
    let ds = dirs();
    let run_all = |c: &Chain, st: &mut Stats, twists: &[f64], softens: &[f32], weights: &[f32], poles: &[V], dirs: &[V]| -> Result<u64, String> {
        let mut h = 0u64;
        let mut turn = 0;
        let (full, min) = (c.l1 + c.l2, (c.l1 - c.l2).abs());
        for f in fr.iter().map(|f: &f64| f * full).chain([min * 0.5, min * 0.99, min * 1.01, min + (full - min) * 0.3]) {
            for d in dirs {
                for p in poles {
                    // Aligned poles are excluded: the job documents them as the caller's to avoid.
                    if vlen(perp(*p, *d)) < 0.03 {
                        continue;
                    }
                    // Only the direction of the pole counts.
                    turn += 1;
                    let p = &vmul(*p, [1.0, 30.0, 0.5, 4.0][turn % 4]);
                    for tw in twists {
                        for s in softens {
                            for w in weights {
                                let k = Ik { target: mpoint(&c.start, vmul(*d, f)), pole: mvec(&c.start, *p), twist: *tw, soften: *s, weight: *w };
                                h = h.rotate_left(1) ^ judge_two(c, &k)?;
                                st.transition();
                            }
                        }
                    }
                }
            }
        }
        Ok(h)
    };
    ctx.suite("reach", |ctx| {
        for (pi, p) in placements().iter().enumerate() {
            for &(l1, l2) in &bones {
                for &b in &bends {
                    for (fi, f) in frames.iter().enumerate() {
                        for (mi, (mr, ms)) in mids.iter().enumerate() {
                            for flip in [false, true] {
                                ctx.case(
                                    || format!("placement {} bones {} {} bend {} frame {} mid {} flip {}: every target distance, direction and pole", pi, l1, l2, b, fi, mi, flip),
                                    |st| {
                                        let c = chain(p, l1, l2, b, *f, *mr, *ms, flip);
                                        let np = if th { ds.len() } else { 3 };
                                        let off = (pi + fi * 3 + mi) % ds.len();
                                        let poles: Vec<V> = (0..np).map(|i| ds[(off + i * 5) % ds.len()]).collect();
                                        run_all(&c, st, &[0.0], &[1.0], &[1.0], &poles, &ds)
                                    },
                                );
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.suite("twist-soften-weight", |ctx| {
        for (pi, p) in placements().iter().enumerate() {
            for &(l1, l2) in &bones[..4] {
                for &b in &bends {
                    ctx.case(
                        || format!("placement {} bones {} {} bend {}: every twist, softening and weight", pi, l1, l2, b),
                        |st| {
                            let c = chain(p, l1, l2, b, frames[2], mids[1].0, mids[1].1, pi % 2 == 0);
                            let tw = [0.0, 0.7, -2.0, PI, 1e-3, 5e-3, 7.0, 1.0, -1.0, 0.5, -PI, 2.0 * PI];
                            let so = [1.0f32, 0.995, 0.97, 0.6, 0.5, 0.2, 0.03, 0.0, -1.0, 1.5];
                            let we = [1.0f32, 0.999, 0.5, 0.25, 0.01, 0.0, -0.0, -1.0, -2.0, 2.0, 3.0];
                            let (nd, np) = if th { (ds.len(), 4) } else { (5, 2) };
                            let dd: Vec<V> = (0..nd).map(|i| ds[(i * 5 + pi) % ds.len()]).collect();
                            let poles: Vec<V> = (0..np).map(|i| ds[(i * 7 + 2 + pi) % ds.len()]).collect();
                            run_all(&c, st, &tw, &so, &we, &poles, &dd)
                        },
                    );
                }
            }
        }
    });
    // The size of the chain does not change the answer.
    ctx.suite("sizes", |ctx| {
        for &(l1, l2) in &bones {
            for &b in &bends {
                for flip in [false, true] {
                    ctx.case(
                        || format!("bones {} {} bend {} flip {}: the scene at every scale", l1, l2, b, flip),
                        |st| {
                            let mut h = 0u64;
                            for (di, d) in ds.iter().enumerate() {
                                for f in [0.0, 0.02, 0.3, 0.5, 0.75, 0.9, 0.97, 0.999, 1.001, 1.2, 3.0, 20.0] {
                                    let k = Ik { target: vmul(*d, f * (l1 + l2)), pole: ds[(di * 5 + 3) % ds.len()], twist: [0.0, 0.7][di % 2], soften: [1.0, 0.6][di % 2], weight: [1.0, 1.0, 0.5][di % 3] };
                                    if vlen(perp(k.pole, *d)) < 0.03 {
                                        continue;
                                    }
                                    let want = run_two(&chain(&mid(), l1, l2, b, frames[2], mids[1].0, 1.0, flip), &k)?;
                                    for e in [-5i32, -2, 3, 9, 18] {
                                        let s = 2f64.powi(e);
                                        // Vectors too short to have a direction.
                                        let e0 = (l1 * l1 + l2 * l2 + 2.0 * l1 * l2 * b.cos()).max(0.0).sqrt();
                                        if f * (l1 + l2) * e0 * (s * s).min(1.0) < 1e-5 {
                                            continue;
                                        }
                                        let got = run_two(&chain(&mid(), l1 * s, l2 * s, b, frames[2], mids[1].0, 1.0, flip), &Ik { target: vmul(k.target, s), ..k })?;
                                        let ok = got.reached == want.reached && qclose(got.start, want.start, 2e-5) && qclose(got.mid, want.mid, 2e-5);
                                        ensure!(ok, "scene scaled by {}: {:?} {:?} {} instead of {:?} {:?} {} ({:?})", s, got.start, got.mid, got.reached, want.start, want.mid, want.reached, k);
                                        h = h.rotate_left(1) ^ got.reached as u64;
                                        st.transition();
                                    }
                                }
                            }
                            Ok(h)
                        },
                    );
                }
            }
        }
    });
    // Softening: the reach grows with the target distance and never exceeds it.
    ctx.suite("soften-monotone", |ctx| {
        for &(l1, l2) in &bones {
            for s in 0..=20 {
                ctx.case(
                    || format!("bones {} {} soften {}", l1, l2, s as f64 / 20.0),
                    |st| {
                        let c = chain(&placements()[2], l1, l2, 1.0, frames[2], mids[1].0, 1.0, false);
                        let (full, min) = (l1 + l2, (l1 - l2).abs());
                        let mut last = 0.0;
                        for i in 1..=ctx_steps(th) {
                            let d = full * 2.0 * i as f64 / ctx_steps(th) as f64;
                            let k = Ik { target: mpoint(&c.start, vmul(ds[4], d)), pole: mvec(&c.start, ds[11]), twist: 0.0, soften: s as f32 / 20.0, weight: 1.0 };
                            let o = run_two(&c, &k)?;
                            let (_, e) = apply(&c, &o);
                            let l = vlen(e);
                            ensure!(l >= last - 1.5e-3 * full, "the reach shrinks from {} to {} at target distance {}", last, l, d);
                            let da = full * s as f64 / 20.0;
                            ensure!(l <= full * 1.001 && l >= d.min(da).max(min) - 1.5e-3 * full, "reach {} for target distance {} (chain {}, softened from {})", l, d, full, da);
                            last = l;
                            st.transition();
                        }
                        Ok((last * 1e3) as u64)
                    },
                );
            }
        }
    });
    ctx.suite("axis-gate", |ctx| {
        for (i, d) in ds.iter().enumerate() {
            for l in [0.0, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 2.0] {
                ctx.case(
                    || format!("mid axis {:?} of length {}", d, l),
                    |_| {
                        let mut j = IKTwoBoneJob::default();
                        j.set_mid_axis(va(vmul(*d, l)));
                        j.set_target(Vec3A::new(0.3, 0.4, 0.5));
                        let r = j.run();
                        ensure!(r.is_ok() == (l == 1.0), "mid axis of length {}: {:?}", l, r);
                        ensure!(r.is_ok() || matches!(r, Err(OzzError::InvalidJob)), "wrong error {:?}", r);
                        Ok(i as u64)
                    },
                );
            }
        }
    });
}

fn ctx_steps(th: bool) -> usize {
    if th {
        2000
    } else {
        400
    }
}

// ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Aim {
    pub forward: V,
    pub offset: V,
    pub up: V,
    pub target: V, // joint space
    pub pole: V,   // joint space
    pub twist: f64,
    pub weight: f32,
}

pub fn run_aim(m: &M, a: &Aim) -> Result<(Q, bool), String> {
    let mut j = IKAimJob::default();
    j.set_joint(f32m(m));
    j.set_forward(va(a.forward));
    j.set_offset(va(a.offset));
    j.set_up(va(a.up));
    j.set_target(va(mpoint(m, a.target)));
    j.set_pole_vector(va(mvec(m, a.pole)));
    j.set_twist_angle(a.twist as f32);
    j.set_weight(a.weight);
    j.run().map_err(|e| format!("run failed: {:?}", e))?;
    let q = q64q(j.joint_correction());
    ensure!(unit(q), "correction {:?} is not unit ({:?})", q, a);
    Ok((q, j.reached()))
}

pub fn judge_aim(m: &M, a: &Aim) -> Result<u64, String> {
    let (q, reached) = run_aim(m, a)?;
    let d = vlen(a.target);
    let ao = vdot(a.forward, a.offset);
    let ac2 = (vdot(a.offset, a.offset) - ao * ao).max(0.0);
    let margin = (ac2.sqrt() - d).abs();
    let scale = 1.0 + d + vlen(a.offset);
    let reach = ac2 <= d * d;
    let mut h = Fnv::new();
    h.u64(reached as u64).fs(&q.map(|x| (x * 64.0).round() as f32));
    if margin < 2e-3 * scale {
        return Ok(h.get()); // on the limit: either answer
    }
    ensure!(reached == reach, "reached {} for {:?}", reached, a);
    let id = [0.0, 0.0, 0.0, 1.0];
    if !reach {
        ensure!(qclose(q, id, 0.0), "unreachable target must give the identity, got {:?} ({:?})", q, a);
        return Ok(h.get());
    }
    if a.weight < 1.0 {
        let f = run_aim(m, &Aim { weight: 1.0, ..*a })?;
        let w = weighted(f.0, a.weight as f64);
        ensure!(qclose(q, w, 2e-5), "weight {}: {:?} expected {:?} ({:?})", a.weight, q, w, a);
        return Ok(h.get());
    }
    // The line from the offset along forward passes through the target, at the right distance.
    let o = qrot(q, a.offset);
    let f = qrot(q, a.forward);
    let dir = vmul(a.target, 1.0 / d);
    let along = (d * d - ac2).sqrt() - ao;
    let hit = vadd(o, vmul(f, along));
    let tol = if margin > 2.0 * TIGHT * scale { 5e-5 } else { 2e-3 };
    ensure!(vlen(vsub(hit, a.target)) < tol * scale, "aims at {:?} instead of {:?} ({:?})", hit, a.target, a);
    // Up points to the pole's side of the aim axis, turned by the twist.
    let up = perp(qrot(q, a.up), dir);
    let pole = perp(a.pole, dir);
    if vlen(up) > 0.05 * vlen(a.up) && vlen(pole) > 0.05 * vlen(a.pole) {
        let w = qrot(qaxis(dir, a.twist), vnorm(pole));
        let err = vlen(vsub(vnorm(up), w));
        let clear = vlen(up) > 0.2 * vlen(a.up) && vlen(pole) > 0.2 * vlen(a.pole) && margin > 2.0 * TIGHT * scale;
        ensure!(err < if clear { 3e-3 } else { 1e-2 }, "up {:?} is not brought to the pole {:?} (error {}, {:?})", up, w, err, a);
    }
    Ok(h.get())
}

pub fn c16(ctx: &mut Ctx) {
    let (th, deep) = (ctx.wide(), ctx.deep());
    let ds = dirs();
    let offs: Vec<V> = vec![[0.0; 3], [0.3, 0.0, 0.0], [0.0, 0.5, 0.0], [0.2, -0.4, 0.6], [-1.5, 0.0, 0.0], [0.0, 0.0, 2.0], [3.0, 0.5, 0.0], [0.7, 0.7, 0.0]];
    let dist = ctx.more(vec![0.1, 0.45, 1.0, 1.7, 12.0], vec![0.02, 0.1, 0.2, 0.45, 0.7, 1.0, 1.3, 1.7, 3.0, 6.0, 12.0]);
    ctx.suite("aim", |ctx| {
        for (pi, p) in placements().iter().enumerate() {
            for (fi, f) in ds.iter().enumerate() {
                for (oi, off) in offs.iter().enumerate() {
                    ctx.case(
                        || format!("placement {} forward {:?} offset {:?}: every target, up and pole", pi, f, off),
                        |st| {
                            let mut h = 0u64;
                            let nu = if deep { ds.len() } else if th { 10 } else { 5 };
                            for (ti, t) in ds.iter().enumerate() {
                                for &dd in &dist {
                                    for u in 0..nu {
                                        for pole in 0..nu {
                                            let a = Aim {
                                                forward: *f,
                                                offset: *off,
                                                up: ds[(u * 6 + oi + fi) % ds.len()],
                                                target: vmul(*t, dd),
                                                pole: ds[(pole * 5 + ti) % ds.len()],
                                                twist: 0.0,
                                                weight: 1.0,
                                            };
                                            h = h.rotate_left(1) ^ judge_aim(p, &a)?;
                                            st.transition();
                                        }
                                    }
                                }
                            }
                            Ok(h)
                        },
                    );
                }
            }
        }
    });
    ctx.suite("twist-weight", |ctx| {
        for (pi, p) in placements().iter().enumerate() {
            for (fi, f) in ds.iter().enumerate() {
                ctx.case(
                    || format!("placement {} forward {:?}: every twist and weight", pi, f),
                    |st| {
                        let mut h = 0u64;
                        for (ti, t) in ds.iter().enumerate() {
                            for off in &offs[..if th { offs.len() } else { 4 }] {
                                for twist in [0.0, 0.7, -2.0, PI, 1e-3, 8e-3, 7.0, 1.0, -1.0, 0.5, -PI, 2.0 * PI] {
                                    for weight in [1.0f32, 0.999, 0.5, 0.01, 0.0, -0.0, -1.0, 2.0] {
                                        for k in 0..if deep { ds.len() } else if th { 6 } else { 3 } {
                                            let a = Aim {
                                                forward: *f,
                                                offset: *off,
                                                up: vmul(ds[(k * 7 + fi) % ds.len()], 1.0 + k as f64),
                                                target: vmul(*t, 1.3),
                                                pole: vmul(ds[(k * 5 + ti + 3) % ds.len()], 0.5 + k as f64),
                                                twist,
                                                weight,
                                            };
                                            h = h.rotate_left(1) ^ judge_aim(p, &a)?;
                                            st.transition();
                                        }
                                    }
                                }
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    // The size of the scene does not change the answer.
    ctx.suite("sizes", |ctx| {
        for (fi, f) in ds.iter().enumerate() {
            for (oi, off) in offs.iter().enumerate() {
                ctx.case(
                    || format!("forward {:?} offset {:?}: the scene at every scale", f, off),
                    |st| {
                        let mut h = 0u64;
                        for (ti, t) in ds.iter().enumerate() {
                            for dd in [0.45, 1.0, 12.0] {
                                let a = Aim { forward: *f, offset: *off, up: ds[(ti * 3 + oi) % ds.len()], target: vmul(*t, dd), pole: ds[(ti * 5 + fi) % ds.len()], twist: 0.3, weight: [1.0, 0.5][ti % 2] };
                                let (want, reached) = run_aim(&mid(), &a)?;
                                for e in [-7i32, -4, 4, 10, 20] {
                                    let s = 2f64.powi(e);
                                    let b = Aim { offset: vmul(*off, s), target: vmul(a.target, s), ..a };
                                    let (q, r) = run_aim(&mid(), &b)?;
                                    ensure!(r == reached && qclose(q, want, 2e-5), "scene scaled by {}: {:?} {} instead of {:?} {} ({:?})", s, q, r, want, reached, a);
                                    h = h.rotate_left(1) ^ r as u64;
                                    st.transition();
                                }
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    ctx.suite("degenerate", |ctx| {
        for (pi, p) in placements().iter().enumerate() {
            for (i, d) in ds.iter().enumerate() {
                ctx.case(
                    || format!("placement {} direction {:?}: zero vectors, aligned vectors", pi, d),
                    |_| {
                        let z = [0.0; 3];
                        let base = Aim { forward: *d, offset: z, up: ds[(i + 5) % ds.len()], target: [1.0, 0.5, 0.2], pole: ds[(i + 9) % ds.len()], twist: 0.4, weight: 1.0 };
                        for twist in [0.0, 0.4] {
                            let b = Aim { twist, ..base };
                            judge_aim(p, &Aim { pole: z, ..b })?;
                            judge_aim(p, &Aim { up: z, ..b })?;
                            judge_aim(p, &Aim { pole: b.target, ..b })?;
                            judge_aim(p, &Aim { pole: vmul(b.target, -1.0), ..b })?;
                            judge_aim(p, &Aim { up: b.forward, ..b })?;
                            judge_aim(p, &Aim { up: b.forward, pole: b.target, ..b })?;
                            judge_aim(p, &Aim { target: b.forward, ..b })?;
                            judge_aim(p, &Aim { target: vmul(b.forward, -2.0), ..b })?;
                        }
                        if pi == 0 {
                            let (q, _) = run_aim(p, &Aim { target: z, ..base })?;
                            ensure!(qclose(q, [0.0, 0.0, 0.0, 1.0], 0.0), "target on the joint: {:?}", q);
                        }
                        Ok(i as u64)
                    },
                );
                for l in [0.0, 0.5, 0.99, 1.0, 1.01, 2.0] {
                    ctx.case(
                        || format!("forward {:?} of length {}", d, l),
                        |_| {
                            let mut j = IKAimJob::default();
                            j.set_joint(f32m(p));
                            j.set_forward(va(vmul(*d, l)));
                            j.set_target(Vec3A::new(3.0, 4.0, 5.0));
                            let r = j.run();
                            ensure!(r.is_ok() == (l == 1.0), "forward of length {}: {:?}", l, r);
                            Ok(i as u64)
                        },
                    );
                }
            }
        }
    });
}
