//! Bit-exact outcomes of every job and loader, to be compared between builds, targets and processes (C19).
//! Inputs come from integer and basic floating-point operations only, so every build generates the same ones.

use crate::assets::*;
use crate::core::*;
use crate::p_assets::*;
use crate::p_blend::*;
use crate::p_ik::{chain, dirs, placements};
use crate::p_sampling::*;
use crate::p_skeleton::local;
use crate::p_skin::*;
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;

pub const SUITES: [&str; 17] = [
    "trigonometry", "sampling", "context-form", "blending", "motion-blending", "local-to-model", "skinning", "two-bone-ik", "aim-ik",
    "track-sampling", "track-triggering", "loading", "loading-broken", "skeleton", "keys", "extreme-values", "one-target-order",
];
/// Outcomes of this suite may differ between targets (hash tables are laid out per target), never between
/// builds or runs for one target.
pub const ONE_TARGET: usize = 16;

pub struct D {
    pub shard: u64,
    pub nshards: u64,
    pub thorough: bool,
    pub only: Option<(usize, u64)>,
    suite: usize,
    ord: u64,
    pub out: Vec<(u64, u64)>,
    pub described: Option<(String, String)>,
}

impl D {
    pub fn new(shard: u64, nshards: u64, thorough: bool) -> D {
        D { shard, nshards, thorough, only: None, suite: 0, ord: 0, out: Vec::new(), described: None }
    }
    fn suite(&mut self, k: usize) {
        self.suite = k;
        self.ord = 0;
        publish_suite(SUITES[k]);
    }
    fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Fnv)) {
        let ord = self.ord;
        self.ord += 1;
        match self.only {
            Some(o) => {
                if o != (self.suite, ord) {
                    return;
                }
            }
            None => {
                if ord % self.nshards != self.shard {
                    return;
                }
            }
        }
        publish(self.suite as u64, ord);
        let key = ((self.suite as u64) << 40) | ord;
        #[cfg(target_arch = "wasm32")]
        unsafe {
            CURRENT = [self.suite as u32, ord as u32];
        }
        let mut h = Fnv::new();
        let r = guard(|| {
            f(&mut h);
            h.get()
        });
        self.out.push((key, r.as_ref().copied().unwrap_or_else(|e| hash_str(e.split(" at ").next().unwrap()) | 1)));
        if self.only.is_some() {
            let what = match r {
                Ok(h) => format!("outcome {:016x}", h),
                Err(e) => e,
            };
            self.described = Some((desc(), what));
        }
    }
}

fn hpose(h: &mut Fnv, p: &[SoaTransform]) {
    for t in p {
        h.fs(&xf_floats(t));
    }
}

fn herr<T>(h: &mut Fnv, r: &Result<T, OzzError>) {
    match r {
        Ok(_) => h.u64(1),
        Err(e) => h.str(&format!("{:?}", e)),
    };
}

fn hjson<T: serde::Serialize>(h: &mut Fnv, t: &T) {
    // Through a value: maps in key order.
    h.str(&serde_json::to_value(t).map(|v| v.to_string()).unwrap_or_else(|e| e.to_string()));
}

const EXT: [f32; 14] = [
    0.0, -0.0, 1e-45, -1e-40, 1.2e-38, 1e-20, -1e-7, 0.75, -3.0e4, 1e10, -1e19, 3.0e38, f32::INFINITY, f32::NAN,
];

pub fn run(d: &mut D) {
    trig(d);
    sampling(d);
    blending(d);
    motion(d);
    l2m(d);
    skinning(d);
    ik(d);
    tracks(d);
    loading(d);
    skeletons(d);
    keys(d);
    extremes(d);
}

fn trig(d: &mut D) {
    d.suite(0);
    let hash = |h: &mut Fnv, x: f32| {
        let (s, c) = f32_sin_cos(x);
        h.f32(s).f32(c).f32(f32_sin(x)).f32(f32_cos(x)).f32(f32_asin(x)).f32(f32_acos(x));
    };
    use ozz_animation_rs::math::*;
    for k in 0..512u32 {
        d.case(
            || format!("bit patterns {:#x}..+{:#x}, every {}th", k << 23, 1 << 23, 65521),
            |h| {
                // Every exponent and sign; the mantissa in steps.
                let mut m = (k * 7919) % 65521;
                while m < 1 << 23 {
                    hash(h, f32::from_bits((k << 23) + m));
                    m += 65521;
                }
                for m in [0, 1, 2, (1 << 22) - 1, 1 << 22, (1 << 23) - 1] {
                    hash(h, f32::from_bits((k << 23) + m));
                }
            },
        );
    }
    let n = if d.thorough { 4000 } else { 400 };
    for k in 0..n {
        d.case(
            || format!("quadrant {}: arguments around multiples of a quarter turn", k),
            |h| {
                let q = k as f32 * std::f32::consts::FRAC_PI_4;
                let mut x = q;
                for _ in 0..40 {
                    x = x.next_down();
                }
                for _ in 0..80 {
                    hash(h, x);
                    hash(h, -x);
                    x = x.next_up();
                }
                for i in 0..50 {
                    hash(h, q + i as f32 * 0.0157);
                    hash(h, (k * 50 + i) as f32 / (n * 50) as f32);
                }
            },
        );
    }
}

fn sampling(d: &mut D) {
    d.suite(1);
    let ratios: Vec<f32> = (0..=20).map(|i| i as f32 / 20.0).chain([0.31, 0.3, 0.9999, 0.05, 1.5, -1.0, 0.77, 0.0, 1.0, 0.123456]).collect();
    let mut fam = large_family(0);
    fam.retain(|f| f.1.chans[0].len() > 3 || d.thorough);
    for n in 1..=12 {
        fam.push((format!("{} tracks", n), sample_anim(n)));
    }
    layouts(1, 2, |l| fam.push((format!("layout {:?}", l), build(&[0.0, 0.3, 0.65, 1.0], l, [0.5, 0.0, 0.34]))));
    for (i, (name, a)) in fam.iter().enumerate() {
        let parts = if a.chans[0].len() > 20 { 4 } else { 1 };
        for part in 0..parts {
            d.case(
                || format!("animation with {}: ratios from number {}", name, part),
                |h| {
                    let x = load_anim(a);
                    let soa = a.chans[0].len().div_ceil(4);
                    let mut cx = SamplingContext::new(a.chans[0].len() + 4 * (i % 3));
                    let mut out = vec![SoaTransform::default(); soa + 1];
                    for k in 0..ratios.len().div_ceil(parts) {
                        let r = ratios[(k * parts + part * 7) % ratios.len()];
                        herr(h, &sample_into(&x, &mut cx, r, &mut out));
                        hpose(h, &out);
                    }
                },
            );
        }
    }
    d.suite(2);
    for n in 1..=(if d.thorough { 9 } else { 5 }) {
        for k in 0..6usize {
            d.case(
                || format!("saved form of a context for {} tracks after {} samples", n, k),
                |h| {
                    let a = sample_anim(n);
                    let x = load_anim(&a);
                    let mut cx = SamplingContext::new(n);
                    let mut out = vec![SoaTransform::default(); n.div_ceil(4)];
                    for i in 0..k {
                        herr(h, &sample_into(&x, &mut cx, [0.1, 0.8, 0.4, 1.0, 0.33][i], &mut out));
                    }
                    let mut v = serde_json::to_value(&cx).unwrap();
                    // The memory a context takes depends on the target's pointers.
                    v.as_object_mut().unwrap().remove("size");
                    h.str(&v.to_string());
                },
            );
        }
    }
}

fn blending(d: &mut D) {
    d.suite(3);
    let ws = [0.0f32, 0.3, 1.0, -0.5, 1e-3];
    for t in [0.1f32, 1.0, 0.45] {
        for n in [1usize, 4, 5, 9] {
            for k in 0..=2usize {
                tuples(ws.len(), k, |w| {
                    for add in 0..4usize {
                        d.case(
                            || format!("threshold {} joints {} weights {:?} additive {}", t, n, w, add),
                            |h| {
                                let inp = inputs(n, 0);
                                for p in 0..6 {
                                    let ls: Vec<Lay> = w.iter().enumerate().map(|(i, k)| Lay { pose: i, w: ws[*k], jw: (p + i) % 6 }).collect();
                                    let ad: Vec<Lay> = (0..add).map(|i| Lay { pose: 3 + i % 2, w: [0.5, -0.5, -1.25][i], jw: (p * 2 + i) % 6 }).collect();
                                    let mut out = sentinel_pose(n.div_ceil(4), 1);
                                    let mut j: BlendingJob<&Skeleton, &[SoaTransform], &mut [SoaTransform]> = BlendingJob::default();
                                    j.set_skeleton(&inp.skel);
                                    j.set_threshold(t);
                                    *j.layers_mut() = layers(&inp, &ls, 0);
                                    *j.additive_layers_mut() = layers(&inp, &ad, 0);
                                    j.set_output(&mut out);
                                    let r = j.run();
                                    herr(h, &r);
                                    drop(j);
                                    hpose(h, &out);
                                }
                            },
                        );
                    }
                });
            }
        }
    }
}

fn motion(d: &mut D) {
    d.suite(4);
    let ws = [1.0f32, 0.3, 0.0, -1.0, 2.5, 1e-7];
    tuples(ws.len(), 3, |w| {
        for s in 0..10usize {
            d.case(
                || format!("weights {:?} deltas {}", w, s),
                |h| {
                    let mut j = MotionBlendingJob::default();
                    for (i, k) in w.iter().enumerate() {
                        j.layers_mut().push(MotionBlendingLayer { weight: ws[*k], delta: delta((i * 2 + s) % 6, (i + s * 3) % 5) });
                    }
                    herr(h, &j.run());
                    let o = j.output();
                    h.fs(&o.translation.to_array()).fs(&o.rotation.to_array()).fs(&o.scale.to_array());
                },
            );
        }
    });
}

fn l2m(d: &mut D) {
    d.suite(5);
    let mut hs = Vec::new();
    for n in 1..=(if d.thorough { 7 } else { 5 }) {
        hs.extend(hierarchies(n));
    }
    hs.push(big_hierarchy(37));
    hs.push(big_hierarchy(130));
    for (i, p) in hs.iter().enumerate() {
        d.case(
            || format!("hierarchy {:?}", p),
            |h| {
                let n = p.len();
                let mut s = Skel::of(p);
                s.rest = (0..n).map(|i| local(i, 1)).collect();
                let x = load_skel(&s);
                for var in 0..3 {
                    let pose = soa_pose(&(0..n).map(|j| local(j, var + i)).collect::<Vec<_>>(), n.div_ceil(4));
                    for (from, to, ex) in [(-1, 1024, false), (n as i32 / 2, 1024, false), (n as i32 / 2, 1024, true), (1, n as i32 - 2, false)] {
                        let mut out = sentinel_mats(n, 0);
                        let mut j: LocalToModelJobRef = LocalToModelJob::default();
                        j.set_skeleton(&x);
                        j.set_input(&pose);
                        j.set_output(&mut out);
                        j.set_from(from);
                        j.set_to(to);
                        j.set_from_excluded(ex);
                        if var == 2 {
                            j.set_root(&mat(i % 9));
                        }
                        let r = j.run();
                        herr(h, &r);
                        drop(j);
                        for m in &out {
                            h.fs(&m.to_cols_array());
                        }
                    }
                }
            },
        );
    }
}

fn run_skin(h: &mut Fnv, n: usize, count: usize, mode: usize, ms: &[Mat4], its: &[Mat4], w: &dyn Fn(usize) -> f32, v: &dyn Fn(usize, usize) -> Vec3) {
    let indices: Vec<u16> = (0..count * n).map(|i| ((i * 7 + i / 3) % ms.len()) as u16).collect();
    let weights: Vec<f32> = (0..count * n).map(w).collect();
    let ins: Vec<Vec<Vec3>> = (0..3).map(|k| (0..count).map(|i| v(k, i)).collect()).collect();
    let mut outs: Vec<Vec<Vec3>> = vec![vec![Vec3::ZERO; count]; 3];
    {
        let mut o = outs.iter_mut();
        let mut j: SkinningJobRef = SkinningJob::default();
        j.set_vertex_count(count);
        j.set_influences_count(n);
        j.set_joint_matrices(ms);
        j.set_joint_indices(&indices);
        j.set_joint_weights(&weights);
        if mode >= 3 {
            j.set_joint_it_matrices(its);
        }
        j.set_in_positions(&ins[0]);
        j.set_out_positions(o.next().unwrap());
        if mode % 3 >= 1 {
            j.set_in_normals(&ins[1]);
            j.set_out_normals(o.next().unwrap());
        }
        if mode % 3 >= 2 {
            j.set_in_tangents(&ins[2]);
            j.set_out_tangents(o.next().unwrap());
        }
        let r = j.run();
        herr(h, &r);
    }
    for v in outs.iter().flatten() {
        h.fs(&v.to_array());
    }
}

fn skinning(d: &mut D) {
    d.suite(6);
    for n in 1..=7usize {
        for mode in 0..6 {
            for count in [1usize, 2, 3, 4, 5, 16, 33] {
                d.case(
                    || format!("{} influences, mode {}, {} vertices", n, mode, count),
                    |h| {
                        let ms: Vec<Mat4> = (0..9).map(mat).collect();
                        let its: Vec<Mat4> = (0..9).map(mat_it).collect();
                        run_skin(h, n, count, mode, &ms, &its, &|i| [0.125f32, 0.3, 0.0, 0.0625, -0.2][(i * 3 + i / 5) % 5], &vert);
                    },
                );
            }
        }
    }
}

fn v3a(v: V) -> Vec3A {
    Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32)
}

fn m4(m: &M) -> Mat4 {
    Mat4::from_cols_array_2d(&m.map(|c| c.map(|x| x as f32)))
}

fn ik(d: &mut D) {
    d.suite(7);
    let ps = placements();
    let ds = dirs();
    for (pi, p) in ps.iter().enumerate() {
        for (li, (l1, l2)) in [(1.0, 1.0), (1.0, 0.4), (0.3, 2.0)].iter().enumerate() {
            for (bi, bend) in [0.0, 0.9, -1.7, 3.14159].iter().enumerate() {
                d.case(
                    || format!("placement {} bones {} {} bend {}: every target, pole, twist, weight", pi, l1, l2, bend),
                    |h| {
                        let c = chain(p, *l1, *l2, *bend, qaxis([1.0, 0.4, 0.2], 0.3 + li as f64), qaxis([0.1, 1.0, 0.0], bi as f64), 1.0, bi == 2);
                        for (di, dir) in ds.iter().enumerate() {
                            for (ti, t) in [0.0, 0.2, 0.7, 1.2, 2.0, 5.0].iter().enumerate() {
                                let mut j = IKTwoBoneJob::default();
                                j.set_start_joint(m4(&c.start));
                                j.set_mid_joint(m4(&c.mid));
                                j.set_end_joint(m4(&c.end));
                                j.set_mid_axis(v3a(c.axis));
                                j.set_target(v3a(mpoint(p, vmul(*dir, *t))));
                                j.set_pole_vector(v3a(ds[(di * 5 + ti * 3 + 2) % ds.len()]));
                                j.set_twist_angle([0.0, 1.1, -2.5, 7.0][(di + ti) % 4]);
                                j.set_soften([1.0, 0.6, 0.0][(di + 2 * ti) % 3]);
                                j.set_weight([1.0, 0.35, 1.0, 0.0][(di * 3 + ti) % 4]);
                                herr(h, &j.run());
                                h.fs(&j.start_joint_correction().to_array()).fs(&j.mid_joint_correction().to_array()).u64(j.reached() as u64);
                            }
                        }
                    },
                );
            }
        }
    }
    d.suite(8);
    for (pi, p) in ps.iter().enumerate() {
        for (fi, f) in ds.iter().enumerate() {
            d.case(
                || format!("placement {} forward {:?}: every target, offset, up, pole", pi, f),
                |h| {
                    for (ti, t) in ds.iter().enumerate() {
                        for (oi, off) in [[0.0; 3], [0.2, -0.4, 0.6], [3.0, 0.5, 0.0]].iter().enumerate() {
                            let mut j = IKAimJob::default();
                            j.set_joint(m4(p));
                            j.set_forward(v3a(*f));
                            j.set_offset(v3a(*off));
                            j.set_up(v3a(ds[(fi + ti * 7 + oi) % ds.len()]));
                            j.set_target(v3a(mpoint(p, vmul(*t, [0.1, 1.0, 12.0][(ti + oi + fi) % 3]))));
                            j.set_pole_vector(v3a(ds[(fi * 3 + ti) % ds.len()]));
                            j.set_twist_angle([0.0, 1.1, -2.5, 7.0][(fi + ti) % 4]);
                            j.set_weight([1.0, 0.35, 1.0][(ti + fi) % 3]);
                            herr(h, &j.run());
                            h.fs(&j.joint_correction().to_array()).u64(j.reached() as u64);
                        }
                    }
                },
            );
        }
    }
}

fn track_values<V: Flat>(h: &mut Fnv, t: &Trk) {
    let x: Track<V> = load_track(t);
    let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
    j.set_track(&x);
    for i in -3..=60 {
        j.set_ratio(i as f32 / 53.0);
        herr(h, &j.run());
        h.fs(&j.result().flat());
    }
}

fn any_track(h: &mut Fnv, t: &Trk) {
    match t.kind {
        0 => track_values::<f32>(h, t),
        1 => track_values::<Vec2>(h, t),
        2 => track_values::<Vec3>(h, t),
        3 => track_values::<Vec4>(h, t),
        _ => track_values::<Quat>(h, t),
    }
}

fn tracks(d: &mut D) {
    d.suite(9);
    for kind in 0..5 {
        for n in [1usize, 2, 3, 8, 9, 17] {
            for s in 0..4usize {
                d.case(
                    || format!("track kind {} with {} keys, step pattern {}", kind, n, s),
                    |h| any_track(h, &trk(kind, n, s, (0..n).map(|i| (i * (s + 1) / 2) % 2 == 1).collect())),
                );
            }
        }
    }
    d.suite(10);
    for n in [1usize, 2, 3, 5, 9, 16] {
        for s in 0..8usize {
            for t in [0.0f32, 0.3, -0.77, 5.0] {
                d.case(
                    || format!("{} keys, pattern {}, threshold {}: every window", n, s, t),
                    |h| {
                        let x: Track<f32> = load_track(&trk(0, n, s, (0..n).map(|i| (i + s) % 3 == 0).collect()));
                        for a in -14..=14 {
                            for b in -14..=14 {
                                let mut j: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
                                j.set_track(&x);
                                j.set_from(a as f32 * 0.173);
                                j.set_to(b as f32 * 0.219);
                                j.set_threshold(t);
                                match j.run() {
                                    Ok(it) => {
                                        for e in it {
                                            hjson(h, &e);
                                        }
                                    }
                                    Err(e) => {
                                        h.str(&format!("{:?}", e));
                                    }
                                }
                            }
                        }
                    },
                );
            }
        }
    }
}

/// Archives of every kind, small.
fn archives() -> Vec<(String, usize, Box<dyn Fn(bool) -> Vec<u8>>)> {
    let mut v: Vec<(String, usize, Box<dyn Fn(bool) -> Vec<u8>>)> = Vec::new();
    for n in [1usize, 3, 5, 9] {
        v.push((format!("animation of {} tracks", n), 0, Box::new(move |b| sample_anim(n).bytes(b))));
        v.push((format!("skeleton of {} joints", n), 1, Box::new(move |b| skel(&big_hierarchy(n), n).bytes(b))));
        for kind in 0..5 {
            v.push((format!("track kind {} of {} keys", kind, n), 2 + kind, Box::new(move |b| trk(kind, n, n, (0..n).map(|i| i % 2 == 0).collect()).bytes(b))));
        }
    }
    v.push(("empty animation".into(), 0, Box::new(|b| empty_anim().bytes(b))));
    v.push(("wide animation".into(), 0, Box::new(|b| build(&(0..300).map(|i| i as f32 / 299.0).collect::<Vec<_>>(), &scattered(3, 298, 2), [0.1, 0.0, 0.25]).bytes(b))));
    v
}

fn load_any(h: &mut Fnv, kind: usize, bytes: &[u8], deep: bool) {
    fn tr<V: Flat + serde::Serialize>(h: &mut Fnv, b: &[u8]) {
        let r = Archive::from_slice(b).and_then(|mut a| Track::<V>::from_archive(&mut a));
        herr(h, &r);
        if let Ok(t) = r {
            h.str(t.name()).fs(t.ratios()).bytes(t.steps());
            for v in t.values() {
                h.fs(&v.flat());
            }
        }
    }
    match kind {
        0 => {
            let r = Archive::from_slice(bytes).and_then(|mut a| Animation::from_archive(&mut a));
            herr(h, &r);
            if let (Ok(a), true) = (r, deep) {
                hjson(h, &a);
                h.f32(a.duration()).u64(a.num_tracks() as u64).str(a.name());
            }
        }
        1 => {
            let r = Archive::from_slice(bytes).and_then(|mut a| Skeleton::from_archive(&mut a));
            herr(h, &r);
            if let (Ok(s), true) = (r, deep) {
                hjson(h, &s);
                for (i, p) in s.joint_parents().iter().enumerate() {
                    h.u64(*p as u64).str(s.name_by_joint(i as i16).unwrap_or("?"));
                }
            }
        }
        2 => tr::<f32>(h, bytes),
        3 => tr::<Vec2>(h, bytes),
        4 => tr::<Vec3>(h, bytes),
        5 => tr::<Vec4>(h, bytes),
        _ => tr::<Quat>(h, bytes),
    }
}

fn loading(d: &mut D) {
    d.suite(11);
    for (name, kind, make) in archives() {
        for big in [false, true] {
            d.case(
                || format!("{} {}", name, if big { "big-endian" } else { "little-endian" }),
                |h| load_any(h, kind, &make(big), true),
            );
        }
    }
    d.suite(12);
    for (ai, (name, kind, make)) in archives().into_iter().enumerate() {
        if ai >= 14 {
            break;
        }
        let b = make(ai % 2 == 0);
        let step = if d.thorough { 1 } else { (b.len() / 200).max(1) };
        for at in (0..b.len()).step_by(step) {
            d.case(
                || format!("{} cut at {} and with byte {} changed", name, at, at),
                |h| {
                    load_any(h, kind, &b[..at], false);
                    // The first 40 bytes hold tag, version and counts.
                    if at < 64 {
                        for x in [0xffu8, 0x80, 0x01] {
                            let mut c = b.clone();
                            c[at] ^= x;
                            load_any(h, kind, &c, false);
                        }
                    }
                },
            );
        }
    }
}

fn skeletons(d: &mut D) {
    let sizes = [1usize, 2, 4, 7, 16, 33, 90, 200];
    d.suite(13);
    for n in sizes {
        d.case(
            || format!("skeleton of {} joints: queries and traversals", n),
            |h| {
                let x = load_skel(&skel(&big_hierarchy(n), 3));
                for j in -1..n as i16 {
                    x.iter_depth_first(j, |c, p| {
                        h.u64(c as u64).u64(p as u64);
                    });
                }
                x.iter_depth_first_reverse(|c, p| {
                    h.u64(c as u64).u64(p as u64);
                });
                let mut names: Vec<_> = x.joint_names().iter().map(|(n, i)| (n.clone(), *i)).collect();
                names.sort();
                for (n, i) in names {
                    h.str(&n).u64(i as u64);
                    h.u64(x.joint_by_name(&n).map(|v| v as u64 + 1).unwrap_or(0));
                }
                for j in 0..n as i16 {
                    h.u64(x.is_leaf(j) as u64).u64(x.joint_parent(j) as u64);
                }
                hpose(h, x.joint_rest_poses());
            },
        );
    }
    d.suite(ONE_TARGET);
    for n in sizes {
        d.case(
            || format!("skeleton of {} joints: order of the name map, serialised text and archived bytes", n),
            |h| {
                let x = load_skel(&skel(&big_hierarchy(n), 3));
                let y: Skeleton = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
                for s in [&x, &y] {
                    for (n, i) in s.joint_names().iter() {
                        h.str(n).u64(*i as u64);
                    }
                    h.str(&serde_json::to_string(s).unwrap());
                }
                h.bytes(&to_rkyv(&x));
            },
        );
        d.case(
            || format!("animation of {} tracks and track of {} keys: serialised text and archived bytes", n, n),
            |h| {
                let x = load_anim(&sample_anim(n));
                h.str(&serde_json::to_string(&x).unwrap());
                h.bytes(&to_rkyv(&x));
                let t: Track<Vec3> = load_track(&trk(2, n, n, (0..n).map(|i| i % 2 == 0).collect()));
                h.str(&serde_json::to_string(&t).unwrap());
                h.bytes(&to_rkyv(&t));
            },
        );
    }
}

fn keys(d: &mut D) {
    d.suite(14);
    for k in 0..256u32 {
        d.case(
            || format!("half-floats {:#x}..: one-key and four-key decoders", k << 8),
            |h| {
                for b in 0..256u32 {
                    let v = ((k << 8) + b) as u16;
                    let key = Float3Key::new([v, v ^ 0x8000, v.rotate_left(3)]);
                    h.fs(&key.decompress().to_array());
                    let mut out = SoaVec3::default();
                    Float3Key::simd_decompress(&key, &key, &Float3Key::new([v, 0, 1]), &key, &mut out);
                    h.fs(&out.x.to_array_()).fs(&out.y.to_array_()).fs(&out.z.to_array_());
                }
            },
        );
        d.case(
            || format!("rotation keys with first field {:#x}..", k << 8),
            |h| {
                for b in 0..256u32 {
                    let v = ((k << 8) + b) as u16;
                    let key = QuaternionKey::new([v, v.wrapping_mul(40503), v.wrapping_mul(28657).wrapping_add(77)]);
                    h.fs(&key.decompress().to_array());
                    let mut out = SoaQuat::default();
                    QuaternionKey::simd_decompress(&key, &key, &QuaternionKey::new([v ^ 5, v, v]), &key, &mut out);
                    h.fs(&out.x.to_array_()).fs(&out.y.to_array_()).fs(&out.z.to_array_()).fs(&out.w.to_array_());
                }
            },
        );
    }
}

trait ToArr {
    fn to_array_(self) -> [f32; 4];
}
impl ToArr for [f32; 4] {
    fn to_array_(self) -> [f32; 4] {
        self
    }
}
impl ToArr for std::simd::f32x4 {
    fn to_array_(self) -> [f32; 4] {
        self.to_array()
    }
}

/// Denormal, huge, infinite and undefined values through every job.
fn extremes(d: &mut D) {
    d.suite(15);
    for (ai, &a) in EXT.iter().enumerate() {
        for (bi, &b) in EXT.iter().enumerate() {
            d.case(
                || format!("values {:e} and {:e} in poses and motions", a, b),
                |h| {
                    let n = 4;
                    let inp = inputs(n, 0);
                    let xf = |k: usize| Xf {
                        t: [a, b, [a, b][k % 2]],
                        r: [[b, 0.5, a, 1.0], [a, a, 0.0, b]][(k / 2) % 2],
                        s: [b, 1.0, a],
                    };
                    let pose = soa_pose(&(0..n).map(xf).collect::<Vec<_>>(), 1);
                    for (t, w, aw) in [(0.1f32, 1.0f32, 0.0f32), (1.0, 0.3, 0.5), (0.5, a, b), (b, 1.0, -0.5), (0.1, b, 1.0)] {
                        let mut out = sentinel_pose(1, 1);
                        let mut j: BlendingJob<&Skeleton, &[SoaTransform], &mut [SoaTransform]> = BlendingJob::default();
                        j.set_skeleton(&inp.skel);
                        j.set_threshold(t);
                        for k in 0..2 {
                            j.layers_mut().push(BlendingLayer { transform: [&pose[..], &inp.poses[0][..]][k], weight: [w, 0.4][k], joint_weights: vec![] });
                        }
                        j.additive_layers_mut().push(BlendingLayer { transform: &pose[..], weight: aw, joint_weights: vec![] });
                        j.set_output(&mut out);
                        let r = j.run();
                        herr(h, &r);
                        drop(j);
                        hpose(h, &out);
                    }
                    let mut m = MotionBlendingJob::default();
                    for k in 0..2 {
                        m.layers_mut().push(MotionBlendingLayer { weight: [1.0, a][k], delta: glam_ext::Transform3A::new(Vec3::from(xf(k).t), Quat::from_array(xf(k * 2).r), Vec3::ONE) });
                    }
                    herr(h, &m.run());
                    let o = m.output();
                    h.fs(&o.translation.to_array()).fs(&o.rotation.to_array());
                    // Local to model.
                    let s = load_skel(&Skel::of(&[-1, 0, 1, 1]));
                    let mut out = sentinel_mats(4, 0);
                    let mut j: LocalToModelJobRef = LocalToModelJob::default();
                    j.set_skeleton(&s);
                    j.set_input(&pose);
                    j.set_output(&mut out);
                    let r = j.run();
                    herr(h, &r);
                    drop(j);
                    for m in &out {
                        h.fs(&m.to_cols_array());
                    }
                },
            );
            d.case(
                || format!("values {:e} and {:e} in skinning, IK and tracks", a, b),
                |h| {
                    let ms: Vec<Mat4> = (0..4).map(|k| mat(k) * [1.0, a, b, 0.5][k]).collect();
                    for n in 1..=5 {
                        run_skin(h, n, 5, 5, &ms, &ms, &|i| [0.2, b, 0.1][i % 3], &|k, i| Vec3::new([a, b][(i + k) % 2], 0.5, b));
                    }
                    for k in 0..8usize {
                        let f = |p: usize, v: f32, o: f32| if k == p { v } else { o };
                        let p = &placements()[ai % 7];
                        let c = chain(p, 1.0, 0.8, 0.9, qaxis([1.0, 0.4, 0.2], 0.3), qaxis([0.1, 1.0, 0.0], bi as f64), 1.0, false);
                        let mut j = IKTwoBoneJob::default();
                        j.set_start_joint(m4(&c.start));
                        j.set_mid_joint(m4(&c.mid) * f(6, a, 1.0));
                        j.set_end_joint(m4(&c.end));
                        j.set_mid_axis(v3a(c.axis));
                        j.set_target(Vec3A::new(f(0, a, 0.3), f(1, b, 0.4), f(0, b, -0.2)));
                        j.set_pole_vector(Vec3A::new(f(2, a, 0.0), f(2, b, 1.0), 0.0));
                        j.set_twist_angle(f(3, a, 0.2));
                        j.set_soften(f(4, b, 0.9));
                        j.set_weight(f(5, a, 1.0));
                        herr(h, &j.run());
                        h.fs(&j.start_joint_correction().to_array()).fs(&j.mid_joint_correction().to_array()).u64(j.reached() as u64);
                        let mut j = IKAimJob::default();
                        j.set_joint(m4(p) * f(6, a, 1.0));
                        j.set_forward(Vec3A::new(1.0, 0.0, 0.0));
                        j.set_offset(Vec3A::new(f(7, a, 0.0), f(7, b, 0.1), 0.0));
                        j.set_up(Vec3A::new(f(2, b, 0.0), 1.0, 0.0));
                        j.set_target(Vec3A::new(f(0, a, 0.3), f(1, b, 0.4), f(0, b, -0.2)));
                        j.set_pole_vector(Vec3A::new(0.0, f(4, a, 1.0), f(4, b, 0.0)));
                        j.set_twist_angle(f(3, a, 0.2));
                        j.set_weight(f(5, a, 1.0));
                        herr(h, &j.run());
                        h.fs(&j.joint_correction().to_array()).u64(j.reached() as u64);
                    }
                    for kind in 0..5 {
                        let mut t = trk(kind, 4, 1, vec![false, true, false, false]);
                        for (i, v) in t.values.iter_mut().enumerate() {
                            let l = v.len();
                            v[i % l] = [a, b][i % 2];
                        }
                        any_track(h, &t);
                    }
                    // Sampling at extreme ratios.
                    let x = load_anim(&sample_anim(5));
                    let mut cx = SamplingContext::new(5);
                    let mut out = vec![SoaTransform::default(); 2];
                    for r in [a, 0.5, b, 0.25, a] {
                        herr(h, &sample_into(&x, &mut cx, r, &mut out));
                        hpose(h, &out);
                    }
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// Native worker

/// Arguments: FILE SHARD SHARDS TIER, and for a single case also SUITE ORDINAL.
#[cfg(not(target_arch = "wasm32"))]
pub fn command(a: &[String]) {
    use std::io::Write;
    let mut d = D::new(a[1].parse().unwrap(), a[2].parse().unwrap(), a[3] == "thorough");
    install_panic_hook();
    if a.len() > 5 {
        d.only = Some((a[4].parse().unwrap(), a[5].parse().unwrap()));
    }
    run(&mut d);
    if let Some((desc, what)) = &d.described {
        println!("{}\n{}", desc, what);
    }
    let mut b = Vec::with_capacity(d.out.len() * 16);
    for (k, h) in &d.out {
        b.extend_from_slice(&k.to_le_bytes());
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::File::create(&a[0]).unwrap().write_all(&b).unwrap();
}

// ---------------------------------------------------------------------------------------------------
// WebAssembly exports

#[cfg(target_arch = "wasm32")]
static mut CURRENT: [u32; 2] = [0; 2];
#[cfg(target_arch = "wasm32")]
static mut RESULT: Vec<u64> = Vec::new();

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn diff_run(shard: u32, nshards: u32, thorough: u32) -> u32 {
    let mut d = D::new(shard as u64, nshards as u64, thorough != 0);
    run(&mut d);
    #[allow(static_mut_refs)]
    unsafe {
        RESULT = d.out.iter().flat_map(|(k, h)| [*k, *h]).collect();
        RESULT.len() as u32
    }
}

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn diff_one(suite: u32, ordinal: u32, thorough: u32) -> u32 {
    let mut d = D::new(0, 1, thorough != 0);
    d.only = Some((suite as usize, ordinal as u64));
    run(&mut d);
    #[allow(static_mut_refs)]
    unsafe {
        RESULT = d.out.iter().flat_map(|(k, h)| [*k, *h]).collect();
        RESULT.len() as u32
    }
}

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn diff_ptr() -> u32 {
    #[allow(static_mut_refs)]
    unsafe {
        RESULT.as_ptr() as u32
    }
}

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn diff_current(k: u32) -> u32 {
    unsafe { CURRENT[k as usize & 1] }
}
