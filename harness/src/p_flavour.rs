//! C21: every way of giving a job its buffers and assets yields the same bits.

use crate::assets::*;
use crate::core::*;
use crate::p_blend::{blend_skel, jws, pose, Lay};
use crate::p_skin::{mat, mat_it, vert};
use crate::util::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::sampling_job::AsSamplingContext;
use ozz_animation_rs::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

/// `$b` becomes a closure giving the asset in the current flavour.
macro_rules! each_obj {
    ($v:expr, $n:ident, $b:ident, $body:block) => {{
        {
            let $n = "value";
            let $b = || $v();
            $body
        }
        {
            let $n = "reference";
            let t = $v();
            let $b = || &t;
            $body
        }
        {
            let $n = "Rc";
            let t = Rc::new($v());
            let $b = || t.clone();
            $body
        }
        {
            let $n = "Arc";
            let t = Arc::new($v());
            let $b = || t.clone();
            $body
        }
    }};
}

macro_rules! each_mut {
    ($v:expr, $n:ident, $b:ident, $body:block) => {{
        {
            let $n = "&mut [T]";
            let mut t = $v.clone();
            let $b = &mut t[..];
            $body
        }
        {
            let $n = "Vec";
            let $b = $v.clone();
            $body
        }
        {
            let $n = "Rc<RefCell>";
            let $b = Rc::new(RefCell::new($v.clone()));
            $body
        }
        {
            let $n = "Arc<RwLock>";
            let $b = Arc::new(RwLock::new($v.clone()));
            $body
        }
    }};
}

macro_rules! each_in {
    ($v:expr, $n:ident, $b:ident, $body:block) => {{
        {
            let $n = "&[T]";
            let t = $v.clone();
            let $b = &t[..];
            $body
        }
        each_mut!($v, $n, $b, $body)
    }};
}

/// Another handle to a shared buffer, kept while the job runs.
enum Watcher<T> {
    Cell(std::rc::Weak<RefCell<Vec<T>>>, Option<Rc<RefCell<Vec<T>>>>),
    Lock(std::sync::Weak<RwLock<Vec<T>>>, Option<Arc<RwLock<Vec<T>>>>),
}

impl<T: Clone> Watcher<T> {
    /// What the other handle shows.
    fn get(&self) -> Result<Vec<T>, String> {
        match self {
            Watcher::Cell(w, s) => {
                let b = w.upgrade().ok_or("the shared buffer was given up while the job holds it")?;
                ensure!(s.as_ref().is_none_or(|s| Rc::ptr_eq(s, &b)), "the handles differ");
                let v = b.try_borrow().map_err(|_| "the buffer is still borrowed after the run")?;
                Ok(v.clone())
            }
            Watcher::Lock(w, s) => {
                let b = w.upgrade().ok_or("the shared buffer was given up while the job holds it")?;
                ensure!(s.as_ref().is_none_or(|s| Arc::ptr_eq(s, &b)), "the handles differ");
                let v = b.try_write().map_err(|_| "the buffer is still locked after the run")?;
                Ok(v.clone())
            }
        }
    }
    /// Replaces the content through the other handle.
    fn set(&self, v: &[T]) -> Result<(), String> {
        match self {
            Watcher::Cell(w, _) => *w.upgrade().ok_or("gone")?.try_borrow_mut().map_err(|_| "still borrowed")? = v.to_vec(),
            Watcher::Lock(w, _) => *w.upgrade().ok_or("gone")?.try_write().map_err(|_| "still locked")? = v.to_vec(),
        }
        Ok(())
    }
}

/// Buffers of which another handle can be kept: a weak one or a strong one.
trait Watch<T> {
    fn watch(&self, _strong: bool) -> Option<Watcher<T>> {
        None
    }
}
impl<T> Watch<T> for &[T] {}
impl<T> Watch<T> for &mut [T] {}
impl<T> Watch<T> for Vec<T> {}
impl<T> Watch<T> for Rc<RefCell<Vec<T>>> {
    fn watch(&self, strong: bool) -> Option<Watcher<T>> {
        Some(Watcher::Cell(Rc::downgrade(self), strong.then(|| self.clone())))
    }
}
impl<T> Watch<T> for Arc<RwLock<Vec<T>>> {
    fn watch(&self, strong: bool) -> Option<Watcher<T>> {
        Some(Watcher::Lock(Arc::downgrade(self), strong.then(|| self.clone())))
    }
}

/// Every handle to the buffer, also weak ones and those taken later, shows the `want`ed content.
fn seen<T: Clone, B: Watch<T>>(w: &Option<Watcher<T>>, b: &B, bits: impl Fn(&[T]) -> Vec<u32>, want: &[u32]) -> Result<(), String> {
    if let Some(w) = w {
        ensure!(bits(&w.get()?) == want, "another handle to the buffer does not show what the job does");
        ensure!(bits(&b.watch(false).unwrap().get()?) == want, "a new handle to the buffer does not show what the job does");
    }
    Ok(())
}

fn v3_bits(v: &[Vec3]) -> Vec<u32> {
    v.iter().flat_map(|v| v.to_array().map(f32::to_bits)).collect()
}

fn sample<A: OzzObj<Animation>, O: OzzMutBuf<SoaTransform> + Watch<SoaTransform>, C: AsSamplingContext>(a: A, o: O, c: C, ratios: &[f32]) -> Result<Vec<u32>, String> {
    let mut j: SamplingJob<A, O, C> = SamplingJob::default();
    j.set_animation(a);
    j.set_context(c);
    j.set_output(o);
    let mut v = Vec::new();
    for (k, r) in ratios.iter().enumerate() {
        let watch = j.output().unwrap().watch(k % 2 == 1);
        j.set_ratio(*r);
        ensure!(j.validate(), "valid job refused");
        j.run().map_err(|e| format!("{:?}", e))?;
        let out = pose_bits(&j.output().unwrap().buf().map_err(|e| format!("{:?}", e))?);
        seen(&watch, j.output().unwrap(), pose_bits, &out)?;
        v.extend(out);
    }
    Ok(v)
}

fn blend<S: OzzObj<Skeleton>, I: OzzBuf<SoaTransform> + Watch<SoaTransform>, O: OzzMutBuf<SoaTransform> + Watch<SoaTransform>>(s: S, ins: Vec<I>, w: &[Lay], nadd: usize, o: O) -> Result<(Vec<u32>, Vec<u32>), String> {
    let soa = s.obj().num_soa_joints();
    let mut j: BlendingJob<S, I, O> = BlendingJob::default();
    j.set_skeleton(s);
    j.set_threshold(0.4);
    let n = ins.len();
    for (k, (i, l)) in ins.into_iter().zip(w).enumerate() {
        let layer = BlendingLayer { transform: i, weight: l.w, joint_weights: jws(l.jw, soa) };
        if k >= n - nadd {
            j.additive_layers_mut().push(layer)
        } else {
            j.layers_mut().push(layer)
        }
    }
    j.set_output(o);
    ensure!(j.validate(), "valid job refused");
    let mut out = Vec::new();
    for strong in [false, true] {
        let watch = j.output().unwrap().watch(strong);
        let win: Vec<_> = j.layers().iter().chain(j.additive_layers()).map(|l| (l.transform.watch(strong), pose_bits(&l.transform.buf().unwrap()))).collect();
        if let (Some(w), true) = (&watch, strong) {
            // The result is the job's alone, whatever the other handle wrote before.
            w.set(&sentinel_pose(w.get()?.len(), 2))?;
        }
        j.run().map_err(|e| format!("{:?}", e))?;
        out = pose_bits(&j.output().unwrap().buf().map_err(|e| format!("{:?}", e))?);
        seen(&watch, j.output().unwrap(), pose_bits, &out)?;
        for ((w, b), l) in win.iter().zip(j.layers().iter().chain(j.additive_layers())) {
            seen(w, &l.transform, pose_bits, b)?;
        }
    }
    let ins = j.layers().iter().chain(j.additive_layers()).flat_map(|l| pose_bits(&l.transform.buf().unwrap())).collect();
    Ok((out, ins))
}

fn l2m<S: OzzObj<Skeleton>, I: OzzBuf<SoaTransform> + Watch<SoaTransform>, O: OzzMutBuf<Mat4> + Watch<Mat4>>(s: S, i: I, o: O, from: i32, ex: bool) -> Result<(Vec<u32>, Vec<u32>), String> {
    let mut j: LocalToModelJob<S, I, O> = LocalToModelJob::default();
    j.set_skeleton(s);
    j.set_input(i);
    j.set_output(o);
    j.set_root(&mat(2));
    j.set_from(from);
    j.set_from_excluded(ex);
    ensure!(j.validate(), "valid job refused");
    let i = pose_bits(&j.input().unwrap().buf().unwrap());
    let mut out = Vec::new();
    for strong in [false, true] {
        let watch = (j.output().unwrap().watch(strong), j.input().unwrap().watch(strong));
        j.run().map_err(|e| format!("{:?}", e))?;
        out = mat_bits(&j.output().unwrap().buf().map_err(|e| format!("{:?}", e))?);
        seen(&watch.0, j.output().unwrap(), mat_bits, &out)?;
        seen(&watch.1, j.input().unwrap(), pose_bits, &i)?;
    }
    let i = pose_bits(&j.input().unwrap().buf().unwrap());
    Ok((out, i))
}

struct SkinIn {
    n: usize,
    m: Vec<Mat4>,
    it: Vec<Mat4>,
    ix: Vec<u16>,
    w: Vec<f32>,
    v: [Vec<Vec3>; 3],
    out: Vec<Vec3>,
}

#[allow(clippy::too_many_arguments)]
fn skin<JM: OzzBuf<Mat4> + Watch<Mat4>, JI: OzzBuf<u16>, JW: OzzBuf<f32>, I: OzzBuf<Vec3> + Watch<Vec3>, O: OzzMutBuf<Vec3> + Watch<Vec3>>(
    n: usize, mode: usize, m: JM, it: JM, ix: JI, w: JW, i: [I; 3], o: [O; 3],
) -> Result<(Vec<u32>, Vec<u32>), String> {
    let mut j: SkinningJob<JM, JI, JW, I, O> = SkinningJob::default();
    j.set_vertex_count(5);
    j.set_influences_count(n);
    j.set_joint_matrices(m);
    if mode % 2 == 1 {
        j.set_joint_it_matrices(it);
    }
    j.set_joint_indices(ix);
    j.set_joint_weights(w);
    let [a, b, c] = i;
    let [x, y, z] = o;
    j.set_in_positions(a);
    j.set_out_positions(x);
    if mode / 2 >= 1 {
        j.set_in_normals(b);
        j.set_out_normals(y);
    }
    if mode / 2 >= 2 {
        j.set_in_tangents(c);
        j.set_out_tangents(z);
    }
    ensure!(j.validate(), "valid job refused");
    let mut out = Vec::new();
    for strong in [false, true] {
        out.clear();
        let watch: Vec<_> = [j.out_positions(), j.out_normals(), j.out_tangents()].into_iter().flatten().map(|b| b.watch(strong)).collect();
        j.run().map_err(|e| format!("{:?}", e))?;
        for (b, w) in [j.out_positions(), j.out_normals(), j.out_tangents()].into_iter().flatten().zip(&watch) {
            let bits = v3_bits(&b.buf().map_err(|e| format!("{:?}", e))?);
            seen(w, b, v3_bits, &bits)?;
            out.extend(bits);
        }
    }
    let mut ins = Vec::new();
    for b in [j.in_positions(), j.in_normals(), j.in_tangents()].into_iter().flatten() {
        ins.extend(v3_bits(&b.buf().unwrap()));
    }
    ins.extend(mat_bits(&j.joint_matrices().unwrap().buf().unwrap()));
    ins.extend(j.joint_indices().unwrap().buf().unwrap().iter().map(|x| *x as u32));
    ins.extend(j.joint_weights().unwrap().buf().unwrap().iter().map(|x| x.to_bits()));
    Ok((out, ins))
}

fn track_values<V: Flat, T: OzzObj<Track<V>>>(t: T, ratios: &[f32]) -> Result<Vec<u32>, String> {
    let mut j: TrackSamplingJob<V, T> = TrackSamplingJob::default();
    j.set_track(t);
    let mut v = Vec::new();
    for r in ratios {
        j.set_ratio(*r);
        j.run().map_err(|e| format!("{:?}", e))?;
        v.extend(j.result().flat().iter().map(|f| f.to_bits()));
    }
    Ok(v)
}

fn track_edges<T: OzzObj<Track<f32>>>(t: T, win: &[f32]) -> Result<Vec<Edge>, String> {
    let mut j: TrackTriggeringJob<T> = TrackTriggeringJob::default();
    j.set_track(t);
    j.set_threshold(0.25);
    let mut v = Vec::new();
    for a in win {
        for b in win {
            j.set_from(*a);
            j.set_to(*b);
            v.extend(j.run().map_err(|e| format!("{:?}", e))?);
        }
    }
    Ok(v)
}

/// Remembers the first flavour's result and compares the others with it.
struct Same<T>(Option<(String, T)>);
impl<T: PartialEq + std::fmt::Debug> Same<T> {
    fn put(&mut self, name: String, v: T) -> Result<(), String> {
        match &self.0 {
            None => self.0 = Some((name, v)),
            Some((n, w)) => ensure!(*w == v, "{} gives another result than {}", name, n),
        }
        Ok(())
    }
}

pub fn c21(ctx: &mut Ctx) {
    let ratios = [0.0f32, 0.3, 0.9, 0.2, 1.0, 0.55];
    ctx.suite("sampling", |ctx| {
        for n in 0..=ctx.more(ctx.pick(12usize, 40), 200) {
            for extra in 0..2usize {
                ctx.case(
                    || format!("animation of {} tracks, output longer by {}", n, extra),
                    |st| {
                        let a = crate::p_sampling::sample_anim(n);
                        let bytes = a.bytes(true);
                        let anim = || load_anim_bytes(&bytes).unwrap();
                        let out = sentinel_pose(n.div_ceil(4) + extra, 1);
                        let mut same = Same(None);
                        each_obj!(anim, na, x, {
                            each_mut!(out, no, o, {
                                let mut c1 = SamplingContext::new(n);
                                same.put(format!("{} {} borrowed context", na, no), sample(x(), o, &mut c1, &ratios)?)?;
                                st.transition();
                            });
                        });
                        each_obj!(anim, na, x, {
                            let mut o = out.clone();
                            same.put(format!("{} owned context", na), sample(x(), &mut o[..], SamplingContext::new(n), &ratios)?)?;
                        });
                        Ok(hash_bits(&same.0.unwrap().1))
                    },
                );
            }
        }
    });
    ctx.suite("blending", |ctx| {
        for n in [1usize, 3, 4, 5, 9, 13] {
            for v in 0..ctx.more(ctx.pick(6usize, 30), 300) {
                ctx.case(
                    || format!("{} joints, variant {}", n, v),
                    |st| {
                        let ws = [1.0f32, 0.3, -0.5, 0.0, 2.0, 0.05];
                        let count = v % 4;
                        let lays: Vec<Lay> = (0..count).map(|k| Lay { pose: k, w: ws[(k * 2 + v) % 6], jw: (k + v) % 4 }).collect();
                        let nadd = if count > 1 { v % 2 } else { 0 };
                        let bytes = blend_skel(n).bytes(true);
                        let skel = || load_skel_bytes(&bytes).unwrap();
                        let soa = n.div_ceil(4);
                        let poses: Vec<Vec<SoaTransform>> = (0..4).map(|k| soa_pose(&pose(k, soa * 4), soa)).collect();
                        let out = sentinel_pose(soa + v % 2, 2);
                        let mut same = Same(None);
                        each_obj!(skel, ns, s, {
                            // Several inputs of one flavour.
                            each_mut!(out, no, o, { same.put(format!("{} &[T] {}", ns, no), blend(s(), poses[..count].iter().map(|p| &p[..]).collect(), &lays, nadd, o)?)? });
                            each_mut!(out, no, o, { same.put(format!("{} Vec {}", ns, no), blend(s(), poses[..count].to_vec(), &lays, nadd, o)?)? });
                            each_mut!(out, no, o, {
                                let mut p = poses[..count].to_vec();
                                same.put(format!("{} &mut [T] {}", ns, no), blend(s(), p.iter_mut().map(|p| &mut p[..]).collect(), &lays, nadd, o)?)?
                            });
                            each_mut!(out, no, o, {
                                same.put(format!("{} Rc<RefCell> {}", ns, no), blend(s(), poses[..count].iter().map(|p| Rc::new(RefCell::new(p.clone()))).collect(), &lays, nadd, o)?)?
                            });
                            each_mut!(out, no, o, {
                                same.put(format!("{} Arc<RwLock> {}", ns, no), blend(s(), poses[..count].iter().map(|p| Arc::new(RwLock::new(p.clone()))).collect(), &lays, nadd, o)?)?
                            });
                            st.transition();
                        });
                        each_obj!(skel, ns, s, { same.put(ns.to_string(), blend(s(), poses[..count].to_vec(), &lays, nadd, out.clone())?)? });
                        let (o, i) = same.0.unwrap().1;
                        ensure!(i == poses[..count].iter().flat_map(|p| pose_bits(p)).collect::<Vec<_>>(), "an input pose was modified");
                        Ok(hash_bits(&o))
                    },
                );
            }
        }
    });
    ctx.suite("local-to-model", |ctx| {
        for h in (1..=ctx.more(ctx.pick(4usize, 6), 9)).flat_map(hierarchies) {
            ctx.case(
                || format!("hierarchy {:?}", h),
                |st| {
                    let n = h.len();
                    let bytes = Skel::of(&h).bytes(true);
                    let skel = || load_skel_bytes(&bytes).unwrap();
                    let soa = n.div_ceil(4);
                    let input = soa_pose(&pose(1, soa * 4), soa);
                    let out = sentinel_mats(n + 1, 4);
                    let mut hh = 0;
                    for from in -1..n as i32 {
                        for ex in [false, true] {
                            let mut same = Same(None);
                            each_obj!(skel, ns, s, {
                                    each_in!(input, ni, i, {
                                    same.put(format!("{} {}", ns, ni), l2m(s(), i, out.clone(), from, ex)?)?;
                                });
                                each_mut!(out, no, o, { same.put(format!("{} {}", ns, no), l2m(s(), input.clone(), o, from, ex)?)? });
                                each_mut!(out, no, o, { same.put(format!("{} {}", ns, no), l2m(s(), Arc::new(RwLock::new(input.clone())), o, from, ex)?)? });
                                each_mut!(out, no, o, { same.put(format!("{} {}", ns, no), l2m(s(), Rc::new(RefCell::new(input.clone())), o, from, ex)?)? });
                                each_mut!(out, no, o, { same.put(format!("{} {}", ns, no), l2m(s(), &input[..], o, from, ex)?)? });
                                st.transition();
                            });
                            each_obj!(skel, ns, s, { same.put(ns.to_string(), l2m(s(), input.clone(), out.clone(), from, ex)?)? });
                            let (o, i) = same.0.unwrap().1;
                            ensure!(i == pose_bits(&input), "the input pose was modified");
                            hh ^= hash_bits(&o);
                        }
                    }
                    Ok(hh)
                },
            );
        }
    });
    ctx.suite("skinning", |ctx| {
        for n in 1..=ctx.more(ctx.pick(6usize, 9), 40) {
            for mode in 0..6usize {
                for long in 0..2usize {
                    ctx.case(
                        || format!("{} influences, attribute mode {}, buffers longer by {}", n, mode, long),
                        |st| {
                            let s = SkinIn {
                                n,
                                m: (0..4).map(mat).collect(),
                                it: (0..4).map(mat_it).collect(),
                                ix: (0..(5 + long) * n).map(|i| (i * 3 % 4) as u16).collect(),
                                w: (0..(5 + long) * (n - 1)).map(|i| 0.1 + 0.05 * (i % 3) as f32).collect(),
                                v: std::array::from_fn(|k| (0..5 + long).map(|i| vert(k, i)).collect()),
                                out: vec![Vec3::splat(-9.0); 5 + long],
                            };
                            let mut same = Same(None);
                            let ins = || s.v.clone();
                            let outs = || [s.out.clone(), s.out.clone(), s.out.clone()];
                            // One parameter at a time through every flavour, the others owned vectors.
                            each_in!(s.m, na, m, {
                                same.put(format!("matrices {}", na), skin_m(&s, mode, m)?)?;
                            });
                            each_in!(s.ix, na, ix, { same.put(format!("indices {}", na), skin(s.n, mode, s.m.clone(), s.it.clone(), ix, s.w.clone(), ins(), outs())?)? });
                            each_in!(s.w, na, w, { same.put(format!("weights {}", na), skin(s.n, mode, s.m.clone(), s.it.clone(), s.ix.clone(), w, ins(), outs())?)? });
                            // Vertices in and out, whole jobs of one flavour.
                            same.put("references".into(), {
                                let [mut a, mut b, mut c] = outs();
                                skin(s.n, mode, &s.m[..], &s.it[..], &s.ix[..], &s.w[..], [&s.v[0][..], &s.v[1][..], &s.v[2][..]], [&mut a[..], &mut b[..], &mut c[..]])?
                            })?;
                            let cell = |v: Vec<Vec3>| Rc::new(RefCell::new(v));
                            let lock = |v: Vec<Vec3>| Arc::new(RwLock::new(v));
                            same.put("Rc<RefCell>".into(), skin(s.n, mode, Rc::new(RefCell::new(s.m.clone())), Rc::new(RefCell::new(s.it.clone())), Rc::new(RefCell::new(s.ix.clone())), Rc::new(RefCell::new(s.w.clone())), ins().map(cell), outs().map(cell))?)?;
                            same.put("Arc<RwLock>".into(), skin(s.n, mode, Arc::new(RwLock::new(s.m.clone())), Arc::new(RwLock::new(s.it.clone())), Arc::new(RwLock::new(s.ix.clone())), Arc::new(RwLock::new(s.w.clone())), ins().map(lock), outs().map(lock))?)?;
                            same.put("cells in, locks out".into(), skin(s.n, mode, s.m.clone(), s.it.clone(), s.ix.clone(), s.w.clone(), ins().map(cell), outs().map(lock))?)?;
                            same.put("locks in, cells out".into(), skin(s.n, mode, s.m.clone(), s.it.clone(), s.ix.clone(), s.w.clone(), ins().map(lock), outs().map(cell))?)?;
                            st.transition();
                            let (o, i) = same.0.unwrap().1;
                            let k = 1 + mode / 2;
                            let mut want: Vec<u32> = s.v[..k.min(3)].iter().flat_map(|v| v3_bits(v)).collect();
                            want.extend(mat_bits(&s.m));
                            want.extend(s.ix.iter().map(|x| *x as u32));
                            want.extend(s.w.iter().map(|x| x.to_bits()));
                            ensure!(i == want, "an input was modified");
                            Ok(hash_bits(&o))
                        },
                    );
                }
            }
        }
    });
    ctx.suite("tracks", |ctx| {
        for n in 0..=ctx.more(ctx.pick(9usize, 20), 150) {
            for bits in 0..4u32 {
                ctx.case(
                    || format!("{} keys, step pattern {}", n, bits),
                    |_| {
                        fn go<V: Flat>(n: usize, bits: u32, ratios: &[f32]) -> Result<u64, String> {
                            let t = crate::p_assets::trk(V::KIND, n, 2, (0..n).map(|i| (bits >> (i % 2)) & 1 == 1).collect());
                            let load = || load_track::<V>(&t);
                            let mut same = Same(None);
                            each_obj!(load, nt, x, { same.put(nt.to_string(), track_values::<V, _>(x(), ratios)?)? });
                            Ok(hash_bits(&same.0.unwrap().1))
                        }
                        let r: Vec<f32> = (-1..=21).map(|i| i as f32 / 20.0).collect();
                        let mut h = go::<f32>(n, bits, &r)? ^ go::<glam::Vec2>(n, bits, &r)? ^ go::<Vec3>(n, bits, &r)? ^ go::<glam::Vec4>(n, bits, &r)? ^ go::<glam::Quat>(n, bits, &r)?;
                        let t = crate::p_assets::trk(0, n, 2, (0..n).map(|i| (bits >> (i % 2)) & 1 == 1).collect());
                        let load = || load_track::<f32>(&t);
                        let mut same = Same(None);
                        each_obj!(load, nt, x, { same.put(nt.to_string(), track_edges(x(), &[-1.3, 0.0, 0.4, 1.0, 2.2])?)? });
                        h ^= same.0.unwrap().1.len() as u64;
                        Ok(h)
                    },
                );
            }
        }
    });
}

fn skin_m<JM: OzzBuf<Mat4> + Watch<Mat4> + MakeLike>(s: &SkinIn, mode: usize, m: JM) -> Result<(Vec<u32>, Vec<u32>), String> {
    let it = JM::make(s.it.clone());
    skin(s.n, mode, m, it, s.ix.clone(), s.w.clone(), s.v.clone(), [s.out.clone(), s.out.clone(), s.out.clone()])
}

/// A second buffer of the same flavour (leaked for borrowed ones).
trait MakeLike {
    fn make(v: Vec<Mat4>) -> Self;
}
impl MakeLike for &[Mat4] {
    fn make(v: Vec<Mat4>) -> Self {
        crate::mem::paused(|| v.clone()).leak()
    }
}
impl MakeLike for &mut [Mat4] {
    fn make(v: Vec<Mat4>) -> Self {
        crate::mem::paused(|| v.clone()).leak()
    }
}
impl MakeLike for Vec<Mat4> {
    fn make(v: Vec<Mat4>) -> Self {
        v
    }
}
impl MakeLike for Rc<RefCell<Vec<Mat4>>> {
    fn make(v: Vec<Mat4>) -> Self {
        Rc::new(RefCell::new(v))
    }
}
impl MakeLike for Arc<RwLock<Vec<Mat4>>> {
    fn make(v: Vec<Mat4>) -> Self {
        Arc::new(RwLock::new(v))
    }
}
