//! C27: a job's parameters are exactly those last set; constructors and error predicates say what they name.

use crate::core::*;
use crate::p_blend::{blend_skel, pose};
use crate::p_skin::{mat, vert};
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::base::OzzIndex;
use ozz_animation_rs::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

type Step<J> = Box<dyn Fn(&mut J, &[String]) -> Result<(), String>>;
type Read<J> = Box<dyn Fn(&J) -> String>;

/// What can be read from a job, and the operations with the readings they change.
struct Table<J> {
    fresh: fn() -> J,
    /// Name, value of a new job, getter, whether running may change it.
    slots: Vec<(&'static str, String, Read<J>, bool)>,
    ops: Vec<(String, Step<J>, Vec<(usize, String)>)>,
    /// More values of the same parameters: set alone and around each of the operations.
    wide: Vec<(String, Step<J>, Vec<(usize, String)>)>,
    run: fn(&mut J),
}

impl<J> Table<J> {
    fn new(fresh: fn() -> J, run: fn(&mut J)) -> Self {
        Table { fresh, slots: vec![], ops: vec![], wide: vec![], run }
    }
    fn slot(&mut self, name: &'static str, default: impl ToString, read: impl Fn(&J) -> String + 'static) -> usize {
        self.slots.push((name, default.to_string(), Box::new(read), false));
        self.slots.len() - 1
    }
    fn out(&mut self, name: &'static str, default: impl ToString, read: impl Fn(&J) -> String + 'static) -> usize {
        let s = self.slot(name, default, read);
        self.slots[s].3 = true;
        s
    }
    /// The operations are numbered: those explored in sequences, running, the further values.
    fn get(&self, o: usize) -> Option<&(String, Step<J>, Vec<(usize, String)>)> {
        let n = self.ops.len();
        if o < n { Some(&self.ops[o]) } else if o > n { Some(&self.wide[o - n - 1]) } else { None }
    }
    fn name(&self, o: usize) -> &str {
        self.get(o).map_or("run", |o| o.0.as_str())
    }
    fn more(&mut self, name: impl ToString, f: impl Fn(&mut J) + 'static, changes: Vec<(usize, String)>) {
        self.op(name, f, changes);
        let o = self.ops.pop().unwrap();
        self.wide.push(o);
    }
    fn op(&mut self, name: impl ToString, f: impl Fn(&mut J) + 'static, changes: Vec<(usize, String)>) {
        self.ops.push((
            name.to_string(),
            Box::new(move |j, _| {
                f(j);
                Ok(())
            }),
            changes,
        ));
    }
}

fn compare<J>(t: &Table<J>, j: &J, model: &[String], path: &[usize]) -> Result<(), String> {
    for (k, (name, _, read, _)) in t.slots.iter().enumerate() {
        let got = read(j);
        ensure!(got == model[k], "after {:?}: {} is {} instead of {}", path.iter().map(|o| t.name(*o)).collect::<Vec<_>>(), name, got, model[k]);
    }
    Ok(())
}

fn replay<J>(t: &Table<J>, path: &[usize], st: &mut Stats) -> Result<u64, String> {
    let mut j = (t.fresh)();
    let mut model: Vec<String> = t.slots.iter().map(|s| s.1.clone()).collect();
    if path.len() == 1 {
        compare(t, &j, &model, &[])?;
    }
    for op in path {
        let Some(op) = t.get(*op) else {
            (t.run)(&mut j);
            for (k, s) in t.slots.iter().enumerate() {
                if s.3 {
                    model[k] = (s.2)(&j);
                }
            }
            continue;
        };
        op.1(&mut j, &model).map_err(|e| format!("{}: {}", op.0, e))?;
        for (s, v) in &op.2 {
            model[*s] = v.clone();
        }
    }
    // Shorter sequences are compared on their own.
    compare(t, &j, &model, path)?;
    st.transition();
    Ok(hash_str(&model.join("|")))
}

fn explore<J>(ctx: &mut Ctx, name: &str, depth: usize, table: fn() -> Table<J>) {
    ctx.suite(name, |ctx| {
        let n = table().ops.len() + 1;
        for a in 0..n {
            ctx.case(
                || format!("every sequence of at most {} operations beginning with number {}", depth, a),
                |st| {
                    let t = table();
                    let mut h = 0u64;
                    let mut path = vec![a];
                    fn go<J>(t: &Table<J>, path: &mut Vec<usize>, depth: usize, n: usize, st: &mut Stats, h: &mut u64) -> Result<(), String> {
                        let s = replay(t, path, st)?;
                        st.state(s);
                        *h = h.wrapping_mul(31).wrapping_add(s);
                        if path.len() < depth {
                            for o in 0..n {
                                path.push(o);
                                go(t, path, depth, n, st, h)?;
                                path.pop();
                            }
                        }
                        Ok(())
                    }
                    go(&t, &mut path, depth, n, st, &mut h)?;
                    for w in 0..t.wide.len() {
                        h = h.wrapping_mul(31).wrapping_add(replay(&t, &[n + w], st)?);
                        h = h.wrapping_mul(31).wrapping_add(replay(&t, &[a, n + w], st)?);
                        h = h.wrapping_mul(31).wrapping_add(replay(&t, &[n + w, a], st)?);
                    }
                    Ok(h)
                },
            );
        }
    });
}

/// A buffer or asset behind a shared pointer is recognised by its address.
fn at<T: ?Sized>(p: &Rc<T>) -> String {
    format!("at {:p}", Rc::as_ptr(p))
}
fn opt<T: ?Sized>(p: Option<&Rc<T>>) -> String {
    p.map_or("none".into(), at)
}

/// A parameter held by shared pointer: setter for each of two values and clearer.
macro_rules! shared {
    ($t:ident, $name:literal, $job:ty, $get:ident, $set:ident, $clear:ident, $make:expr) => {{
        let s = $t.slot($name, "none", |j: &$job| opt(j.$get()));
        for k in 0..2 {
            let v = Rc::new($make(k));
            let w = at(&v);
            $t.op(format!("{} {}", stringify!($set), k), move |j: &mut $job| j.$set(v.clone()), vec![(s, w)]);
        }
        $t.op(stringify!($clear), |j: &mut $job| j.$clear(), vec![(s, "none".into())]);
        s
    }};
}

/// The numbers a plain parameter is given one at a time.
const WIDE: [f32; 28] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-3, 1e-7, -1e-7, 0.999_999_9, 1.000_000_1, 2.0, 3.141_592_7, -3.141_592_7, 6.283_185_5, 7.0, 100.0, 360.0, -360.0, 1024.0, 1e6, 1e-38, -1e-38, f32::MAX, f32::MIN,
    f32::INFINITY, f32::NEG_INFINITY, f32::NAN,
];

fn wide_vec() -> Vec<Vec3A> {
    let mut v: Vec<Vec3A> = WIDE.iter().map(|x| Vec3A::splat(*x)).collect();
    for x in WIDE {
        v.extend([Vec3A::new(x, 1.0, 2.0), Vec3A::new(1.0, x, 2.0), Vec3A::new(1.0, 2.0, x)]);
    }
    v
}

fn wide_mat() -> Vec<Mat4> {
    let mut v = vec![Mat4::ZERO];
    for k in 0..16 {
        for x in [0.0, -0.0, 1.0, -7.5, 1e-20, 1e20] {
            let mut m = mat(2).to_cols_array();
            m[k] = x;
            v.push(Mat4::from_cols_array(&m));
        }
    }
    v
}

macro_rules! wide {
    ($t:ident, $job:ty, $slot:expr, $set:ident, $vals:expr) => {
        for v in $vals {
            $t.more(format!("{} {:?}", stringify!($set), v), move |j: &mut $job| j.$set(v), vec![($slot, format!("{:?}", v))]);
        }
    };
}

/// A plain value: setter for each of the values.
macro_rules! plain {
    ($t:ident, $name:literal, $job:ty, $get:ident, $set:ident, $default:expr, $vals:expr) => {{
        let s = $t.slot($name, format!("{:?}", $default), |j: &$job| format!("{:?}", j.$get()));
        for v in $vals {
            $t.op(format!("{} {:?}", stringify!($set), v), move |j: &mut $job| j.$set(v), vec![(s, format!("{:?}", v))]);
        }
        s
    }};
}

fn cell<T>(v: Vec<T>) -> RefCell<Vec<T>> {
    RefCell::new(v)
}

fn sampling() -> Table<SamplingJobRc> {
    type J = SamplingJobRc;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    shared!(t, "animation", J, animation, set_animation, clear_animation, |k: usize| load_anim(&crate::p_sampling::sample_anim(3 + k)));
    shared!(t, "output", J, output, set_output, clear_output, |k: usize| cell(sentinel_pose(1 + k, 1)));
    let s = plain!(t, "ratio", J, ratio, set_ratio, 0.0f32, [0.25f32, 1.0, 0.0]);
    wide!(t, J, s, set_ratio, WIDE.into_iter().filter(|x| (0.0..=1.0).contains(x) && !x.is_sign_negative()));
    let c = t.slot("context", "none", |j: &J| j.context().map_or("none".into(), |c| format!("for {}", c.max_tracks())));
    for n in [4usize, 12] {
        t.op(format!("set_context {}", n), move |j: &mut J| j.set_context(SamplingContext::new(n)), vec![(c, format!("for {}", n))]);
    }
    t.op("clear_context", |j: &mut J| j.clear_context(), vec![(c, "none".into())]);
    t.ops.push((
        "take_context".into(),
        Box::new(move |j, model| {
            let got = j.take_context().map_or("none".into(), |c| format!("for {}", c.max_tracks()));
            ensure!(got == model[c], "took a context {} instead of {}", got, model[c]);
            Ok(())
        }),
        vec![(c, "none".into())],
    ));
    t
}

fn blending() -> Table<BlendingJobRc<'static>> {
    type J = BlendingJobRc<'static>;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    shared!(t, "skeleton", J, skeleton, set_skeleton, clear_skeleton, |k: usize| load_skel(&blend_skel(2 + 3 * k)));
    shared!(t, "output", J, output, set_output, clear_output, |k: usize| cell(sentinel_pose(2 - k, 1)));
    let s = plain!(t, "threshold", J, threshold, set_threshold, 0.1f32, [0.5f32, 0.0]);
    wide!(t, J, s, set_threshold, WIDE);
    fn lay(l: &[BlendingLayer<Rc<RefCell<Vec<SoaTransform>>>>]) -> String {
        l.iter().map(|l| format!("{} {:?} {:?};", at(&l.transform), l.weight, l.joint_weights)).collect()
    }
    let normal = t.slot("layers", "", |j: &J| lay(j.layers()));
    let additive = t.slot("additive layers", "", |j: &J| lay(j.additive_layers()));
    // Each constructor sets what it names and nothing else.
    for k in 0..3 {
        let b = Rc::new(cell(soa_pose(&pose(k, 8), 2)));
        let jw = vec![Vec4::new(0.5, 0.25, 1.0, 0.0); 2];
        let want = match k {
            0 => format!("{} 0.0 [];", at(&b)),
            1 => format!("{} 0.75 [];", at(&b)),
            _ => format!("{} 0.0 {:?};", at(&b), jw),
        };
        let make = move || match k {
            0 => BlendingLayer::new(b.clone()),
            1 => BlendingLayer::with_weight(b.clone(), 0.75),
            _ => BlendingLayer::with_joint_weights(b.clone(), jw.clone()),
        };
        let m = make.clone();
        t.op(format!("layer of constructor {}", k), move |j: &mut J| *j.layers_mut() = vec![m()], vec![(normal, want.clone())]);
        t.op(format!("additive layer of constructor {}", k), move |j: &mut J| *j.additive_layers_mut() = vec![make()], vec![(additive, want)]);
    }
    t.op("no layers", |j: &mut J| j.layers_mut().clear(), vec![(normal, String::new())]);
    t.op("no additive layers", |j: &mut J| j.additive_layers_mut().clear(), vec![(additive, String::new())]);
    // A new job brings a context of its own or none: only what is set, cleared or taken counts.
    let c = t.slot("context", if J::default().context().is_some() { "some" } else { "none" }, |j: &J| if j.context().is_some() { "some".into() } else { "none".into() });
    t.op("set_context", |j: &mut J| j.set_context(BlendingContext::new(2)), vec![(c, "some".into())]);
    t.op("clear_context", |j: &mut J| j.clear_context(), vec![(c, "none".into())]);
    t.ops.push((
        "take_context".into(),
        Box::new(move |j, model| {
            ensure!(j.take_context().is_some() == (model[c] == "some"), "took a context although there is none, or none although there is one");
            Ok(())
        }),
        vec![(c, "none".into())],
    ));
    t.slots[c].3 = true;
    t
}

fn local_to_model() -> Table<LocalToModelJobRc> {
    type J = LocalToModelJobRc;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    shared!(t, "skeleton", J, skeleton, set_skeleton, clear_skeleton, |k: usize| load_skel(&blend_skel(2 + 3 * k)));
    shared!(t, "input", J, input, set_input, clear_input, |k: usize| cell(soa_pose(&pose(k, 8), 2)));
    shared!(t, "output", J, output, set_output, clear_output, |k: usize| cell(sentinel_mats(6 - k, 1)));
    let r = t.slot("root", format!("{:?}", Mat4::IDENTITY), |j: &J| format!("{:?}", j.root()));
    for m in [mat(2), Mat4::IDENTITY] {
        t.op(format!("set_root {:?}", m), move |j: &mut J| j.set_root(&m), vec![(r, format!("{:?}", m))]);
    }
    // Any of the index types.
    let f = t.slot("from", -1, |j: &J| j.from().to_string());
    t.op("set_from 1i32", |j: &mut J| j.set_from(1i32), vec![(f, "1".into())]);
    t.op("set_from 2usize", |j: &mut J| j.set_from(2usize), vec![(f, "2".into())]);
    t.op("set_from -1i16", |j: &mut J| j.set_from(-1i16), vec![(f, "-1".into())]);
    let to = t.slot("to", SKELETON_MAX_JOINTS, |j: &J| j.to().to_string());
    t.op("set_to 3i32", |j: &mut J| j.set_to(3i32), vec![(to, "3".into())]);
    t.op("set_to 4usize", |j: &mut J| j.set_to(4usize), vec![(to, "4".into())]);
    t.op("set_to 1024i16", |j: &mut J| j.set_to(1024i16), vec![(to, "1024".into())]);
    for m in wide_mat() {
        t.more(format!("set_root {:?}", m), move |j: &mut J| j.set_root(&m), vec![(r, format!("{:?}", m))]);
    }
    wide!(t, J, f, set_from, [0i32, -1, -2, 5, 127, 128, 255, 256, 1023, 1024, 1025, 32767, 65536, i32::MAX, i32::MIN]);
    wide!(t, J, f, set_from, [0i16, -1, -2, 255, 1024, i16::MAX, i16::MIN]);
    wide!(t, J, f, set_from, [0usize, 6, 1023, 1024, 1025, 65536]);
    wide!(t, J, to, set_to, [0i32, -1, -2, 5, 127, 128, 255, 256, 1023, 1024, 1025, 32767, 65536, i32::MAX, i32::MIN]);
    wide!(t, J, to, set_to, [0i16, -1, -2, 255, 1024, i16::MAX, i16::MIN]);
    wide!(t, J, to, set_to, [0usize, 6, 1023, 1024, 1025, 65536]);
    plain!(t, "from excluded", J, from_excluded, set_from_excluded, false, [true, false]);
    t
}

fn skinning() -> Table<SkinningJobRc> {
    type J = SkinningJobRc;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    let s = plain!(t, "vertex count", J, vertex_count, set_vertex_count, 0usize, [2usize, 0]);
    wide!(t, J, s, set_vertex_count, [1usize, 3, 7, 255, 256, 65535, 65536, 1 << 20, 1 << 31, 1 << 32, 1 << 48, usize::MAX]);
    let s = plain!(t, "influences", J, influences_count, set_influences_count, 0usize, [1usize, 3]);
    wide!(t, J, s, set_influences_count, [0usize, 1, 2, 4, 5, 8, 9, 16, 255, 256, 65536, 1 << 32, usize::MAX]);
    shared!(t, "joint matrices", J, joint_matrices, set_joint_matrices, clear_joint_matrices, |k: usize| cell(vec![mat(k); 3]));
    shared!(t, "inverse transposes", J, joint_it_matrices, set_joint_it_matrices, clear_joint_it_matrices, |k: usize| cell(vec![mat(k + 1); 3]));
    shared!(t, "indices", J, joint_indices, set_joint_indices, clear_joint_indices, |k: usize| cell(vec![k as u16; 6]));
    shared!(t, "weights", J, joint_weights, set_joint_weights, clear_joint_weights, |k: usize| cell(vec![0.25 * k as f32; 6]));
    shared!(t, "positions", J, in_positions, set_in_positions, clear_in_positions, |k: usize| cell(vec![vert(0, k); 2]));
    shared!(t, "normals", J, in_normals, set_in_normals, clear_in_normals, |k: usize| cell(vec![vert(1, k); 2]));
    shared!(t, "tangents", J, in_tangents, set_in_tangents, clear_in_tangents, |k: usize| cell(vec![vert(2, k); 2]));
    shared!(t, "positions out", J, out_positions, set_out_positions, clear_out_positions, |k: usize| cell(vec![Vec3::splat(k as f32); 2]));
    shared!(t, "normals out", J, out_normals, set_out_normals, clear_out_normals, |k: usize| cell(vec![Vec3::splat(k as f32); 2]));
    shared!(t, "tangents out", J, out_tangents, set_out_tangents, clear_out_tangents, |k: usize| cell(vec![Vec3::splat(k as f32); 2]));
    t
}

fn track_sampling<V: Flat + Default + std::fmt::Debug + 'static>() -> Table<TrackSamplingJobRc<V>> {
    let mut t: Table<TrackSamplingJobRc<V>> = Table::new(TrackSamplingJobRc::<V>::default, |j| {
        let _ = j.run();
    });
    shared!(t, "track", TrackSamplingJobRc<V>, track, set_track, clear_track, |k: usize| load_track::<V>(&crate::p_assets::trk(V::KIND, 3 + k, k, vec![k == 1; 3 + k])));
    let s = plain!(t, "ratio", TrackSamplingJobRc<V>, ratio, set_ratio, 0.0f32, [0.3f32, 1.0, 0.0]);
    wide!(t, TrackSamplingJobRc<V>, s, set_ratio, WIDE);
    let r = t.out("result", format!("{:?}", V::default()), |j: &TrackSamplingJobRc<V>| format!("{:?}", j.result()));
    t.op("clear_result", |j: &mut TrackSamplingJobRc<V>| j.clear_result(), vec![(r, format!("{:?}", V::default()))]);
    t.op("clear_outs", |j: &mut TrackSamplingJobRc<V>| j.clear_outs(), vec![(r, format!("{:?}", V::default()))]);
    t
}

fn track_triggering() -> Table<TrackTriggeringJobRc> {
    type J = TrackTriggeringJobRc;
    let mut t: Table<J> = Table::new(J::default, |j| {
        if let Ok(i) = j.run() {
            i.count();
        }
    });
    shared!(t, "track", J, track, set_track, clear_track, |k: usize| load_track::<f32>(&crate::p_assets::trk(0, 3 + k, k, vec![k == 1; 3 + k])));
    let s = plain!(t, "from", J, from, set_from, 0.0f32, [0.3f32, -1.5, 3.25]);
    wide!(t, J, s, set_from, WIDE);
    let s = plain!(t, "to", J, to, set_to, 0.0f32, [0.7f32, -2.5, 2.0]);
    wide!(t, J, s, set_to, WIDE);
    let s = plain!(t, "threshold", J, threshold, set_threshold, 0.0f32, [0.5f32, -1.0]);
    wide!(t, J, s, set_threshold, WIDE);
    t
}

fn motion() -> Table<MotionBlendingJob> {
    type J = MotionBlendingJob;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    let xf = |k: f32| Transform3A { translation: Vec3A::new(k, 2.0, 3.0), rotation: Quat::from_rotation_x(k), scale: Vec3A::splat(k) };
    let l = t.slot("layers", "[]", |j: &J| format!("{:?}", j.layers()));
    for k in 1..3 {
        let v = vec![MotionBlendingLayer { weight: 0.5 * k as f32, delta: xf(k as f32) }; k];
        let w = format!("{:?}", v);
        t.op(format!("{} layers", k), move |j: &mut J| *j.layers_mut() = v.clone(), vec![(l, w)]);
    }
    t.op("no layers", |j: &mut J| j.layers_mut().clear(), vec![(l, "[]".into())]);
    let none = format!("{:?}", Transform3A::default());
    let o = t.out("output", &none, |j: &J| format!("{:?}", j.output()));
    t.op("set_output", move |j: &mut J| j.set_output(xf(7.0)), vec![(o, format!("{:?}", xf(7.0)))]);
    t.op("clear_output", |j: &mut J| j.clear_output(), vec![(o, none)]);
    t
}

fn aim() -> Table<IKAimJob> {
    type J = IKAimJob;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    let s = plain!(t, "target", J, target, set_target, Vec3A::ZERO, [Vec3A::new(1.0, 2.0, 3.0)]);
    wide!(t, J, s, set_target, wide_vec());
    let s = plain!(t, "forward", J, forward, set_forward, Vec3A::X, [Vec3A::Z, Vec3A::new(0.0, 2.0, 0.0)]);
    wide!(t, J, s, set_forward, wide_vec());
    let s = plain!(t, "offset", J, offset, set_offset, Vec3A::ZERO, [Vec3A::new(0.1, 0.2, 0.3)]);
    wide!(t, J, s, set_offset, wide_vec());
    let s = plain!(t, "up", J, up, set_up, Vec3A::Y, [Vec3A::X]);
    wide!(t, J, s, set_up, wide_vec());
    let s = plain!(t, "pole", J, pole_vector, set_pole_vector, Vec3A::Y, [Vec3A::NEG_Z]);
    wide!(t, J, s, set_pole_vector, wide_vec());
    let s = plain!(t, "twist", J, twist_angle, set_twist_angle, 0.0f32, [0.75f32, -4.0]);
    wide!(t, J, s, set_twist_angle, WIDE);
    let s = plain!(t, "weight", J, weight, set_weight, 1.0f32, [0.5f32, 0.0]);
    wide!(t, J, s, set_weight, WIDE);
    let s = plain!(t, "joint", J, joint, set_joint, Mat4::IDENTITY, [mat(1)]);
    wide!(t, J, s, set_joint, wide_mat());
    let q = format!("{:?}", Quat::IDENTITY);
    let c = t.out("correction", &q, |j: &J| format!("{:?}", j.joint_correction()));
    let r = t.out("reached", false, |j: &J| j.reached().to_string());
    t.op("clear_joint_correction", |j: &mut J| j.clear_joint_correction(), vec![(c, q.clone())]);
    t.op("clear_reached", |j: &mut J| j.clear_reached(), vec![(r, "false".into())]);
    t.op("clear_outs", |j: &mut J| j.clear_outs(), vec![(c, q), (r, "false".into())]);
    t
}

fn two_bone() -> Table<IKTwoBoneJob> {
    type J = IKTwoBoneJob;
    let mut t: Table<J> = Table::new(J::default, |j| {
        let _ = j.run();
    });
    let s = plain!(t, "target", J, target, set_target, Vec3A::ZERO, [Vec3A::new(1.0, 2.0, 3.0)]);
    wide!(t, J, s, set_target, wide_vec());
    let s = plain!(t, "mid axis", J, mid_axis, set_mid_axis, Vec3A::Z, [Vec3A::X]);
    wide!(t, J, s, set_mid_axis, wide_vec());
    let s = plain!(t, "pole", J, pole_vector, set_pole_vector, Vec3A::Y, [Vec3A::NEG_Z]);
    wide!(t, J, s, set_pole_vector, wide_vec());
    let s = plain!(t, "twist", J, twist_angle, set_twist_angle, 0.0f32, [0.75f32, -4.0]);
    wide!(t, J, s, set_twist_angle, WIDE);
    let s = plain!(t, "soften", J, soften, set_soften, 1.0f32, [0.5f32]);
    wide!(t, J, s, set_soften, WIDE);
    let s = plain!(t, "weight", J, weight, set_weight, 1.0f32, [0.5f32, 0.0]);
    wide!(t, J, s, set_weight, WIDE);
    let s = plain!(t, "start", J, start_joint, set_start_joint, Mat4::IDENTITY, [mat(1)]);
    wide!(t, J, s, set_start_joint, wide_mat());
    let s = plain!(t, "mid", J, mid_joint, set_mid_joint, Mat4::IDENTITY, [mat(2)]);
    wide!(t, J, s, set_mid_joint, wide_mat());
    let s = plain!(t, "end", J, end_joint, set_end_joint, Mat4::IDENTITY, [mat(3)]);
    wide!(t, J, s, set_end_joint, wide_mat());
    let q = format!("{:?}", Quat::IDENTITY);
    let s = t.out("start correction", &q, |j: &J| format!("{:?}", j.start_joint_correction()));
    let m = t.out("mid correction", &q, |j: &J| format!("{:?}", j.mid_joint_correction()));
    let r = t.out("reached", false, |j: &J| j.reached().to_string());
    t.op("clear_start_joint_correction", |j: &mut J| j.clear_start_joint_correction(), vec![(s, q.clone())]);
    t.op("clear_mid_joint_correction", |j: &mut J| j.clear_mid_joint_correction(), vec![(m, q.clone())]);
    t.op("clear_reached", |j: &mut J| j.clear_reached(), vec![(r, "false".into())]);
    t.op("clear_outs", |j: &mut J| j.clear_outs(), vec![(s, q.clone()), (m, q), (r, "false".into())]);
    t
}

/// Exactly the predicate of the error's own kind answers yes.
pub fn error_kind(e: &OzzError) -> Result<&'static str, String> {
    let (name, k) = match e {
        OzzError::LockPoison => ("LockPoison", 0),
        OzzError::InvalidJob => ("InvalidJob", 1),
        OzzError::IO(_) => ("IO", 2),
        OzzError::Utf8(_) => ("Utf8", 3),
        OzzError::InvalidTag => ("InvalidTag", 4),
        OzzError::InvalidVersion => ("InvalidVersion", 5),
        OzzError::Unexcepted => ("Unexcepted", 6),
        OzzError::InvalidIndex => ("InvalidIndex", 99),
    };
    let says = [e.is_lock_poison(), e.is_invalid_job(), e.is_io(), e.is_utf8(), e.is_invalid_tag(), e.is_invalid_version(), e.is_unexcepted()];
    for (i, s) in says.iter().enumerate() {
        ensure!(*s == (i == k), "{:?}: predicate {} answers {}", e, i, s);
    }
    ensure!(!e.to_string().is_empty(), "{:?} has no text", e);
    Ok(name)
}

pub fn c27(ctx: &mut Ctx) {
    let d = ctx.pick3(2, 4, 5);
    explore(ctx, "sampling", d, sampling);
    explore(ctx, "blending", d, blending);
    explore(ctx, "local-to-model", d, local_to_model);
    explore(ctx, "skinning", d.min(4), skinning);
    explore(ctx, "track-sampling f32", d, track_sampling::<f32>);
    explore(ctx, "track-sampling Vec2", d, track_sampling::<Vec2>);
    explore(ctx, "track-sampling Vec3", d, track_sampling::<Vec3>);
    explore(ctx, "track-sampling Vec4", d, track_sampling::<Vec4>);
    explore(ctx, "track-sampling Quat", d, track_sampling::<Quat>);
    explore(ctx, "track-triggering", d, track_triggering);
    explore(ctx, "motion-blending", d, motion);
    explore(ctx, "ik-aim", d, aim);
    explore(ctx, "ik-two-bone", d, two_bone);
    ctx.suite("constructors", |ctx| {
        for n in 0..ctx.pick(9usize, 40) {
            ctx.case(
                || format!("shared buffers of {} elements", n),
                |_| {
                    let v: Vec<f32> = (0..n).map(|i| i as f32 * 1.5 - 2.0).collect();
                    let (a, b) = (ozz_rc_buf(v.clone()), ozz_arc_buf(v.clone()));
                    ensure!(*a.borrow() == v && *b.read().unwrap() == v, "a shared buffer does not hold what it was made of");
                    ensure!(Rc::strong_count(&a) == 1 && Arc::strong_count(&b) == 1, "a new shared buffer is shared already");
                    ensure!(a.buf().map(|x| x.to_vec()).ok() == Some(v.clone()) && b.buf().map(|x| x.to_vec()).ok() == Some(v), "the buffer reads differently through the buffer trait");
                    Ok(n as u64)
                },
            );
        }
        for bits in [0u32, 0x8000_0000, 0x3f80_0000, 0x3e99_999a, 0xc040_0000, 0x0000_0001, 0x7f7f_ffff] {
            for rising in [false, true] {
                ctx.case(
                    || format!("edge at {:08x} rising {}", bits, rising),
                    |_| {
                        let r = f32::from_bits(bits);
                        let e = crate::p_tracks::edge_parts(&Edge::new(r, rising))?;
                        ensure!(e.0.to_bits() == bits && e.1 == rising, "Edge::new({:?}, {}) gives {:?}", r, rising, e);
                        Ok(bits as u64)
                    },
                );
            }
        }
    });
    // Joint indices come in several integer types.
    ctx.suite("index types", |ctx| {
        let check = |set: &dyn Fn(&mut LocalToModelJob), v: i32, ty: &str| -> Result<(), String> {
            let mut j: LocalToModelJob = LocalToModelJob::default();
            set(&mut j);
            ensure!(j.from() == v && j.to() == v, "{} as {}: from {} to {}", v, ty, j.from(), j.to());
            Ok(())
        };
        for hi in 0..256i32 {
            ctx.case(
                || format!("16-bit values {}..", (hi << 8) - 32768),
                |_| {
                    for lo in 0..256 {
                        let v = (hi << 8 | lo) - 32768;
                        check(&|j| (j.set_from(v as i16), j.set_to(v as i16)).0, v, "i16")?;
                        check(&|j| (j.set_from(v), j.set_to(v)).0, v, "i32")?;
                        ensure!(OzzIndex::i32(&(v as i16)) == v && OzzIndex::i32(&v) == v, "conversion of {}", v);
                        if v >= 0 {
                            check(&|j| (j.set_from(v as usize), j.set_to(v as usize)).0, v, "usize")?;
                            ensure!(OzzIndex::usize(&(v as i16)) == v as usize && OzzIndex::usize(&v) == v as usize && OzzIndex::usize(&(v as usize)) == v as usize && OzzIndex::i32(&(v as usize)) == v, "conversion of {}", v);
                        }
                    }
                    Ok(hi as u64)
                },
            );
        }
        for v in [32768i32, 40000, 65535, 65536, 1 << 24, i32::MAX - 1, i32::MAX, -32769, -65536, i32::MIN + 1, i32::MIN] {
            ctx.case(
                || format!("index {}", v),
                |_| {
                    check(&|j| (j.set_from(v), j.set_to(v)).0, v, "i32")?;
                    if v >= 0 {
                        check(&|j| (j.set_from(v as usize), j.set_to(v as usize)).0, v, "usize")?;
                        ensure!(OzzIndex::usize(&v) == v as usize && OzzIndex::i32(&(v as usize)) == v, "conversion of {}", v);
                    }
                    Ok(v as u32 as u64)
                },
            );
        }
    });
    ctx.suite("near-equality of track values", |ctx| {
        const A: [f32; 7] = [0.0, -0.0, 1.0, 1.25, -3.0, 1e-3, 1e6];
        for (i, a) in A.iter().enumerate() {
            for (j, b) in A.iter().enumerate() {
                ctx.case(
                    || format!("{} and {} in one component", a, b),
                    |st| {
                        fn one<V: Flat + track::TrackValue>(n: usize, k: usize, i: usize, a: f32, b: f32, st: &mut Stats) -> Result<(), String> {
                            // Multiples of 1/1024 differ exactly.
                            let x: Vec<f32> = (0..n).map(|c| if c == k { a } else { A[(i + c) % 5] }).collect();
                            for other in [0.0f32, 0.125, -0.5] {
                                let y: Vec<f32> = (0..n).map(|c| if c == k { b } else { x[c] + other }).collect();
                                for d in [0.0f32, 0.0625, 0.125, 0.25, 0.5, 1.0, 4.0, 5.0, 2e6] {
                                    let want = x.iter().zip(&y).all(|(x, y)| (x - y).abs() <= d);
                                    let got = V::abs_diff_eq(V::from_flat(&x), V::from_flat(&y), d);
                                    ensure!(got == want, "{} components: {:?} and {:?} within {}: {}", n, x, y, d, got);
                                    let back = V::abs_diff_eq(V::from_flat(&y), V::from_flat(&x), d);
                                    ensure!(back == want, "{} components: {:?} and {:?} within {}: {}", n, y, x, d, back);
                                    st.transition();
                                }
                            }
                            Ok(())
                        }
                        for k in 0..4 {
                            if k < 1 {
                                one::<f32>(1, k, i, *a, *b, st)?;
                            }
                            if k < 2 {
                                one::<Vec2>(2, k, i, *a, *b, st)?;
                            }
                            if k < 3 {
                                one::<Vec3>(3, k, i, *a, *b, st)?;
                            }
                            one::<Vec4>(4, k, i, *a, *b, st)?;
                            one::<Quat>(4, k, i, *a, *b, st)?;
                        }
                        Ok((i * 8 + j) as u64)
                    },
                );
            }
        }
    });
    ctx.suite("error kinds", |ctx| {
        use std::io::ErrorKind::*;
        for k in [NotFound, PermissionDenied, ConnectionReset, InvalidData, UnexpectedEof, Interrupted, OutOfMemory, Other, WouldBlock] {
            ctx.case(
                || format!("reader error {:?}", k),
                |_| {
                    let e = OzzError::from(std::io::Error::new(k, "x"));
                    ensure!(error_kind(&e)? == "IO", "a reader's error became {:?}", e);
                    Ok(k as u64)
                },
            );
        }
        for at in (0..6usize).chain([127, 128, 255, 256, 257, 65535, 65536, 70_000]) {
            ctx.case(
                || format!("text broken at byte {}", at),
                |_| {
                    let mut b = vec![b'a'; at];
                    b.push(0xff);
                    let e = OzzError::from(std::str::from_utf8(&b).unwrap_err());
                    ensure!(error_kind(&e)? == "Utf8" && matches!(e, OzzError::Utf8(n) if n as usize == at), "a text error became {:?}", e);
                    Ok(at as u64)
                },
            );
        }
        ctx.case(
            || "every other kind".into(),
            |_| {
                for e in [OzzError::LockPoison, OzzError::InvalidJob, OzzError::InvalidTag, OzzError::InvalidVersion, OzzError::Unexcepted, OzzError::InvalidIndex] {
                    error_kind(&e)?;
                }
                Ok(1)
            },
        );
    });
}
