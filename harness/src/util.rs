//! Bridges between plain reference data and the library's types.

use crate::assets::*;
use crate::core::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;

pub fn load_anim(a: &Anim) -> Animation {
    load_anim_bytes(&a.bytes(false)).expect("valid animation archive must load")
}

pub fn load_anim_bytes(b: &[u8]) -> Result<Animation, OzzError> {
    Animation::from_archive(&mut Archive::from_slice(b)?)
}

pub fn load_skel(s: &Skel) -> Skeleton {
    load_skel_bytes(&s.bytes(false)).expect("valid skeleton archive must load")
}

pub fn load_skel_bytes(b: &[u8]) -> Result<Skeleton, OzzError> {
    Skeleton::from_archive(&mut Archive::from_slice(b)?)
}

pub fn load_track<V: track::TrackValue>(t: &Trk) -> Track<V> {
    Track::from_archive(&mut Archive::from_slice(&t.bytes(false)).unwrap()).expect("valid track archive must load")
}

/// Every f32 of a SoA transform in a fixed order.
pub fn xf_floats(t: &SoaTransform) -> [f32; 40] {
    let mut o = [0.0; 40];
    let rows = [
        t.translation.x,
        t.translation.y,
        t.translation.z,
        t.rotation.x,
        t.rotation.y,
        t.rotation.z,
        t.rotation.w,
        t.scale.x,
        t.scale.y,
        t.scale.z,
    ];
    for (i, r) in rows.iter().enumerate() {
        o[i * 4..i * 4 + 4].copy_from_slice(r.as_array());
    }
    o
}

pub fn pose_bits(p: &[SoaTransform]) -> Vec<u32> {
    let mut v = Vec::with_capacity(p.len() * 40);
    for t in p {
        for f in xf_floats(t) {
            v.push(f.to_bits());
        }
    }
    v
}

pub fn hash_bits(b: &[u32]) -> u64 {
    let mut h = Fnv::new();
    for x in b {
        h.u32(*x);
    }
    h.get()
}

pub fn hash_pose(p: &[SoaTransform]) -> u64 {
    hash_bits(&pose_bits(p))
}

/// Component `comp` of lane `lane` of channel `c` (0 t, 1 r, 2 s).
pub fn lane(p: &[SoaTransform], joint: usize, c: usize) -> [f32; 4] {
    let t = &p[joint / 4];
    let l = joint % 4;
    match c {
        0 => [t.translation.x[l], t.translation.y[l], t.translation.z[l], 0.0],
        1 => [t.rotation.x[l], t.rotation.y[l], t.rotation.z[l], t.rotation.w[l]],
        _ => [t.scale.x[l], t.scale.y[l], t.scale.z[l], 0.0],
    }
}

pub fn get_xf(p: &[SoaTransform], joint: usize) -> Xf {
    let (t, r, s) = (lane(p, joint, 0), lane(p, joint, 1), lane(p, joint, 2));
    Xf { t: [t[0], t[1], t[2]], r, s: [s[0], s[1], s[2]] }
}

/// Builds a SoA pose; missing lanes are identity.
pub fn soa_pose(v: &[Xf], len: usize) -> Vec<SoaTransform> {
    (0..len)
        .map(|g| {
            let at = |l: usize| v.get(g * 4 + l).copied().unwrap_or(XF_ID);
            let row = |f: &dyn Fn(Xf) -> f32| [f(at(0)), f(at(1)), f(at(2)), f(at(3))];
            SoaTransform::new(
                SoaVec3::new(row(&|x| x.t[0]), row(&|x| x.t[1]), row(&|x| x.t[2])),
                SoaQuat::new(row(&|x| x.r[0]), row(&|x| x.r[1]), row(&|x| x.r[2]), row(&|x| x.r[3])),
                SoaVec3::new(row(&|x| x.s[0]), row(&|x| x.s[1]), row(&|x| x.s[2])),
            )
        })
        .collect()
}

/// A recognisable filler for output buffers.
pub fn sentinel_pose(len: usize, seed: u32) -> Vec<SoaTransform> {
    (0..len)
        .map(|i| {
            let f = |k: u32| {
                let b = 1000.0 + seed as f32 * 17.0 + i as f32 * 41.0 + k as f32 * 4.0;
                [b, b + 1.0, b + 2.0, b + 3.0]
            };
            SoaTransform::new(
                SoaVec3::new(f(0), f(1), f(2)),
                SoaQuat::new(f(3), f(4), f(5), f(6)),
                SoaVec3::new(f(7), f(8), f(9)),
            )
        })
        .collect()
}

pub fn sentinel_mats(len: usize, seed: u32) -> Vec<Mat4> {
    (0..len).map(|i| Mat4::from_cols_array(&std::array::from_fn(|k| 2000.0 + seed as f32 * 7.0 + (i * 16 + k) as f32))).collect()
}

pub fn mat_bits(m: &[Mat4]) -> Vec<u32> {
    m.iter().flat_map(|m| m.to_cols_array().map(|f| f.to_bits())).collect()
}

/// Sine and cosine from basic operations only, so that generated inputs are the same on every platform.
pub fn det_sin_cos(x: f64) -> (f64, f64) {
    let x = x - (x / std::f64::consts::TAU).round() * std::f64::consts::TAU;
    let (mut s, mut c, mut term) = (0.0, 0.0, 1.0);
    for k in 0..40 {
        match k % 4 {
            0 => c += term,
            1 => s += term,
            2 => c -= term,
            _ => s -= term,
        }
        term *= x / (k + 1) as f64;
    }
    (s, c)
}

pub fn quat_axis(axis: [f64; 3], angle: f64) -> [f32; 4] {
    let l = (axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]).sqrt();
    let (s, c) = det_sin_cos(angle / 2.0);
    [(axis[0] / l * s) as f32, (axis[1] / l * s) as f32, (axis[2] / l * s) as f32, c as f32]
}

// f64 math of the references -------------------------------------------------------------------------

pub type Q = [f64; 4];
pub type V = [f64; 3];
pub type M = [[f64; 4]; 4]; // columns

pub fn q64(q: [f32; 4]) -> Q {
    q.map(|x| x as f64)
}
pub fn v64(v: [f32; 3]) -> V {
    v.map(|x| x as f64)
}
pub fn vadd(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn vsub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn vmul(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn vdot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn vcross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn vlen(a: V) -> f64 {
    vdot(a, a).sqrt()
}
pub fn vnorm(a: V) -> V {
    vmul(a, 1.0 / vlen(a))
}
pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
        a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
pub fn qdot(a: Q, b: Q) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn qconj(a: Q) -> Q {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn qnorm(a: Q) -> Q {
    let l = qdot(a, a).sqrt();
    a.map(|x| x / l)
}
pub fn qrot(q: Q, v: V) -> V {
    let u = [q[0], q[1], q[2]];
    let t = vmul(vcross(u, v), 2.0);
    vadd(vadd(v, vmul(t, q[3])), vcross(u, t))
}
pub fn qaxis(axis: V, angle: f64) -> Q {
    let a = vnorm(axis);
    let (s, c) = det_sin_cos(angle / 2.0);
    [a[0] * s, a[1] * s, a[2] * s, c]
}
pub fn mmul(a: &M, b: &M) -> M {
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[c][r] += a[k][r] * b[c][k];
            }
        }
    }
    o
}
pub fn maffine(x: &Xf) -> M {
    let q = q64(x.r);
    let col = |v: V, s: f32| {
        let c = vmul(qrot(q, v), s as f64);
        [c[0], c[1], c[2], 0.0]
    };
    [
        col([1.0, 0.0, 0.0], x.s[0]),
        col([0.0, 1.0, 0.0], x.s[1]),
        col([0.0, 0.0, 1.0], x.s[2]),
        [x.t[0] as f64, x.t[1] as f64, x.t[2] as f64, 1.0],
    ]
}
pub fn mid() -> M {
    let mut m = [[0.0; 4]; 4];
    for (i, c) in m.iter_mut().enumerate() {
        c[i] = 1.0;
    }
    m
}
pub fn m64(m: &Mat4) -> M {
    m.to_cols_array_2d().map(|c| c.map(|x| x as f64))
}
pub fn mpoint(m: &M, v: V) -> V {
    std::array::from_fn(|r| m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2] + m[3][r])
}
pub fn mvec(m: &M, v: V) -> V {
    std::array::from_fn(|r| m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2])
}
/// Largest difference relative to the matrix magnitude.
pub fn mdiff(a: &Mat4, b: &M) -> f64 {
    let a = m64(a);
    let mut mag = 1.0f64;
    let mut d = 0.0f64;
    for c in 0..4 {
        for r in 0..4 {
            if !a[c][r].is_finite() || !b[c][r].is_finite() {
                return f64::INFINITY;
            }
            mag = mag.max(b[c][r].abs());
            d = d.max((a[c][r] - b[c][r]).abs());
        }
    }
    d / mag
}

pub trait Flat: track::TrackValue + Copy {
    fn flat(&self) -> Vec<f32>;
    fn from_flat(v: &[f32]) -> Self;
    const KIND: usize;
}
impl Flat for f32 {
    fn flat(&self) -> Vec<f32> {
        vec![*self]
    }
    fn from_flat(v: &[f32]) -> Self {
        v[0]
    }
    const KIND: usize = 0;
}
impl Flat for Vec2 {
    fn flat(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
    fn from_flat(v: &[f32]) -> Self {
        Vec2::new(v[0], v[1])
    }
    const KIND: usize = 1;
}
impl Flat for Vec3 {
    fn flat(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
    fn from_flat(v: &[f32]) -> Self {
        Vec3::new(v[0], v[1], v[2])
    }
    const KIND: usize = 2;
}
impl Flat for Vec4 {
    fn flat(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
    fn from_flat(v: &[f32]) -> Self {
        Vec4::new(v[0], v[1], v[2], v[3])
    }
    const KIND: usize = 3;
}
impl Flat for Quat {
    fn flat(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
    fn from_flat(v: &[f32]) -> Self {
        Quat::from_xyzw(v[0], v[1], v[2], v[3])
    }
    const KIND: usize = 4;
}
