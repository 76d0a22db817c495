//! C18: matrix-palette skinning against a double-precision reference.

use crate::core::*;
use crate::util::*;
use glam::{Mat4, Vec3, Vec4};
use ozz_animation_rs::*;

/// Affine matrix number `k`: rotation, non-uniform scale, shear, translation.
pub fn mat(k: usize) -> Mat4 {
    let q = quat_axis([1.0, 0.3 * k as f64 - 0.5, 0.4], 0.4 + 0.7 * (k % 7) as f64);
    let r = Mat4::from_quat(glam::Quat::from_xyzw(q[0], q[1], q[2], q[3]));
    let sh = Mat4::from_cols(
        Vec4::new(1.0 + 0.1 * (k % 5) as f32, 0.25, 0.0, 0.0),
        Vec4::new(-0.125, 0.75, 0.5 * (k % 3) as f32, 0.0),
        Vec4::new(0.0, 0.1, 2.0 - 0.2 * (k % 4) as f32, 0.0),
        Vec4::new(k as f32 - 3.0, 2.0 + 0.5 * (k % 6) as f32, -1.25, 1.0),
    );
    r * sh
}

/// An inverse-transpose palette that is clearly not the one for points.
pub fn mat_it(k: usize) -> Mat4 {
    let m = mat(k).inverse().transpose();
    // The last row of an inverse transpose is not affine; vectors ignore it.
    m
}

pub fn vert(kind: usize, i: usize) -> Vec3 {
    let f = |m: usize| ((i * m + kind * 5) % 13) as f32 * 0.5 - 3.0;
    Vec3::new(f(3), f(7) + 0.25, f(11) - 0.5)
}

#[derive(Clone, Debug)]
pub struct Skin {
    pub n: usize,
    pub count: usize,
    pub normals: bool,
    pub tangents: bool,
    pub it: bool,
    /// Extra elements in every buffer, and outputs given although not needed.
    pub extra: usize,
    pub surplus: bool,
    pub joints: usize,
    pub indices: Vec<u16>,
    pub weights: Vec<f32>,
}

fn sent(seed: usize, i: usize) -> Vec3 {
    Vec3::new(-7777.0 - seed as f32, i as f32 * 0.5 + 0.125, 1e6)
}

fn v3(v: Vec3) -> V {
    [v.x as f64, v.y as f64, v.z as f64]
}

fn wsum(ms: &[Mat4], s: &Skin, i: usize) -> (M, f64) {
    let mut w: Vec<f64> = (0..s.n - 1).map(|k| s.weights[i * (s.n - 1) + k] as f64).collect();
    w.push(1.0 - w.iter().sum::<f64>());
    let mut m = [[0.0; 4]; 4];
    let mut mag = 0.0;
    for k in 0..s.n {
        let a = m64(&ms[s.indices[i * s.n + k] as usize]);
        let mut big = 0.0f64;
        for c in 0..4 {
            for r in 0..4 {
                m[c][r] += w[k] * a[c][r];
                big = big.max(a[c][r].abs());
            }
        }
        mag += w[k].abs() * big;
    }
    (m, mag)
}

pub fn check(s: &Skin) -> Result<u64, String> {
    let ms: Vec<Mat4> = (0..s.joints).map(mat).collect();
    let its: Vec<Mat4> = (0..s.joints).map(mat_it).collect();
    let len = s.count + s.extra;
    let ins: Vec<Vec<Vec3>> = (0..3).map(|k| (0..len).map(|i| vert(k, i)).collect()).collect();
    let mut outs: Vec<Vec<Vec3>> = (0..3).map(|k| (0..len).map(|i| sent(k, i)).collect()).collect();
    {
        let mut job: SkinningJobRef = SkinningJob::default();
        job.set_vertex_count(s.count);
        job.set_influences_count(s.n);
        job.set_joint_matrices(&ms);
        job.set_joint_indices(&s.indices);
        if s.n > 1 || s.surplus {
            job.set_joint_weights(&s.weights);
        }
        if s.it {
            job.set_joint_it_matrices(&its);
        }
        let mut o = outs.iter_mut();
        job.set_in_positions(&ins[0]);
        job.set_out_positions(o.next().unwrap());
        let (n, t) = (o.next().unwrap(), o.next().unwrap());
        if s.normals {
            job.set_in_normals(&ins[1]);
        }
        if s.normals || s.surplus {
            job.set_out_normals(n);
        }
        if s.tangents {
            job.set_in_tangents(&ins[2]);
        }
        if s.tangents || s.surplus {
            job.set_out_tangents(t);
        }
        ensure!(job.validate(), "valid job refused ({} influences, {} vertices)", s.n, s.count);
        job.run().map_err(|e| format!("run failed: {:?}", e))?;
    }
    let mut h = Fnv::new();
    for (k, out) in outs.iter().enumerate() {
        let wanted = k == 0 || (k == 1 && s.normals) || (k == 2 && s.tangents);
        for (i, o) in out.iter().enumerate() {
            if !wanted || i >= s.count {
                ensure!(*o == sent(k, i), "output {} element {} must not be written: {:?}", k, i, o);
                continue;
            }
            let (m, mag) = wsum(if k > 0 && s.it { &its } else { &ms }, s, i);
            let v = v3(ins[k][i]);
            let want = if k == 0 { mpoint(&m, v) } else { mvec(&m, v) };
            let tol = 4e-6 * (1.0 + mag) * (1.0 + vlen(v));
            for c in 0..3 {
                ensure!(
                    (o[c] as f64 - want[c]).abs() <= tol,
                    "vertex {} attribute {}: {:?} expected {:?} (indices {:?}, weights {:?})",
                    i, k, o, want,
                    &s.indices[i * s.n..(i + 1) * s.n],
                    &s.weights[i * (s.n - 1)..((i + 1) * (s.n - 1))]
                );
            }
            if i < 64 {
                h.fs(&o.to_array());
            }
        }
    }
    Ok(h.get())
}

/// Attribute combinations: (normals, tangents, inverse transpose, unneeded outputs).
fn modes() -> Vec<(bool, bool, bool, bool)> {
    let mut v = Vec::new();
    for (n, t) in [(false, false), (true, false), (true, true)] {
        for it in [false, true] {
            for s in [false, true] {
                v.push((n, t, it, s));
            }
        }
    }
    v
}

pub fn c18(ctx: &mut Ctx) {
    // Every (index tuple, weight tuple): one vertex each.
    ctx.suite("tuples", |ctx| {
        let wa = [0.0f32, 0.5, 0.3, 1.0, -0.25];
        for n in 1..=ctx.more(ctx.pick(5usize, 6), 8) {
            let joints = if n <= ctx.more(4, 5) { 3 } else { 2 };
            let wn = match n { 1..=4 => wa.len(), 5 => ctx.pick(3, 5), 6 => ctx.more(3, 4), _ => 3 };
            let mut indices = Vec::new();
            let mut weights = Vec::new();
            let mut count = 0;
            tuples(joints, n, |ix| {
                tuples(wn, n - 1, |w| {
                    indices.extend(ix.iter().map(|i| *i as u16));
                    weights.extend(w.iter().map(|i| wa[*i]));
                    count += 1;
                });
            });
            for (normals, tangents, it, surplus) in modes() {
                ctx.case(
                    || format!("{} influences, {} vertices (every index and weight tuple), normals {} tangents {} it {}", n, count, normals, tangents, it),
                    |st| {
                        st.transitions += count as u64;
                        check(&Skin { n, count, normals, tangents, it, extra: 0, surplus, joints, indices: indices.clone(), weights: weights.clone() })
                    },
                );
            }
        }
    });
    // Weights next to none and next to all.
    ctx.suite("nearly-one", |ctx| {
        let wa = [0.9995f32, 5e-4, 0.5, 1.0005, 0.0, 1e-4, -5e-4];
        for n in 2..=ctx.more(ctx.pick(4usize, 5), 6) {
            let mut indices = Vec::new();
            let mut weights = Vec::new();
            let mut count = 0;
            tuples(2, n, |ix| {
                tuples(wa.len(), n - 1, |w| {
                    indices.extend(ix.iter().map(|i| *i as u16));
                    weights.extend(w.iter().map(|i| wa[*i]));
                    count += 1;
                });
            });
            for (normals, tangents, it, surplus) in modes() {
                ctx.case(
                    || format!("{} influences, {} vertices, normals {} tangents {} it {}", n, count, normals, tangents, it),
                    |st| {
                        st.transitions += count as u64;
                        check(&Skin { n, count, normals, tangents, it, extra: 0, surplus, joints: 2, indices: indices.clone(), weights: weights.clone() })
                    },
                );
            }
        }
    });
    ctx.suite("shapes", |ctx| {
        for n in 1..=ctx.more(ctx.pick(9usize, 16), 40) {
            for count in (0..=ctx.more(ctx.pick(34usize, 70), 140)).chain([127, 128, 129, 255, 256, 257, 1000]) {
                for (normals, tangents, it, surplus) in modes() {
                    for extra in [0usize, 3] {
                        ctx.case(
                            || format!("{} influences, {} vertices (+{}), normals {} tangents {} it {} surplus {}", n, count, extra, normals, tangents, it, surplus),
                            |st| {
                                let joints = 1 + (n * 3 + count) % 11;
                                let len = count + extra;
                                st.transitions += count as u64;
                                check(&Skin {
                                    n, count, normals, tangents, it, extra, surplus, joints,
                                    indices: (0..len * n).map(|i| ((i * 7 + i / 3) % joints) as u16).collect(),
                                    weights: (0..len * (n - 1)).map(|i| [0.125f32, 0.3, 0.0, 0.0625, 0.2][(i * 3 + i / 5) % 5]).collect(),
                                })
                            },
                        );
                    }
                }
            }
        }
    });
    // Sizes beyond any internal batch or index width.
    ctx.suite("large", |ctx| {
        let ns: Vec<usize> = [1usize, 2, 3, 4, 5, 7, 8, 17, 31, 32, 33, 40].into_iter().chain(if ctx.wide() { vec![63, 64, 65, 128, 255, 256, 257] } else { vec![] }).collect();
        for n in ns {
            let counts: Vec<usize> = ctx.pick3(vec![1, 300, 2049], vec![1, 5, 300, 2049, 65537], vec![1, 5, 300, 511, 513, 2049, 4097, 65535, 65537, 140000]);
            for count in counts {
                if count * n > 1_500_000 {
                    continue;
                }
                for (mi, (normals, tangents, it, surplus)) in modes().into_iter().enumerate() {
                    if count > 5000 && !ctx.deepest() && mi % 3 != 2 {
                        continue;
                    }
                    ctx.case(
                        || format!("{} influences, {} vertices, normals {} tangents {} it {} surplus {}", n, count, normals, tangents, it, surplus),
                        |st| {
                            st.transitions += count as u64;
                            let joints = 37;
                            check(&Skin {
                                n, count, normals, tangents, it, extra: 1, surplus, joints,
                                indices: (0..(count + 1) * n).map(|i| ((i * 7 + i / 3 + i / 1021) % joints) as u16).collect(),
                                weights: (0..(count + 1) * (n - 1)).map(|i| [0.125f32, 0.3, 0.0, 0.0625, 0.2][(i * 3 + i / 5) % 5] / (1.0 + n as f32 / 8.0)).collect(),
                            })
                        },
                    );
                }
            }
        }
    });
    // Joint indices up to the end of the index type.
    ctx.suite("palette", |ctx| {
        for n in 1..=6usize {
            for (normals, tangents, it, surplus) in modes() {
                for (ji, joints) in [1usize, 2, 255, 256, 257, 32768, 32769, 65536].into_iter().enumerate() {
                    if joints > 300 && !ctx.wide() && (surplus || n > 5) {
                        continue;
                    }
                    ctx.case(
                        || format!("{} influences among {} joints, normals {} tangents {} it {}", n, joints, normals, tangents, it),
                        |_| {
                            let count = 6;
                            let pick = [joints - 1, 0, joints / 2, joints.saturating_sub(2), joints.min(256) - 1, joints.min(257) - 1];
                            check(&Skin {
                                n, count, normals, tangents, it, extra: 0, surplus, joints,
                                indices: (0..count * n).map(|i| pick[(i + ji + i / n) % 6] as u16).collect(),
                                weights: (0..count * (n - 1)).map(|i| [0.25f32, 0.1, 0.0, 0.35][i % 4]).collect(),
                            })
                        },
                    );
                }
            }
        }
    });
}
