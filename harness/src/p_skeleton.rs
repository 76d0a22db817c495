//! C09: local-to-model conversion; C10: skeleton queries and traversals.

use crate::assets::*;
use crate::core::*;
use crate::util::*;
use glam::Mat4;
use ozz_animation_rs::*;

/// Local transform of joint `i` in variant `var`: rotations about every axis, non-uniform and negative scales.
pub fn local(i: usize, var: usize) -> Xf {
    if var == 10 {
        // Barely anything but the identity: a part of it left out still shows.
        let k = i as f32 + 1.0;
        return Xf { t: [1e-3 * k, -5e-4, 2e-3], r: quat_axis([0.3, 1.0, -0.5], 2e-3 * (i % 3 + 1) as f64), s: [1.0005, 0.9995, 1.0 + 1e-4 * k] };
    }
    if var == 11 {
        let k = [1e-3f32, 1e3, 1.0, 30.0][i % 4];
        return Xf { t: [1e4 * k, -2e-3, 7.0 * i as f32], s: [k, 2.0 * k, 0.5 * k], ..local(i, 0) };
    }
    let a = [0.7, -1.3, 2.1, -0.4, 3.0][(i * 2 + var) % 5];
    let axis = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -1.0, 0.5], [0.2, 0.4, -1.0]][(i + 3 * var) % 5];
    let s = match var % 4 {
        0 => [1.0, 1.0, 1.0],
        1 => [1.25, 0.75, 1.0],
        2 => [-1.0, 1.0, 0.5],
        _ => [0.9, 1.1, -1.2],
    };
    let r = if var % 3 == 2 && i % 2 == 0 { [0.0, 0.0, 0.0, 1.0] } else { quat_axis(axis, a) };
    Xf {
        t: [0.5 + i as f32, -0.25 * (i % 7) as f32, (var as f32) * 0.5 - (i % 3) as f32],
        r,
        s,
    }
}

fn roots() -> Vec<Option<Mat4>> {
    vec![
        None,
        Some(Mat4::from_cols_array(&[0.0, 1.0, 0.0, 0.0, -2.0, 0.0, 0.0, 0.0, 0.0, 0.5, 1.0, 0.0, 3.0, -1.0, 2.0, 1.0])),
    ]
}

struct L2m<'a> {
    parents: &'a [i16],
    skel: &'a Skeleton,
    locals: Vec<Xf>,
    input: Vec<SoaTransform>,
}

impl L2m<'_> {
    /// Joints a run must rewrite, from the hierarchy alone.
    fn updated(&self, from: i64, to: i64, excluded: bool) -> Vec<bool> {
        let n = self.parents.len();
        let mut up = vec![false; n];
        for j in 0..n {
            if (j as i64) > to {
                continue;
            }
            // In the subtree of `from`?
            let mut inside = from < 0;
            let mut k = j as i64;
            while k >= 0 && !inside {
                inside = k == from;
                k = self.parents[k as usize] as i64;
            }
            if excluded && j as i64 == from {
                inside = false;
            }
            up[j] = inside;
        }
        up
    }

    /// Runs the job on `out` and checks it against the hierarchy.
    fn run(&self, from: Option<i32>, to: Option<i32>, excluded: bool, root: Option<Mat4>, out: &mut Vec<Mat4>) -> Result<u64, String> {
        let before = out.clone();
        {
            let mut job: LocalToModelJobRef = LocalToModelJob::default();
            job.set_skeleton(self.skel);
            job.set_input(&self.input);
            job.set_output(&mut out[..]);
            if let Some(f) = from {
                job.set_from(f);
            }
            if let Some(t) = to {
                job.set_to(t);
            }
            if excluded {
                job.set_from_excluded(true);
            }
            if let Some(r) = root {
                job.set_root(&r);
            }
            ensure!(job.validate(), "valid job refused");
            job.run().map_err(|e| format!("run failed: {:?}", e))?;
        }
        let up = self.updated(from.unwrap_or(-1) as i64, to.unwrap_or(i32::MAX) as i64, excluded);
        let root = root.map(|r| m64(&r)).unwrap_or(mid());
        let mut h = Fnv::new();
        for j in 0..out.len() {
            if j >= up.len() || !up[j] {
                let same = mat_bits(&out[j..j + 1]) == mat_bits(&before[j..j + 1]);
                ensure!(same, "matrix {} is outside the requested part but was rewritten (from {:?} to {:?} excluded {})", j, from, to, excluded);
                continue;
            }
            // Parent matrix as it stands after the run: the composition must hold link by link.
            let p = self.parents[j];
            let parent = if p < 0 { root } else { m64(&out[p as usize]) };
            let want = mmul(&parent, &maffine(&self.locals[j]));
            // Each entry to a few roundings of the products it sums, however small they are.
            let x = &self.locals[j];
            let got = m64(&out[j]);
            let close = (0..4).all(|c| (0..4).all(|r| {
                let scale: f64 = (0..4).map(|k| parent[k][r].abs() * match (c, k) { (3, 3) => 1.0, (_, 3) => 0.0, (3, _) => x.t[k].abs() as f64, _ => x.s[c].abs() as f64 }).sum();
                (got[c][r] - want[c][r]).abs() <= 2e-6 * scale + 1e-36
            }));
            ensure!(close, "matrix {} is {:?}, expected {:?} (parent {}, from {:?} to {:?} excluded {})", j, out[j].to_cols_array(), want, p, from, to, excluded);
            for c in 0..4 {
                ensure!(out[j].to_cols_array()[c * 4 + 3] == if c == 3 { 1.0 } else { 0.0 } || root_is_projective(&root) || tainted(&before, self.parents, j, &up), "matrix {} is not affine", j);
            }
            h.u64(j as u64);
        }
        for v in mat_bits(out) {
            h.u32(v);
        }
        Ok(h.get())
    }
}

fn root_is_projective(r: &M) -> bool {
    r[0][3] != 0.0 || r[1][3] != 0.0 || r[2][3] != 0.0 || r[3][3] != 1.0
}

/// Does joint `j` inherit from a matrix the caller supplied (an untouched ancestor)?
fn tainted(_before: &[Mat4], parents: &[i16], j: usize, up: &[bool]) -> bool {
    let mut k = parents[j];
    while k >= 0 {
        if !up[k as usize] {
            return true;
        }
        k = parents[k as usize];
    }
    false
}

/// Affine matrices a caller could have left in the output.
fn affine_fill(n: usize, seed: usize) -> Vec<Mat4> {
    (0..n)
        .map(|i| {
            let m = maffine(&local(i + 2, seed + 1));
            Mat4::from_cols_array_2d(&m.map(|c| c.map(|x| x as f32)))
        })
        .collect()
}

pub fn c09(ctx: &mut Ctx) {
    let nmax = ctx.more(ctx.pick(7, 8), 9);
    ctx.suite("hierarchies", |ctx| {
        for n in 0..=nmax {
            for parents in hierarchies(n) {
                for (ri, root) in roots().into_iter().enumerate() {
                    for var in (0..ctx.pick(2, 4)).chain([10, 11]) {
                        ctx.case(
                            || format!("parents {:?}, root {}, transforms {}", parents, ri, var),
                            |st| {
                                let skel = load_skel(&Skel::of(&parents));
                                let locals: Vec<Xf> = (0..n).map(|i| local(i, var)).collect();
                                let input = soa_pose(&locals, n.div_ceil(4));
                                let l = L2m { parents: &parents, skel: &skel, locals, input };
                                let mut h = Fnv::new();
                                // Default run.
                                let mut out = affine_fill(n + 1, 3);
                                h.u64(l.run(None, None, false, root, &mut out)?);
                                for from in -2..=n as i32 + 1 {
                                    for to in -2..=n as i32 + 1 {
                                        for excluded in [false, true] {
                                            let mut out = affine_fill(n + 1, 3);
                                            h.u64(l.run(Some(from), Some(to), excluded, root, &mut out)?);
                                            st.transition();
                                        }
                                    }
                                }
                                Ok(h.get())
                            },
                        );
                    }
                }
            }
        }
    });
    // Any matrix is a root: mirrored, flattened to a plane, a line or a point, tiny, huge, sheared, projective; and
    // the same for the scales of the joints.
    ctx.suite("roots", |ctx| {
        let mut roots: Vec<[f32; 16]> = Vec::new();
        for s in [[1.0f32, 1.0, 1.0], [-1.0, 1.0, 1.0], [-2.0, -1.0, -0.5], [1.0, 0.0, 1.0], [0.0, 0.0, 3.0], [0.0; 3], [1e-6, 1e-6, 1e-6], [1e6, 1e6, 1e6], [1e-4, 1.0, 1e4], [1.0 + 1e-4, 1.0, 1.0 - 1e-4]] {
            for (t, last) in [([0.0f32, 0.0, 0.0], 1.0f32), ([0.0, 3.0, 0.0], 1.0), ([1e5, -1e5, 1.0], 1.0), ([1e-5, 0.0, 0.0], 1.0), ([1.0, 2.0, 3.0], 2.0), ([1.0, 2.0, 3.0], 0.0)] {
                roots.push([s[0], 0.0, 0.0, 0.0, 0.0, s[1], 0.0, 0.0, 0.0, 0.0, s[2], 0.0, t[0], t[1], t[2], last]);
                roots.push([0.0, s[0], 0.0, 0.0, -s[1], 0.0, 0.0, 0.0, s[2], 0.0, s[2], 0.0, t[0], t[1], t[2], last]);
            }
        }
        roots.push([1.0, 0.0, 0.0, 0.5, 0.0, 1.0, 0.0, -0.25, 0.0, 0.0, 1.0, 0.125, 0.0, 0.0, 0.0, 1.0]);
        for (ri, root) in roots.into_iter().enumerate() {
            for n in 1..=3usize {
                for parents in hierarchies(n) {
                    ctx.case(
                        || format!("root {:?}, parents {:?}: every kind of local scale, every first joint", root, parents),
                        |st| {
                            let skel = load_skel(&Skel::of(&parents));
                            let mut h = Fnv::new();
                            for (k, s) in [[1.0f32, 1.0, 1.0], [0.0, 1.0, 1.0], [0.0; 3], [-1.0, 2.0, 1.0], [1e-5, 1.0, 1.0], [1e4; 3]].into_iter().enumerate() {
                                let locals: Vec<Xf> = (0..n).map(|i| Xf { s: if (i + k) % 2 == 0 { s } else { local(i, 1).s }, ..local(i, ri + k) }).collect();
                                let input = soa_pose(&locals, n.div_ceil(4));
                                let l = L2m { parents: &parents, skel: &skel, locals, input };
                                for from in -1..n as i32 {
                                    let mut out = affine_fill(n, 3);
                                    h.u64(l.run(Some(from), None, false, Some(Mat4::from_cols_array(&root)), &mut out)?);
                                    st.transition();
                                }
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        }
    });
    // Limits of the index parameters.
    ctx.suite("index-limits", |ctx| {
        for parents in [vec![-1i16], vec![-1, 0, 1, -1], vec![-1, 0, 0, 2, 3]] {
            let n = parents.len();
            for from in [i32::MIN, -1024, -1, 0, 1, 1023, 1024, 1025, i32::MAX - 1, i32::MAX] {
                for to in [i32::MIN, -1024, -1, 0, 1, 1023, 1024, 1025, i32::MAX - 1, i32::MAX] {
                    for excluded in [false, true] {
                        ctx.case(
                            || format!("parents {:?} from {} to {} excluded {}", parents, from, to, excluded),
                            |_| {
                                let skel = load_skel(&Skel::of(&parents));
                                let locals: Vec<Xf> = (0..n).map(|i| local(i, 1)).collect();
                                let input = soa_pose(&locals, n.div_ceil(4));
                                let l = L2m { parents: &parents, skel: &skel, locals, input };
                                let mut out = affine_fill(n, 3);
                                l.run(Some(from), Some(to), excluded, None, &mut out)
                            },
                        );
                    }
                }
            }
        }
    });
    // Large skeletons, around SoA and 8/16-bit boundaries.
    ctx.suite("large", |ctx| {
        for n in [15usize, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024] {
            for shape in 0..4 {
                let parents: Vec<i16> = match shape {
                    0 => (0..n).map(|i| if i % 9 == 0 { -1 } else { i as i16 - 1 }).collect(),
                    1 => (0..n).map(|i| if i == 0 { -1 } else { 0 }).collect(),
                    2 => vec![-1; n],
                    _ => crate::p_assets::big_hierarchy(n),
                };
                let probe: Vec<i32> = [-1, 0, 1, 2, 3, 4, 5, 8, 9, n as i32 / 2, n as i32 / 2 + 1, n as i32 - 5, n as i32 - 2, n as i32 - 1, n as i32].into_iter().filter(|f| *f <= n as i32).collect();
                for from in probe {
                    ctx.case(
                        || format!("{} joints, shape {}, from {}", n, shape, from),
                        |st| {
                            let skel = load_skel(&Skel::of(&parents));
                            let locals: Vec<Xf> = (0..n).map(|i| Xf { t: [0.5, (i % 5) as f32, -0.25], ..local(i, 0) }).collect();
                            let input = soa_pose(&locals, n.div_ceil(4));
                            let l = L2m { parents: &parents, skel: &skel, locals, input };
                            let mut h = Fnv::new();
                            let tos = [None, Some(n as i32 - 1), Some(n as i32 - 2), Some(from), Some(from + 3), Some(n as i32 / 2)];
                            for to in tos {
                                for ex in [false, true] {
                                    let mut out = affine_fill(n, 3);
                                    h.u64(l.run(Some(from), to, ex, None, &mut out)?);
                                    st.transition();
                                }
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        }
    });
    // Histories: after a full update, change joints one after the other and update only their subtrees; the
    // output must equal a full update of the final pose, bit for bit.
    ctx.suite("partial-histories", |ctx| {
        let depth = ctx.more(ctx.pick(3, 4), 5);
        for n in 1..=ctx.pick(5, 6) {
            for parents in hierarchies(n) {
                ctx.case(
                    || format!("parents {:?}: every sequence of {} joint changes, each followed by a partial update", parents, depth),
                    |st| {
                        let skel = load_skel(&Skel::of(&parents));
                        let mut h = Fnv::new();
                        let run = |locals: &[Xf], from: i32, ex: bool, out: &mut Vec<Mat4>| -> Result<(), String> {
                            let input = soa_pose(locals, n.div_ceil(4));
                            let mut job: LocalToModelJobRef = LocalToModelJob::default();
                            job.set_skeleton(&skel);
                            job.set_input(&input);
                            job.set_output(&mut out[..]);
                            job.set_from(from);
                            job.set_from_excluded(ex);
                            job.run().map_err(|e| format!("{:?}", e))
                        };
                        let mut err = None;
                        let base: Vec<Xf> = (0..n).map(|i| local(i, 0)).collect();
                        let mut out0 = sentinel_mats(n, 1);
                        run(&base, -1, false, &mut out0)?;
                        tuples(n, depth, |seq| {
                            if err.is_some() {
                                return;
                            }
                            let mut locals = base.clone();
                            let mut out = out0.clone();
                            for (k, j) in seq.iter().enumerate() {
                                locals[*j] = local(*j + 5 * k + 1, k + 1);
                                let before = out.clone();
                                if let Err(e) = run(&locals, *j as i32, false, &mut out) {
                                    err = Some(e);
                                    return;
                                }
                                // Running again with the joint itself excluded must change nothing.
                                let mut again = out.clone();
                                let _ = run(&locals, *j as i32, true, &mut again);
                                let mut full = before;
                                let _ = run(&locals, -1, false, &mut full);
                                st.transition();
                                if mat_bits(&out) != mat_bits(&full) {
                                    err = Some(format!("changes {:?}: partial update differs from a full update", &seq[..=k]));
                                    return;
                                }
                                if mat_bits(&out) != mat_bits(&again) {
                                    err = Some(format!("changes {:?}: update of the strict descendants differs", &seq[..=k]));
                                    return;
                                }
                            }
                            for b in mat_bits(&out) {
                                h.u32(b);
                            }
                        });
                        match err {
                            Some(e) => Err(e),
                            None => Ok(h.get()),
                        }
                    },
                );
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------

fn descendants(parents: &[i16], from: usize) -> Vec<bool> {
    (0..parents.len())
        .map(|j| {
            let mut k = j as i32;
            while k >= 0 && k as usize != from {
                k = parents[k as usize] as i32;
            }
            k >= 0
        })
        .collect()
}

/// Checks one visit order: exactly `expect`, parents before (or after) children, parents reported right.
fn check_visit(parents: &[i16], expect: &[bool], seen: &[(i16, i16)], reverse: bool, what: &str) -> Result<(), String> {
    let n = parents.len();
    let mut pos = vec![usize::MAX; n];
    for (k, (j, p)) in seen.iter().enumerate() {
        ensure!(*j >= 0 && (*j as usize) < n, "{}: visited joint {}", what, j);
        let ju = *j as usize;
        ensure!(pos[ju] == usize::MAX, "{}: joint {} visited twice", what, j);
        ensure!(expect[ju], "{}: joint {} is not part of the traversal", what, j);
        ensure!(*p == parents[ju], "{}: joint {} reported with parent {}", what, j, p);
        pos[ju] = k;
    }
    for j in 0..n {
        ensure!(!expect[j] || pos[j] != usize::MAX, "{}: joint {} was not visited", what, j);
        let p = parents[j];
        if expect[j] && p >= 0 && expect[p as usize] {
            let ok = if reverse { pos[p as usize] > pos[j] } else { pos[p as usize] < pos[j] };
            ensure!(ok, "{}: joint {} and its parent {} are visited in the wrong order", what, j, p);
        }
    }
    // Depth-first: subtrees are contiguous in the visit order.
    let mut k = 0;
    while k < seen.len() && n <= 64 {
        let j = seen[k].0 as usize;
        let d = descendants(parents, j);
        let count = d.iter().filter(|x| **x).count();
        let range = if reverse { k + 1 - count.min(k + 1)..k + 1 } else { k..(k + count).min(seen.len()) };
        ensure!(range.len() == count && seen[range].iter().all(|(c, _)| d[*c as usize]), "{}: the subtree of {} is not contiguous", what, j);
        k += 1;
    }
    Ok(())
}

pub fn check_queries(s: &Skel, x: &Skeleton) -> Result<u64, String> {
    let n = s.parents.len();
    let mut h = Fnv::new();
    h.u64(crate::p_assets::check_skel(s, x)?);
    for j in 0..n {
        let leaf = !s.parents.contains(&(j as i16));
        for got in [x.is_leaf(j), x.is_leaf(j as i32), x.is_leaf(j as i16)] {
            ensure!(got == leaf, "is_leaf({}) is {} in {:?}", j, got, s.parents);
        }
        ensure!(x.joint_parent(j) == s.parents[j] && x.joint_parent(j as i32) == s.parents[j] && x.joint_parent(j as i16) == s.parents[j], "parent of {}", j);
        h.u64(leaf as u64);
    }
    // Names that do not exist, indices that do not exist.
    for extra in ["no such joint", "joint", "joint_", "JOINT_0", " joint_0", "joint_0 ", "\0"] {
        let want = s.names.iter().position(|n| n == extra).map(|i| i as i16);
        ensure!(x.joint_by_name(extra) == want, "joint_by_name({:?}) is {:?}", extra, x.joint_by_name(extra));
    }
    for idx in [-1i16, n as i16, n as i16 + 1, i16::MIN, i16::MAX] {
        if idx < 0 || idx as usize >= n {
            ensure!(x.name_by_joint(idx).is_none(), "name_by_joint({}) is {:?}", idx, x.name_by_joint(idx));
        }
    }
    let froms: Vec<i32> = if n <= 64 { (-3..n as i32 + 2).collect() } else { vec![-1, 0, 1, 2, 5, n as i32 / 3, n as i32 / 2, n as i32 - 2, n as i32 - 1, n as i32] };
    for from in froms {
        let expect = if from < 0 {
            vec![true; n]
        } else if from as usize >= n {
            vec![false; n]
        } else {
            descendants(&s.parents, from as usize)
        };
        let mut seen = Vec::new();
        x.iter_depth_first(from, |j, p| seen.push((j, p)));
        check_visit(&s.parents, &expect, &seen, false, &format!("depth-first from {} in {:?}", from, s.parents))?;
        let mut seen2 = Vec::new();
        x.iter_depth_first(from as i16, |j, p| seen2.push((j, p)));
        ensure!(seen == seen2, "depth-first from {}: index types disagree", from);
        if from >= 0 {
            let mut seen3 = Vec::new();
            x.iter_depth_first(from as usize, |j, p| seen3.push((j, p)));
            ensure!(seen == seen3, "depth-first from {}: index types disagree", from);
        }
        for (j, _) in &seen {
            h.u64(*j as u64);
        }
    }
    let mut seen = Vec::new();
    x.iter_depth_first_reverse(|j, p| seen.push((j, p)));
    check_visit(&s.parents, &vec![true; n], &seen, true, &format!("reverse in {:?}", s.parents))?;
    Ok(h.get())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.suite("hierarchies", |ctx| {
        for n in 0..=ctx.more(ctx.pick3(9, 11, 12), 13) {
            for parents in hierarchies(n) {
                ctx.case(
                    || format!("parents {:?}", parents),
                    |_| {
                        let s = crate::p_assets::skel(&parents, n % 2);
                        check_queries(&s, &load_skel(&s))
                    },
                );
            }
        }
    });
    ctx.suite("large", |ctx| {
        for n in (12..ctx.pick(140, 400)).chain([255, 256, 257, 1000, 1023, 1024]) {
            for shape in 0..4 {
                ctx.case(
                    || format!("{} joints, shape {}", n, shape),
                    |_| {
                        let parents: Vec<i16> = match shape {
                            0 => (0..n).map(|i| i as i16 - 1).collect(),
                            1 => (0..n).map(|i| if i == 0 { -1 } else { 0 }).collect(),
                            2 => vec![-1; n],
                            _ => crate::p_assets::big_hierarchy(n),
                        };
                        let s = crate::p_assets::skel(&parents, 0);
                        check_queries(&s, &load_skel(&s))
                    },
                );
            }
        }
    });
    // Every assignment of awkward names to a few joints.
    ctx.suite("names", |ctx| {
        let names = ["", "a", "A", "a ", "\u{e9}", "e\u{301}", "joint_1", "x\ty", "\u{1F600}\u{10FFFF}", "0"];
        for n in 1..=ctx.pick3(3, 4, 5) {
            tuples(names.len(), n, |t| {
                if (0..n).any(|i| t[..i].contains(&t[i])) {
                    return;
                }
                ctx.case(
                    || format!("names {:?}", t.iter().map(|i| names[*i]).collect::<Vec<_>>()),
                    |_| {
                        let parents: Vec<i16> = (0..n).map(|i| (i as i16 - 1) / 2 - (i == 0) as i16).collect();
                        let parents: Vec<i16> = parents.iter().enumerate().map(|(i, p)| if i == 0 { -1 } else { (*p).max(0) }).collect();
                        let parents = if hierarchies(n).contains(&parents) { parents } else { (0..n).map(|i| i as i16 - 1).collect() };
                        let mut s = Skel::of(&parents);
                        s.names = t.iter().map(|i| names[*i].to_string()).collect();
                        let x = load_skel(&s);
                        for nm in names {
                            let want = s.names.iter().position(|v| v == nm).map(|i| i as i16);
                            ensure!(x.joint_by_name(nm) == want, "joint_by_name({:?}) is {:?} expected {:?}", nm, x.joint_by_name(nm), want);
                        }
                        check_queries(&s, &x)
                    },
                );
            });
        }
    });
}
