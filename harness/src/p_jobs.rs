//! C12: the validation gate of every job; C23: a reused job behaves like a fresh one.

use crate::assets::*;
use crate::core::*;
use crate::p_assets::trk;
use crate::p_blend::{blend_skel, jws, pose};
use crate::p_skin::{mat, vert};
use crate::util::*;
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;

fn v3_bits(v: &[Vec3]) -> Vec<u32> {
    v.iter().flat_map(|v| v.to_array().map(f32::to_bits)).collect()
}

/// Compares validate and run with what the parameters deserve; `changed` tells whether an output changed.
fn gate(want: bool, validated: bool, run: Result<Result<(), OzzError>, String>, changed: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    let run = run.map_err(|p| format!("{}: run panicked: {}", what(), p))?;
    ensure!(validated == want, "{}: validate says {}, expected {}", what(), validated, want);
    match run {
        Ok(()) => ensure!(want, "{}: run accepted invalid parameters", what()),
        Err(OzzError::InvalidJob) => {
            ensure!(!want, "{}: run refused valid parameters", what());
            ensure!(!changed, "{}: a refused run modified its output", what());
        }
        Err(e) => return Err(format!("{}: run returned {:?}", what(), e)),
    }
    Ok(())
}

/// Buffer sizes to try around the needed one: absent, empty, one short, exact, one more, many more.
fn sizes(need: usize) -> Vec<Option<usize>> {
    let mut v = vec![None, Some(0), Some(need), Some(need + 1), Some(need + 9)];
    if need > 0 {
        v.push(Some(need - 1));
    }
    if need > 2 {
        v.push(Some(need / 2));
    }
    v.sort();
    v.dedup();
    v
}

fn enough(s: Option<usize>, need: usize) -> bool {
    s.is_some_and(|s| s >= need)
}

pub fn c12(ctx: &mut Ctx) {
    ctx.suite("sampling", |ctx| {
        for n in (0..=ctx.more(ctx.pick(13usize, 40), 300)).chain([64, 65, 129]).chain(ctx.pick(vec![], vec![255, 256, 257, 513, 1023, 1024])) {
            ctx.case(
                || format!("animation of {} tracks: every context and output size", n),
                |st| {
                    let anim = load_anim(&crate::p_sampling::sample_anim(n));
                    let soa = n.div_ceil(4);
                    for have in [false, true] {
                        for cs in sizes(n) {
                            for os in sizes(soa) {
                                for ratio in [0.0f32, 0.4, 1.0] {
                                    let mut j: SamplingJob<&Animation, Vec<SoaTransform>> = SamplingJob::default();
                                    if have {
                                        j.set_animation(&anim);
                                    }
                                    if let Some(c) = cs {
                                        j.set_context(SamplingContext::new(c));
                                    }
                                    let before = sentinel_pose(os.unwrap_or(0), 3);
                                    if os.is_some() {
                                        j.set_output(before.clone());
                                    }
                                    j.set_ratio(ratio);
                                    // Capacities are counted in groups of four tracks.
                                    let want = have && cs.is_some_and(|c| c.div_ceil(4) >= soa) && enough(os, soa);
                                    let v = j.validate();
                                    let r = guard(|| j.run());
                                    let changed = j.output().is_some_and(|o| pose_bits(o) != pose_bits(&before));
                                    gate(want, v, r, changed, &|| format!("animation {} context {:?} output {:?}", have, cs, os))?;
                                    st.transition();
                                }
                            }
                        }
                    }
                    Ok(n as u64)
                },
            );
        }
    });
    ctx.suite("blending", |ctx| {
        for n in ctx.more(vec![0usize, 1, 4, 5, 9], vec![0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 16, 17]) {
            let soa = n.div_ceil(4);
            // One layer: (transform size, joint weight size, weight).
            let lays: Vec<(usize, usize, f32)> = sizes(soa)
                .into_iter()
                .flatten()
                .flat_map(|t| sizes(soa).into_iter().flatten().map(move |j| (t, j)))
                .flat_map(|(t, j)| [1.0f32, 0.0, -1.0].map(|w| (t, j, w)))
                .collect();
            let mut stacks: Vec<(Vec<usize>, Vec<usize>)> = vec![(vec![], vec![])];
            for a in 0..lays.len() {
                stacks.push((vec![a], vec![]));
                stacks.push((vec![], vec![a]));
                for b in 0..lays.len() {
                    if ctx.wide() || (a + b) % 3 == 0 {
                        stacks.push((vec![a], vec![b]));
                        stacks.push((vec![a, b], vec![]));
                        stacks.push((vec![], vec![a, b]));
                    }
                }
            }
            for os in sizes(soa) {
                for have in [false, true] {
                    for cx in [None, Some(false), Some(true)] {
                        ctx.case(
                            || format!("{} joints, output {:?}, skeleton {}, context {:?}: every threshold and layer stack", n, os, have, cx),
                            |st| {
                                let skel = load_skel(&blend_skel(n));
                                for th in [0.1f32, 0.0, -0.5, f32::NAN, 1e-30] {
                                    for (si, (ls, asx)) in stacks.iter().enumerate() {
                                        let mut j: BlendingJob<&Skeleton, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
                                        if have {
                                            j.set_skeleton(&skel);
                                        }
                                        match cx {
                                            None => j.clear_context(),
                                            Some(true) => j.set_context(BlendingContext::new(soa)),
                                            Some(false) => {}
                                        }
                                        j.set_threshold(th);
                                        let mk = |i: &usize| {
                                            let (t, w, f) = lays[*i];
                                            BlendingLayer { transform: soa_pose(&pose(1, t * 4), t), weight: f, joint_weights: jws(2, w) }
                                        };
                                        *j.layers_mut() = ls.iter().map(mk).collect();
                                        *j.additive_layers_mut() = asx.iter().map(mk).collect();
                                        let before = sentinel_pose(os.unwrap_or(0), 4);
                                        if os.is_some() {
                                            j.set_output(before.clone());
                                        }
                                        let good = |i: &usize| lays[*i].0 >= soa && (lays[*i].1 == 0 || lays[*i].1 >= soa);
                                        let want = have && cx.is_some() && th > 0.0 && enough(os, soa) && ls.iter().chain(asx).all(good);
                                        let v = j.validate();
                                        let r = guard(|| j.run());
                                        let changed = j.output().is_some_and(|o| pose_bits(o) != pose_bits(&before));
                                        gate(want, v, r, changed, &|| format!("threshold {} layers {:?} additive {:?} of {:?}", th, ls, asx, &lays[..4]))?;
                                        if si % 64 == 0 {
                                            st.transition();
                                        }
                                    }
                                }
                                Ok(n as u64)
                            },
                        );
                    }
                }
            }
        }
    });
    // Deep stacks: exactly one unusable layer, at every position of every depth.
    ctx.suite("blending-stacks", |ctx| {
        for n in ctx.pick(vec![1usize, 9, 70], vec![1, 4, 9, 70, 257, 1024]) {
            for depth in (1..=ctx.pick(6usize, 12)).chain(ctx.pick(vec![20], vec![16, 17, 32, 33, 40, 64, 65])) {
                if n > 100 && depth > 20 {
                    continue;
                }
                ctx.case(
                    || format!("{} joints, {} layers, every position and kind of one unusable layer", n, depth),
                    |st| {
                        let soa = n.div_ceil(4);
                        let skel = load_skel(&blend_skel(n));
                        let full = soa_pose(&pose(1, soa * 4), soa);
                        let w = jws(2, soa);
                        for normal in 0..=depth {
                            // `normal` ordinary layers, the rest additive.
                            if depth > 6 && normal != 0 && normal != depth && normal != depth / 2 {
                                continue;
                            }
                            for at in 0..=depth {
                                for (bad, bt, bj) in [(false, soa, 0), (true, soa - 1, 0), (true, 0, 0), (true, soa - 1, soa), (soa > 1, soa, soa.max(2) - 1), (true, soa.max(1) - 1, soa.max(2) - 1)] {
                                    for weight in [1.0f32, 0.0, -0.5] {
                                        let mk = |i: usize| {
                                            let (t, j) = if i == at { (bt, if soa > 1 { bj } else { 0 }) } else { (soa, if i % 3 == 1 { soa } else { 0 }) };
                                            BlendingLayer { transform: &full[..t], weight: if i == at { weight } else { 0.5 }, joint_weights: w[..j].to_vec() }
                                        };
                                        let mut j: BlendingJob<&Skeleton, &[SoaTransform], Vec<SoaTransform>> = BlendingJob::default();
                                        j.set_skeleton(&skel);
                                        *j.layers_mut() = (0..normal).map(mk).collect();
                                        *j.additive_layers_mut() = (normal..depth).map(mk).collect();
                                        let before = sentinel_pose(soa, 4);
                                        j.set_output(before.clone());
                                        let want = at == depth || !bad;
                                        let v = j.validate();
                                        let r = guard(|| j.run());
                                        let changed = pose_bits(j.output().unwrap()) != pose_bits(&before);
                                        gate(want, v, r, changed, &|| format!("{} of {} layers ordinary, layer {} with {} transforms, {} joint weights, weight {}", normal, depth, at, bt, bj, weight))?;
                                        st.transition();
                                    }
                                }
                            }
                        }
                        Ok((n * 100 + depth) as u64)
                    },
                );
            }
        }
    });
    ctx.suite("local-to-model", |ctx| {
        for h in (0..=ctx.pick(4usize, 5)).flat_map(hierarchies).chain([13usize, 40, 64, 65, 129, 257, 1023, 1024].into_iter().map(crate::p_assets::big_hierarchy)) {
            ctx.case(
                || format!("hierarchy {:?}: every buffer size and range", h),
                |st| {
                    let n = h.len();
                    let skel = load_skel(&Skel::of(&h));
                    let soa = n.div_ceil(4);
                    for have in [false, true] {
                        for is in sizes(soa) {
                            for os in sizes(n) {
                                for (from, to, ex) in [(-1, 9999, false), (0, 2, true), (n as i32, 0, false), (i32::MIN, i32::MAX, true), (i32::MAX, i32::MIN, true)] {
                                    let mut j: LocalToModelJob<&Skeleton, Vec<SoaTransform>, Vec<Mat4>> = LocalToModelJob::default();
                                    if have {
                                        j.set_skeleton(&skel);
                                    }
                                    if let Some(i) = is {
                                        j.set_input(soa_pose(&pose(1, i * 4), i));
                                    }
                                    let before = sentinel_mats(os.unwrap_or(0), 2);
                                    if os.is_some() {
                                        j.set_output(before.clone());
                                    }
                                    j.set_from(from);
                                    j.set_to(to);
                                    j.set_from_excluded(ex);
                                    let want = have && enough(is, soa) && enough(os, n);
                                    let v = j.validate();
                                    let r = guard(|| j.run());
                                    let changed = j.output().is_some_and(|o| mat_bits(o) != mat_bits(&before));
                                    gate(want, v, r, changed, &|| format!("skeleton {} input {:?} output {:?} range {}..{} {}", have, is, os, from, to, ex))?;
                                    st.transition();
                                }
                            }
                        }
                    }
                    Ok(n as u64)
                },
            );
        }
    });
    ctx.suite("skinning", |ctx| {
        // Sizes per parameter: absent, one short, exact, longer.
        let opt = |need: usize| -> Vec<Option<usize>> {
            let mut v = vec![None, Some(need), Some(need + 3)];
            if need > 0 {
                v.push(Some(need - 1));
            }
            v
        };
        for n in 0..=ctx.pick(6usize, 9) {
            for count in ctx.pick(vec![0usize, 1, 3], vec![0, 1, 2, 3, 5]) {
                let (ni, nw) = (count * n, count * n.saturating_sub(1));
                for m in [None, Some(0usize), Some(1), Some(3)] {
                    for ix in opt(ni) {
                        ctx.case(
                            || format!("{} influences, {} vertices, matrices {:?}, indices {:?}: every presence and size of the other buffers", n, count, m, ix),
                            |st| {
                                let three = opt(count);
                                for w in opt(nw) {
                                    let k = three.len();
                                    let mut bad: Option<String> = None;
                                    product(&[k, k, k, k, k, k, 2], |d| {
                                        if bad.is_some() {
                                            return;
                                        }
                                        let b: Vec<Option<usize>> = d[..6].iter().map(|i| three[*i]).collect();
                                        let it = d[6] == 1;
                                        let ms: Vec<Mat4> = (0..m.unwrap_or(0)).map(mat).collect();
                                        let ixs = vec![0u16; ix.unwrap_or(0)];
                                        let ws = vec![0.25f32; w.unwrap_or(0)];
                                        let ins: Vec<Vec<Vec3>> = (0..3).map(|k| (0..b[k].unwrap_or(0)).map(|i| vert(k, i)).collect()).collect();
                                        let mut outs: Vec<Vec<Vec3>> = (0..3).map(|k| vec![Vec3::splat(-5.5); b[k + 3].unwrap_or(0)]).collect();
                                        let (v, r);
                                        {
                                            let mut j: SkinningJobRef = SkinningJob::default();
                                            j.set_vertex_count(count);
                                            j.set_influences_count(n);
                                            if m.is_some() {
                                                j.set_joint_matrices(&ms);
                                            }
                                            if it {
                                                j.set_joint_it_matrices(&ms);
                                            }
                                            if ix.is_some() {
                                                j.set_joint_indices(&ixs);
                                            }
                                            if w.is_some() {
                                                j.set_joint_weights(&ws);
                                            }
                                            let mut o = outs.iter_mut();
                                            let (p, q, s) = (o.next().unwrap(), o.next().unwrap(), o.next().unwrap());
                                            if b[0].is_some() {
                                                j.set_in_positions(&ins[0]);
                                            }
                                            if b[1].is_some() {
                                                j.set_in_normals(&ins[1]);
                                            }
                                            if b[2].is_some() {
                                                j.set_in_tangents(&ins[2]);
                                            }
                                            if b[3].is_some() {
                                                j.set_out_positions(p);
                                            }
                                            if b[4].is_some() {
                                                j.set_out_normals(q);
                                            }
                                            if b[5].is_some() {
                                                j.set_out_tangents(s);
                                            }
                                            v = j.validate();
                                            r = guard(|| j.run());
                                        }
                                        let mut want = n > 0 && m.is_some_and(|m| m > 0) && enough(ix, ni) && (n == 1 || enough(w, nw));
                                        want &= enough(b[0], count) && enough(b[3], count);
                                        if b[1].is_some() {
                                            want &= enough(b[1], count) && enough(b[4], count);
                                            if b[2].is_some() {
                                                want &= enough(b[2], count) && enough(b[5], count);
                                            }
                                        } else {
                                            want &= b[2].is_none();
                                        }
                                        let changed = outs.iter().any(|o| o.iter().any(|x| *x != Vec3::splat(-5.5)));
                                        if let Err(e) = gate(want, v, r, changed, &|| format!("{} influences {} vertices matrices {:?} it {} indices {:?} weights {:?} vertex buffers {:?}", n, count, m, it, ix, w, b)) {
                                            bad = Some(e);
                                        }
                                    });
                                    st.transitions += (k.pow(6) * 2) as u64;
                                    tick();
                                    if let Some(e) = bad {
                                        return Err(e);
                                    }
                                }
                                Ok(ni as u64)
                            },
                        );
                    }
                }
            }
        }
        // A joint index beyond the matrices, at every place of the index buffer; those behind the requested vertices are not looked at.
        for n in 1..=ctx.pick3(5usize, 6, 9) {
            for count in ctx.pick3(vec![3usize], vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 9, 17]) {
                for (normals, tangents, it) in [(false, false, false), (false, false, true), (true, false, false), (true, false, true), (true, true, false), (true, true, true)] {
                    ctx.case(
                        || format!("{} influences, {} vertices, normals {} tangents {} inverse transposes {}: one joint index beyond the matrices at every place", n, count, normals, tangents, it),
                        |st| {
                            let mut h = 0u64;
                            for joints in [1usize, 2, 3, 7, 255, 256, 257, 300] {
                                // The inverse transposes may be fewer than the matrices.
                                for its in if it { vec![joints, joints + 2, joints - 1, 0] } else { vec![joints] } {
                                    let ms: Vec<Mat4> = (0..joints).map(mat).collect();
                                    let ims: Vec<Mat4> = (0..its).map(crate::p_skin::mat_it).collect();
                                    let used = normals && it;
                                    let limit = if used { joints.min(its) } else { joints };
                                    let mut values = vec![joints, joints + 1, joints + 255, 32768, 65535];
                                    if used {
                                        values.extend([its, its + 1]);
                                    }
                                    values.extend([0, limit.saturating_sub(1)]);
                                    values.sort();
                                    values.dedup();
                                    for v in values {
                                        for place in 0..(count + 1) * n {
                                            for weight in [0.25f32, 0.0] {
                                                let mut ixs: Vec<u16> = (0..(count + 1) * n).map(|i| (i % limit.max(1)) as u16).collect();
                                                ixs[place] = v as u16;
                                                let bad = ixs[..count * n].iter().any(|i| *i as usize >= limit);
                                                let ws = vec![weight; (count + 1) * n];
                                                let ins: Vec<Vec<Vec3>> = (0..3).map(|k| (0..count + 1).map(|i| vert(k, i)).collect()).collect();
                                                let mut outs = vec![vec![Vec3::splat(-5.5); count + 1]; 3];
                                                let (val, r);
                                                {
                                                    let mut j: SkinningJobRef = SkinningJob::default();
                                                    j.set_vertex_count(count);
                                                    j.set_influences_count(n);
                                                    j.set_joint_matrices(&ms);
                                                    if it {
                                                        j.set_joint_it_matrices(&ims);
                                                    }
                                                    j.set_joint_indices(&ixs);
                                                    j.set_joint_weights(&ws);
                                                    let mut o = outs.iter_mut();
                                                    j.set_in_positions(&ins[0]);
                                                    j.set_out_positions(o.next().unwrap());
                                                    if normals {
                                                        j.set_in_normals(&ins[1]);
                                                        j.set_out_normals(o.next().unwrap());
                                                    }
                                                    if tangents {
                                                        j.set_in_tangents(&ins[2]);
                                                        j.set_out_tangents(o.next().unwrap());
                                                    }
                                                    val = j.validate();
                                                    r = guard(|| j.run());
                                                }
                                                let what = || format!("{} joints, {} inverse transposes, index {} = {}, weights {}", joints, its, place, v, weight);
                                                let r = r.map_err(|p| format!("{}: run panicked: {}", what(), p))?;
                                                // Fewer inverse transposes than matrices may also be refused as such.
                                                let short = used && its < joints;
                                                match r {
                                                    Ok(()) => ensure!(!bad, "{}: run accepted an index beyond the matrices", what()),
                                                    Err(OzzError::InvalidIndex) => ensure!(bad, "{}: run refused indices that are all valid", what()),
                                                    Err(OzzError::InvalidJob) if short && !val => {}
                                                    Err(e) => return Err(format!("{}: run returned {:?}", what(), e)),
                                                }
                                                ensure!(val || short, "{}: validate refuses", what());
                                                for o in &outs {
                                                    ensure!(o[count] == Vec3::splat(-5.5), "{}: an element beyond the requested vertices is written", what());
                                                }
                                                st.transition();
                                                h = h.wrapping_mul(31).wrapping_add(bad as u64);
                                            }
                                        }
                                    }
                                }
                            }
                            Ok(h)
                        },
                    );
                }
            }
        }
        // Counts whose products do not fit the machine.
        for count in [usize::MAX, usize::MAX / 2, 1 << 62, 1 << 63, (1 << 63) / 3 + 1] {
            for n in [1usize, 2, 3, 4, 5, 8, 1 << 40, usize::MAX] {
                for normals in 0..3 {
                    ctx.case(
                        || format!("{} vertices of {} influences in small buffers", count, n),
                        |_| {
                            let ms: Vec<Mat4> = (0..2).map(mat).collect();
                            let ix = vec![0u16; 16];
                            let w = vec![0.5f32; 16];
                            let v: Vec<Vec3> = (0..4).map(|i| vert(0, i)).collect();
                            let mut o = vec![vec![Vec3::splat(-5.5); 4]; 3];
                            let (val, r);
                            {
                                let mut j: SkinningJobRef = SkinningJob::default();
                                j.set_vertex_count(count);
                                j.set_influences_count(n);
                                j.set_joint_matrices(&ms);
                                j.set_joint_indices(&ix);
                                j.set_joint_weights(&w);
                                j.set_in_positions(&v);
                                let mut it = o.iter_mut();
                                j.set_out_positions(it.next().unwrap());
                                if normals > 0 {
                                    j.set_in_normals(&v);
                                    j.set_out_normals(it.next().unwrap());
                                }
                                if normals > 1 {
                                    j.set_in_tangents(&v);
                                    j.set_out_tangents(it.next().unwrap());
                                }
                                val = j.validate();
                                r = guard(|| j.run());
                            }
                            let changed = o.iter().any(|o| o.iter().any(|x| *x != Vec3::splat(-5.5)));
                            gate(false, val, r, changed, &|| format!("{} vertices {} influences", count, n))?;
                            Ok(0)
                        },
                    );
                }
            }
        }
    });
    ctx.suite("tracks", |ctx| {
        for n in 0..=ctx.pick(5usize, 12) {
            ctx.case(
                || format!("track of {} keys, present or not, and every job without one", n),
                |_| {
                    fn sampling<V: Flat>(n: usize) -> Result<(), String> {
                        let t = load_track::<V>(&trk(V::KIND, n, 1, (0..n).map(|i| i % 2 == 0).collect()));
                        for have in [false, true] {
                            for ratio in [0.0, -1.0, 0.5, 1.0, 2.0, f32::INFINITY, f32::NEG_INFINITY] {
                                let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
                                if have {
                                    j.set_track(&t);
                                }
                                j.set_ratio(ratio);
                                let before = j.result().flat();
                                let v = j.validate();
                                let r = guard(|| j.run());
                                let changed = !have && j.result().flat() != before;
                                gate(have, v, r, changed, &|| format!("sampling ratio {}", ratio))?;
                            }
                        }
                        Ok(())
                    }
                    sampling::<f32>(n)?;
                    sampling::<glam::Vec2>(n)?;
                    sampling::<Vec3>(n)?;
                    sampling::<Vec4>(n)?;
                    sampling::<Quat>(n)?;
                    let t = load_track::<f32>(&trk(0, n, 1, (0..n).map(|i| i % 2 == 0).collect()));
                    for have in [false, true] {
                        for (from, to) in [(0.0f32, 0.0f32), (0.0, 1.0), (2.5, -3.0), (1e6, 1e6 + 1.0), (0.0, f32::INFINITY), (f32::NEG_INFINITY, 0.0)] {
                            let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
                            if have {
                                j.set_track(&t);
                            }
                            j.set_from(from);
                            j.set_to(to);
                            let v = j.validate();
                            // Only taking the first edges: an infinite window has infinitely many.
                            let r = guard(|| j.run().map(|it| drop(it.take(8).collect::<Vec<_>>())));
                            gate(have, v, r, false, &|| format!("triggering {}..{}", from, to))?;
                        }
                    }
                    let mut j = MotionBlendingJob::default();
                    for k in 0..4 {
                        let v = j.validate();
                        let r = guard(|| j.run());
                        gate(true, v, r, false, &|| format!("{} motion layers", k))?;
                        j.layers_mut().push(MotionBlendingLayer { delta: Transform3A::IDENTITY, weight: [0.0, -1.0, 1.0, 0.5][k] });
                    }
                    Ok(n as u64)
                },
            );
        }
    });
    // A refused inverse-kinematics run leaves the previous corrections alone.
    ctx.suite("ik", |ctx| {
        for (di, d) in crate::p_ik::dirs().into_iter().enumerate() {
            ctx.case(
                || format!("axis along {:?}, every length", d),
                |st| {
                    let va = |v: V, l: f64| Vec3A::new((v[0] * l) as f32, (v[1] * l) as f32, (v[2] * l) as f32);
                    for l in [0.0, 1e-20, 0.1, 0.9, 0.998, 0.9995, 1.0, 1.0005, 1.002, 1.1, 10.0, 1e20, f64::NAN, f64::INFINITY] {
                        // Squared lengths within 0.002 of one are accepted; the band edges are not probed.
                        let l2 = l * l;
                        if ((l2 - 1.0f64).abs() - 0.002).abs() < 5e-4 {
                            continue;
                        }
                        let want = (l2 - 1.0).abs() < 0.002;
                        let mut j = IKAimJob::default();
                        j.set_target(Vec3A::new(0.4, 1.5, -0.3));
                        j.run().map_err(|e| format!("{:?}", e))?;
                        let before = (j.joint_correction(), j.reached());
                        j.set_forward(va(d, l));
                        j.set_target(Vec3A::new(-3.0, 0.5, 2.0));
                        let r = guard(|| j.run());
                        let changed = (j.joint_correction(), j.reached()) != before;
                        gate(want, want, r, changed, &|| format!("aim forward of length {}", l))?;
                        let mut j = IKTwoBoneJob::default();
                        j.set_mid_joint(Mat4::from_translation(Vec3::X));
                        j.set_end_joint(Mat4::from_translation(Vec3::new(1.0, 1.0, 0.0)));
                        j.set_target(Vec3A::new(0.4, 1.1, -0.3));
                        j.set_weight(0.5);
                        j.run().map_err(|e| format!("{:?}", e))?;
                        let before = (j.start_joint_correction(), j.mid_joint_correction(), j.reached());
                        j.set_mid_axis(va(d, l));
                        j.set_weight(if di % 2 == 0 { 1.0 } else { 0.0 });
                        let r = guard(|| j.run());
                        let changed = (j.start_joint_correction(), j.mid_joint_correction(), j.reached()) != before;
                        gate(want, want, r, changed, &|| format!("two-bone axis of length {}", l))?;
                        st.transition();
                    }
                    Ok(di as u64)
                },
            );
        }
    });
}

// ---------------------------------------------------------------------------------------------------
// C23: every sequence of operations up to a depth; a fresh job configured with the current parameters is
// run beside the reused one at every run.

/// What a reusable job must offer to the search.
trait Machine {
    /// Current parameters, as the sequence of operations says they should be.
    fn new() -> Self;
    fn ops() -> usize;
    fn name(op: usize) -> String;
    /// Applies an operation; a run is compared with a fresh job.
    fn step(&mut self, op: usize) -> Result<u64, String>;
}

fn search<M: Machine>(first: usize, depth: usize, st: &mut Stats) -> Result<u64, String> {
    let mut h = 0u64;
    for d in 0..depth {
        let mut bad: Option<String> = None;
        tuples(M::ops(), d, |seq| {
            if bad.is_some() {
                return;
            }
            // Only sequences ending in a run matter: op 0 is the run.
            let all: Vec<usize> = std::iter::once(first).chain(seq.iter().copied()).chain([0]).collect();
            let mut m = M::new();
            for (i, op) in all.iter().enumerate() {
                match guard(|| m.step(*op)).and_then(|r| r) {
                    Ok(x) => h = h.rotate_left(7) ^ x,
                    Err(e) => {
                        let names: Vec<String> = all[..=i].iter().map(|o| M::name(*o)).collect();
                        bad = Some(format!("after {}: {}", names.join(", "), e));
                        return;
                    }
                }
            }
            st.traces += 1;
            st.transitions += all.len() as u64;
            st.state(h);
        });
        tick();
        if let Some(b) = bad {
            return Err(b);
        }
    }
    Ok(h)
}

fn res(r: &Result<(), OzzError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(OzzError::InvalidJob) => 1,
        Err(_) => 2,
    }
}

macro_rules! ops_table {
    ($($n:expr),* $(,)?) => {
        fn ops() -> usize { [$($n),*].len() }
        fn name(op: usize) -> String { [$($n),*][op].to_string() }
    };
}

struct Samp {
    job: SamplingJob<&'static Animation, Vec<SoaTransform>>,
    anim: Option<usize>,
    cap: Option<usize>,
    ratio: f32,
    out: Option<usize>,
}

fn anims() -> &'static [Animation] {
    static A: std::sync::OnceLock<Vec<Animation>> = std::sync::OnceLock::new();
    A.get_or_init(|| vec![load_anim(&crate::p_sampling::sample_anim(3)), load_anim(&crate::p_sampling::sample_anim(6))])
}

fn skels() -> &'static [Skeleton] {
    static A: std::sync::OnceLock<Vec<Skeleton>> = std::sync::OnceLock::new();
    A.get_or_init(|| vec![load_skel(&blend_skel(3)), load_skel(&blend_skel(6))])
}

impl Machine for Samp {
    ops_table!["run", "animation A", "animation B", "no animation", "small context", "big context", "no context", "ratio 0.2", "ratio 0.7", "ratio 2", "short output", "long output", "no output"];
    fn new() -> Self {
        let mut s = Samp { job: SamplingJob::default(), anim: None, cap: None, ratio: 0.0, out: None };
        // Start from a complete job: most sequences then run.
        s.set_anim(Some(1));
        s.set_cap(Some(8));
        s.set_out(Some(2));
        s
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => return self.run(),
            1 => self.set_anim(Some(0)),
            2 => self.set_anim(Some(1)),
            3 => self.set_anim(None),
            4 => self.set_cap(Some(4)),
            5 => self.set_cap(Some(16)),
            6 => self.set_cap(None),
            7..=9 => {
                self.ratio = [0.2, 0.7, 2.0][op - 7];
                self.job.set_ratio(self.ratio);
                ensure!(self.job.ratio() == self.ratio.clamp(0.0, 1.0), "ratio() is {}", self.job.ratio());
            }
            10 => self.set_out(Some(1)),
            11 => self.set_out(Some(3)),
            _ => self.set_out(None),
        }
        Ok(op as u64)
    }
}
impl Samp {
    fn set_anim(&mut self, a: Option<usize>) {
        self.anim = a;
        match a {
            Some(a) => self.job.set_animation(&anims()[a]),
            None => self.job.clear_animation(),
        }
    }
    fn set_cap(&mut self, c: Option<usize>) {
        self.cap = c;
        match c {
            Some(c) => self.job.set_context(SamplingContext::new(c)),
            None => self.job.clear_context(),
        }
    }
    fn set_out(&mut self, o: Option<usize>) {
        self.out = o;
        match o {
            Some(o) => self.job.set_output(sentinel_pose(o, 5)),
            None => self.job.clear_output(),
        }
    }
    fn run(&mut self) -> Result<u64, String> {
        let mut f: SamplingJob<&Animation, Vec<SoaTransform>> = SamplingJob::default();
        if let Some(a) = self.anim {
            f.set_animation(&anims()[a]);
        }
        if let Some(c) = self.cap {
            f.set_context(SamplingContext::new(c));
        }
        f.set_ratio(self.ratio);
        if let Some(o) = self.job.output() {
            f.set_output(o.clone());
        }
        ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
        let (a, b) = (self.job.run(), f.run());
        ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
        let bits = |j: &SamplingJob<&'static Animation, Vec<SoaTransform>>| j.output().map(|o| pose_bits(o));
        let x = bits(&self.job);
        let y = f.output().map(|o| pose_bits(o));
        ensure!(x == y, "the pose differs from a fresh job's");
        ensure!(self.job.ratio() == f.ratio(), "running changed the ratio");
        ensure!(self.job.animation().is_some() == self.anim.is_some() && self.job.context().is_some() == self.cap.is_some() && self.job.output().is_some() == self.out.is_some(), "running changed which parameters are set");
        Ok(x.map_or(1, |x| hash_bits(&x)))
    }
}

struct Blend {
    job: BlendingJob<&'static Skeleton, Vec<SoaTransform>, Vec<SoaTransform>>,
    skel: Option<usize>,
    layers: Vec<(usize, f32, usize)>,
    adds: Vec<(usize, f32, usize)>,
    th: f32,
    ctx: bool,
}

impl Blend {
    fn lay(l: &(usize, f32, usize)) -> BlendingLayer<Vec<SoaTransform>> {
        // Long enough for the larger skeleton.
        BlendingLayer { transform: soa_pose(&pose(l.0, 8), 2), weight: l.1, joint_weights: jws(l.2, if l.2 == 0 { 0 } else { 2 }) }
    }
    fn sync(&mut self) {
        *self.job.layers_mut() = self.layers.iter().map(Self::lay).collect();
        *self.job.additive_layers_mut() = self.adds.iter().map(Self::lay).collect();
    }
}

impl Machine for Blend {
    ops_table![
        "run", "small skeleton", "large skeleton", "no skeleton", "full layer", "partial layer", "zero layer", "no layers", "additive layer", "subtractive partial layer", "no additive layers",
        "threshold 1", "threshold 0", "no context", "new context", "short output", "fresh output"
    ];
    fn new() -> Self {
        let mut b = Blend { job: BlendingJob::default(), skel: Some(1), layers: vec![(0, 0.6, 0)], adds: vec![], th: 0.1, ctx: true };
        b.job.set_skeleton(&skels()[1]);
        b.job.set_output(sentinel_pose(3, 8));
        b.sync();
        b
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => {
                let mut f: BlendingJob<&Skeleton, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
                ensure!(f.threshold() == 0.1, "the default threshold is {}", f.threshold());
                if let Some(s) = self.skel {
                    f.set_skeleton(&skels()[s]);
                }
                f.set_threshold(self.th);
                *f.layers_mut() = self.layers.iter().map(Self::lay).collect();
                *f.additive_layers_mut() = self.adds.iter().map(Self::lay).collect();
                if !self.ctx {
                    f.clear_context();
                }
                if let Some(o) = self.job.output() {
                    f.set_output(o.clone());
                }
                ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
                let (a, b) = (self.job.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                let x = self.job.output().map(|o| pose_bits(o));
                ensure!(x == f.output().map(|o| pose_bits(o)), "the pose differs from a fresh job's");
                ensure!(self.job.threshold() == self.th && self.job.layers().len() == self.layers.len() && self.job.additive_layers().len() == self.adds.len(), "running changed the parameters");
                for (l, m) in self.job.layers().iter().zip(&self.layers).chain(self.job.additive_layers().iter().zip(&self.adds)) {
                    let w = Self::lay(m);
                    ensure!(l.weight == w.weight && l.joint_weights == w.joint_weights && pose_bits(&l.transform) == pose_bits(&w.transform), "running changed a layer");
                }
                return Ok(x.map_or(1, |x| hash_bits(&x)));
            }
            1 | 2 => {
                self.skel = Some(op - 1);
                self.job.set_skeleton(&skels()[op - 1]);
            }
            3 => {
                self.skel = None;
                self.job.clear_skeleton();
            }
            4 => self.layers.push((1, 0.7, 0)),
            5 => self.layers.push((2, 0.5, 2)),
            6 => self.layers.push((3, 0.0, 3)),
            7 => self.layers.clear(),
            8 => self.adds.push((3, 0.5, 0)),
            9 => self.adds.push((4, -0.25, 2)),
            10 => self.adds.clear(),
            11 | 12 => {
                self.th = [1.0, 0.0][op - 11];
                self.job.set_threshold(self.th);
            }
            13 => {
                self.ctx = false;
                self.job.clear_context();
            }
            14 => {
                self.ctx = true;
                self.job.set_context(BlendingContext::new(1));
            }
            15 => self.job.set_output(sentinel_pose(1, 6)),
            _ => self.job.set_output(sentinel_pose(2, 7)),
        }
        if (4..=10).contains(&op) {
            self.sync();
        }
        Ok(op as u64)
    }
}

struct L2m {
    job: LocalToModelJob<&'static Skeleton, Vec<SoaTransform>, Vec<Mat4>>,
    skel: Option<usize>,
    input: Option<(usize, usize)>,
    root: Mat4,
    from: i32,
    to: i32,
    ex: bool,
}

impl Machine for L2m {
    ops_table!["run", "small skeleton", "large skeleton", "no skeleton", "input A", "input B", "short input", "no input", "root", "identity root", "from 1", "from all", "to 2", "to all", "excluded", "included", "short output", "new output"];
    fn new() -> Self {
        let mut m = L2m { job: LocalToModelJob::default(), skel: Some(1), input: Some((0, 2)), root: Mat4::IDENTITY, from: -1, to: SKELETON_MAX_JOINTS, ex: false };
        m.job.set_skeleton(&skels()[1]);
        m.job.set_input(soa_pose(&pose(0, 8), 2));
        m.job.set_output(sentinel_mats(7, 1));
        m
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => {
                let mut f: LocalToModelJob<&Skeleton, Vec<SoaTransform>, Vec<Mat4>> = LocalToModelJob::default();
                ensure!(f.from() == -1 && f.to() == SKELETON_MAX_JOINTS && !f.from_excluded() && f.root() == Mat4::IDENTITY, "defaults: {} {} {}", f.from(), f.to(), f.from_excluded());
                if let Some(s) = self.skel {
                    f.set_skeleton(&skels()[s]);
                }
                if let Some((k, n)) = self.input {
                    f.set_input(soa_pose(&pose(k, n * 4), n));
                }
                f.set_root(&self.root);
                f.set_from(self.from);
                f.set_to(self.to);
                f.set_from_excluded(self.ex);
                if let Some(o) = self.job.output() {
                    f.set_output(o.clone());
                }
                ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
                let (a, b) = (self.job.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                let x = self.job.output().map(|o| mat_bits(o));
                ensure!(x == f.output().map(|o| mat_bits(o)), "the matrices differ from a fresh job's");
                ensure!(self.job.input().map(|o| pose_bits(o)) == f.input().map(|o| pose_bits(o)), "running changed the input");
                ensure!(self.job.root() == self.root && self.job.from() == self.from && self.job.to() == self.to && self.job.from_excluded() == self.ex, "running changed the parameters");
                return Ok(x.map_or(1, |x| hash_bits(&x)));
            }
            1 | 2 => {
                self.skel = Some(op - 1);
                self.job.set_skeleton(&skels()[op - 1]);
            }
            3 => {
                self.skel = None;
                self.job.clear_skeleton();
            }
            4..=6 => {
                let i = [(0, 2), (2, 3), (1, 1)][op - 4];
                self.input = Some(i);
                self.job.set_input(soa_pose(&pose(i.0, i.1 * 4), i.1));
            }
            7 => {
                self.input = None;
                self.job.clear_input();
            }
            8 | 9 => {
                self.root = if op == 8 { mat(3) } else { Mat4::IDENTITY };
                self.job.set_root(&self.root);
            }
            10 | 11 => {
                self.from = [1, -1][op - 10];
                self.job.set_from(self.from);
            }
            12 | 13 => {
                self.to = [2, SKELETON_MAX_JOINTS][op - 12];
                self.job.set_to(self.to);
            }
            14 | 15 => {
                self.ex = op == 14;
                self.job.set_from_excluded(self.ex);
            }
            16 => self.job.set_output(sentinel_mats(2, 1)),
            _ => self.job.set_output(sentinel_mats(6, 4)),
        }
        Ok(op as u64)
    }
}

struct Skinner {
    job: SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>>,
    n: usize,
    count: usize,
    it: bool,
    w: bool,
    nrm: bool,
    tan: bool,
    bad_index: bool,
}

const SKIN_V: usize = 3;

impl Skinner {
    fn apply(&self, f: &mut SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>>) {
        f.set_joint_matrices((0..3).map(mat).collect());
        f.set_joint_indices(self.indices());
        f.set_in_positions((0..SKIN_V).map(|i| vert(0, i)).collect());
        f.set_vertex_count(self.count);
        f.set_influences_count(self.n);
        if self.it {
            f.set_joint_it_matrices((0..3).map(crate::p_skin::mat_it).collect());
        }
        if self.w {
            f.set_joint_weights(Self::weights());
        }
        if self.nrm {
            f.set_in_normals((0..SKIN_V).map(|i| vert(1, i)).collect());
        }
        if self.tan {
            f.set_in_tangents((0..SKIN_V).map(|i| vert(2, i)).collect());
        }
    }
    fn indices(&self) -> Vec<u16> {
        (0..SKIN_V * 6).map(|i| if self.bad_index && i == 2 { 9 } else { (i * 2 % 3) as u16 }).collect()
    }
    fn weights() -> Vec<f32> {
        (0..SKIN_V * 5).map(|i| 0.1 + 0.05 * (i % 4) as f32).collect()
    }
}

impl Machine for Skinner {
    ops_table![
        "run", "1 influence", "2 influences", "5 influences", "0 influences", "3 vertices", "1 vertex", "4 vertices", "it matrices", "no it matrices", "weights", "no weights", "normals", "no normals", "tangents",
        "no tangents", "bad index", "good indices", "no output positions", "output positions", "no output normals", "output normals", "no output tangents", "output tangents"
    ];
    fn new() -> Self {
        let mut s = Skinner { job: SkinningJob::default(), n: 3, count: SKIN_V, it: false, w: true, nrm: false, tan: false, bad_index: false };
        let mut j = SkinningJob::default();
        s.apply(&mut j);
        j.set_out_positions(vec![Vec3::splat(4.5); SKIN_V]);
        j.set_out_normals(vec![Vec3::splat(5.5); SKIN_V]);
        j.set_out_tangents(vec![Vec3::splat(6.5); SKIN_V]);
        s.job = j;
        s
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => {
                let mut f = SkinningJob::default();
                self.apply(&mut f);
                if let Some(o) = self.job.out_positions() {
                    f.set_out_positions(o.clone());
                }
                if let Some(o) = self.job.out_normals() {
                    f.set_out_normals(o.clone());
                }
                if let Some(o) = self.job.out_tangents() {
                    f.set_out_tangents(o.clone());
                }
                ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
                let (a, b) = (self.job.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                let bits = |j: &SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>>| [j.out_positions().map(|o| v3_bits(o)), j.out_normals().map(|o| v3_bits(o)), j.out_tangents().map(|o| v3_bits(o))];
                let x = bits(&self.job);
                ensure!(x == bits(&f), "the vertices differ from a fresh job's");
                let ins = |j: &SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>>| {
                    (
                        [j.in_positions().map(|o| v3_bits(o)), j.in_normals().map(|o| v3_bits(o)), j.in_tangents().map(|o| v3_bits(o))],
                        [j.joint_matrices().map(|o| mat_bits(o)), j.joint_it_matrices().map(|o| mat_bits(o))],
                        (j.joint_indices().cloned(), j.joint_weights().cloned(), j.vertex_count(), j.influences_count()),
                    )
                };
                ensure!(ins(&self.job) == ins(&f), "running changed the parameters");
                return Ok(x.iter().flatten().fold(0, |a, b| a ^ hash_bits(b)));
            }
            1..=4 => {
                self.n = [1, 2, 5, 0][op - 1];
                self.job.set_influences_count(self.n);
            }
            5..=7 => {
                self.count = [3, 1, 4][op - 5];
                self.job.set_vertex_count(self.count);
            }
            8 => {
                self.it = true;
                self.job.set_joint_it_matrices((0..3).map(crate::p_skin::mat_it).collect());
            }
            9 => {
                self.it = false;
                self.job.clear_joint_it_matrices();
            }
            10 => {
                self.w = true;
                self.job.set_joint_weights(Self::weights());
            }
            11 => {
                self.w = false;
                self.job.clear_joint_weights();
            }
            12 => {
                self.nrm = true;
                self.job.set_in_normals((0..SKIN_V).map(|i| vert(1, i)).collect());
            }
            13 => {
                self.nrm = false;
                self.job.clear_in_normals();
            }
            14 => {
                self.tan = true;
                self.job.set_in_tangents((0..SKIN_V).map(|i| vert(2, i)).collect());
            }
            15 => {
                self.tan = false;
                self.job.clear_in_tangents();
            }
            16 | 17 => {
                self.bad_index = op == 16;
                self.job.set_joint_indices(self.indices());
            }
            18 => self.job.clear_out_positions(),
            19 => self.job.set_out_positions(vec![Vec3::splat(-4.5); SKIN_V + 1]),
            20 => self.job.clear_out_normals(),
            21 => self.job.set_out_normals(vec![Vec3::splat(-5.5); SKIN_V]),
            22 => self.job.clear_out_tangents(),
            _ => self.job.set_out_tangents(vec![Vec3::splat(-6.5); SKIN_V]),
        }
        Ok(op as u64)
    }
}

struct TrackS {
    job: TrackSamplingJob<f32, &'static Track<f32>>,
    t: Option<usize>,
    ratio: f32,
    last: f32,
}

fn tracks() -> &'static [Track<f32>] {
    static A: std::sync::OnceLock<Vec<Track<f32>>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let t = |r: &[f32], v: &[f32], s: &[bool]| load_track(&Trk { kind: 0, name: String::new(), ratios: r.to_vec(), values: v.iter().map(|x| vec![*x]).collect(), steps: s.to_vec() });
        vec![t(&[0.0, 0.5, 1.0], &[-1.0, 3.0, -2.0], &[false, false, false]), t(&[0.0, 0.25, 0.75], &[1.0, -1.0, 2.0], &[true, false, true]), t(&[], &[], &[])]
    })
}

impl Machine for TrackS {
    ops_table!["run", "track A", "track B", "empty track", "no track", "ratio 0.1", "ratio 0.6", "ratio 0.8", "ratio -1", "ratio 3", "clear result", "clear outputs"];
    fn new() -> Self {
        TrackS { job: TrackSamplingJob::default(), t: None, ratio: 0.0, last: 0.0 }
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => {
                let mut f: TrackSamplingJob<f32, &Track<f32>> = TrackSamplingJob::default();
                if let Some(t) = self.t {
                    f.set_track(&tracks()[t]);
                }
                f.set_ratio(self.ratio);
                ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
                let (a, b) = (self.job.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                if a.is_ok() {
                    self.last = f.result();
                }
            }
            1..=3 => {
                self.t = Some(op - 1);
                self.job.set_track(&tracks()[op - 1]);
            }
            4 => {
                self.t = None;
                self.job.clear_track();
            }
            5..=9 => {
                self.ratio = [0.1, 0.6, 0.8, -1.0, 3.0][op - 5];
                self.job.set_ratio(self.ratio);
            }
            10 => {
                self.job.clear_result();
                self.last = 0.0;
            }
            _ => {
                self.job.clear_outs();
                self.last = 0.0;
            }
        }
        ensure!(self.job.result().to_bits() == self.last.to_bits(), "the result is {}, expected {}", self.job.result(), self.last);
        // What the ratio getter answers (as set, or clamped) is not part of the property; that it does not
        // depend on the history is.
        Ok(self.last.to_bits() as u64)
    }
}

struct TrackT {
    job: TrackTriggeringJob<&'static Track<f32>>,
    t: Option<usize>,
    from: f32,
    to: f32,
    th: f32,
}

impl Machine for TrackT {
    ops_table!["run", "track A", "track B", "no track", "from 0", "from -1.3", "from 2.5", "to 0", "to 1", "to 3.2", "threshold 0.5", "threshold 9", "abandon a run"];
    fn new() -> Self {
        let mut j: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
        j.set_track(&tracks()[0]);
        TrackT { job: j, t: Some(0), from: 0.0, to: 0.0, th: 0.0 }
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        match op {
            0 => {
                let mut f: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
                if let Some(t) = self.t {
                    f.set_track(&tracks()[t]);
                }
                f.set_from(self.from);
                f.set_to(self.to);
                f.set_threshold(self.th);
                ensure!(self.job.validate() == f.validate(), "validate differs from a fresh job's");
                let a = self.job.run().map(|i| i.collect::<Vec<_>>());
                let b = f.run().map(|i| i.collect::<Vec<_>>());
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        ensure!(a == b, "edges {:?}, a fresh job reports {:?}", a, b);
                        ensure!((self.job.from(), self.job.to(), self.job.threshold()) == (self.from, self.to, self.th), "running changed the parameters");
                        return Ok(a.len() as u64);
                    }
                    (Err(OzzError::InvalidJob), Err(OzzError::InvalidJob)) => {}
                    (a, b) => return Err(format!("run gives {:?}, a fresh job {:?}", a, b)),
                }
            }
            1 | 2 => {
                self.t = Some(op - 1);
                self.job.set_track(&tracks()[op - 1]);
            }
            3 => {
                self.t = None;
                self.job.clear_track();
            }
            4..=6 => {
                self.from = [0.0, -1.3, 2.5][op - 4];
                self.job.set_from(self.from);
            }
            7..=9 => {
                self.to = [0.0, 1.0, 3.2][op - 7];
                self.job.set_to(self.to);
            }
            10 | 11 => {
                self.th = [0.5, 9.0][op - 10];
                self.job.set_threshold(self.th);
            }
            _ => {
                if let Ok(mut i) = self.job.run() {
                    i.next();
                }
            }
        }
        Ok(op as u64)
    }
}

struct Motion {
    job: MotionBlendingJob,
    layers: Vec<MotionBlendingLayer>,
}

impl Machine for Motion {
    ops_table!["run", "layer A", "layer B", "opposite layer", "zero layer", "negative layer", "no layers", "set output", "clear output", "change first weight"];
    fn new() -> Self {
        Motion { job: MotionBlendingJob::default(), layers: vec![] }
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        let l = |t: Vec3A, a: f32, w: f32| MotionBlendingLayer { delta: Transform3A { translation: t, rotation: Quat::from_axis_angle(Vec3::new(0.0, 0.6, 0.8), a), scale: Vec3A::ONE }, weight: w };
        match op {
            0 => {
                let mut f = MotionBlendingJob::default();
                *f.layers_mut() = self.layers.clone();
                let (a, b) = (self.job.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                ensure!(format!("{:?}", self.job.output()) == format!("{:?}", f.output()), "motion {:?}, a fresh job gives {:?}", self.job.output(), f.output());
                ensure!(format!("{:?}", self.job.layers()) == format!("{:?}", self.layers), "running changed the layers");
                let o = self.job.output();
                return Ok(Fnv::new().fs(&o.translation.to_array()).fs(&o.rotation.to_array()).get());
            }
            1 => self.layers.push(l(Vec3A::new(1.0, 2.0, 0.5), 0.4, 0.5)),
            2 => self.layers.push(l(Vec3A::new(-3.0, 0.1, 0.5), 1.9, 1.5)),
            3 => self.layers.push(l(Vec3A::new(-1.0, -2.0, -0.5), 0.4, 0.5)),
            4 => self.layers.push(l(Vec3A::new(9.0, 9.0, 9.0), 3.0, 0.0)),
            5 => self.layers.push(l(Vec3A::new(7.0, 9.0, 9.0), 3.0, -2.0)),
            6 => self.layers.clear(),
            7 => self.job.set_output(Transform3A { translation: Vec3A::splat(8.0), rotation: Quat::from_xyzw(0.0, 1.0, 0.0, 0.0), scale: Vec3A::splat(3.0) }),
            8 => self.job.clear_output(),
            _ => {
                if let Some(l) = self.layers.first_mut() {
                    l.weight = 0.125;
                }
            }
        }
        *self.job.layers_mut() = self.layers.clone();
        Ok(op as u64)
    }
}

struct AimM {
    job: IKAimJob,
    p: AimP,
    out: (Quat, bool),
}
#[derive(Clone, Copy)]
struct AimP {
    target: Vec3A,
    forward: Vec3A,
    offset: Vec3A,
    up: Vec3A,
    pole: Vec3A,
    twist: f32,
    weight: f32,
    joint: Mat4,
}

impl Machine for AimM {
    ops_table!["run", "target A", "target B", "near target", "forward Z", "forward invalid", "forward X", "offset", "no offset", "up Z", "pole X", "twist", "no twist", "weight 0.5", "weight 0", "weight 1", "joint", "clear outputs", "clear correction", "clear reached"];
    fn new() -> Self {
        let job = IKAimJob::default();
        let p = AimP { target: Vec3A::ZERO, forward: Vec3A::X, offset: Vec3A::ZERO, up: Vec3A::Y, pole: Vec3A::Y, twist: 0.0, weight: 1.0, joint: Mat4::IDENTITY };
        AimM { job, p, out: (Quat::IDENTITY, false) }
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        let (j, p) = (&mut self.job, &mut self.p);
        match op {
            0 => {
                let mut f = IKAimJob::default();
                f.set_target(p.target);
                f.set_forward(p.forward);
                f.set_offset(p.offset);
                f.set_up(p.up);
                f.set_pole_vector(p.pole);
                f.set_twist_angle(p.twist);
                f.set_weight(p.weight);
                f.set_joint(p.joint);
                let (a, b) = (j.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                if a.is_ok() {
                    self.out = (f.joint_correction(), f.reached());
                }
            }
            1 => p.target = Vec3A::new(0.4, 2.0, -1.0),
            2 => p.target = Vec3A::new(-3.0, 0.2, 0.7),
            3 => p.target = Vec3A::new(0.05, 0.0, 0.0),
            4 => p.forward = Vec3A::Z,
            5 => p.forward = Vec3A::new(2.0, 0.0, 0.0),
            6 => p.forward = Vec3A::X,
            7 => p.offset = Vec3A::new(0.2, 0.3, -0.1),
            8 => p.offset = Vec3A::ZERO,
            9 => p.up = Vec3A::Z,
            10 => p.pole = Vec3A::X,
            11 => p.twist = 0.8,
            12 => p.twist = 0.0,
            13 => p.weight = 0.5,
            14 => p.weight = 0.0,
            15 => p.weight = 1.0,
            16 => p.joint = Mat4::from_rotation_translation(Quat::from_rotation_y(1.0), Vec3::new(1.0, 2.0, 3.0)),
            17 => {
                j.clear_outs();
                self.out = (Quat::IDENTITY, false);
            }
            18 => {
                j.clear_joint_correction();
                self.out.0 = Quat::IDENTITY;
            }
            _ => {
                j.clear_reached();
                self.out.1 = false;
            }
        }
        if (1..=16).contains(&op) {
            match op {
                1..=3 => j.set_target(p.target),
                4..=6 => j.set_forward(p.forward),
                7 | 8 => j.set_offset(p.offset),
                9 => j.set_up(p.up),
                10 => j.set_pole_vector(p.pole),
                11 | 12 => j.set_twist_angle(p.twist),
                13..=15 => j.set_weight(p.weight),
                _ => j.set_joint(p.joint),
            }
        }
        let o = (j.joint_correction(), j.reached());
        ensure!(o.0.to_array().map(f32::to_bits) == self.out.0.to_array().map(f32::to_bits) && o.1 == self.out.1, "outputs {:?}, expected {:?}", o, self.out);
        ensure!(
            j.target() == p.target && j.forward() == p.forward && j.offset() == p.offset && j.up() == p.up && j.pole_vector() == p.pole && j.twist_angle() == p.twist && j.weight() == p.weight && j.joint() == p.joint,
            "the parameters changed"
        );
        Ok(Fnv::new().fs(&o.0.to_array()).get())
    }
}

struct TwoM {
    job: IKTwoBoneJob,
    p: TwoP,
    out: (Quat, Quat, bool),
}
#[derive(Clone, Copy)]
struct TwoP {
    target: Vec3A,
    axis: Vec3A,
    pole: Vec3A,
    twist: f32,
    soften: f32,
    weight: f32,
    start: Mat4,
    mid: Mat4,
    end: Mat4,
}

impl Machine for TwoM {
    ops_table![
        "run", "target A", "target B", "far target", "axis X", "axis invalid", "axis Z", "pole Z", "twist", "no twist", "soften 0.5", "soften 1", "weight 0.5", "weight 0", "weight 1", "move chain", "bend chain",
        "clear outputs", "clear start correction", "clear mid correction", "clear reached"
    ];
    fn new() -> Self {
        let p = TwoP {
            target: Vec3A::new(0.5, 1.2, 0.3),
            axis: Vec3A::Z,
            pole: Vec3A::Y,
            twist: 0.0,
            soften: 1.0,
            weight: 1.0,
            start: Mat4::IDENTITY,
            mid: Mat4::from_translation(Vec3::X),
            end: Mat4::from_translation(Vec3::new(1.5, 0.8, 0.0)),
        };
        let mut job = IKTwoBoneJob::default();
        job.set_target(p.target);
        job.set_mid_joint(p.mid);
        job.set_end_joint(p.end);
        TwoM { job, p, out: (Quat::IDENTITY, Quat::IDENTITY, false) }
    }
    fn step(&mut self, op: usize) -> Result<u64, String> {
        let (j, p) = (&mut self.job, &mut self.p);
        match op {
            0 => {
                let mut f = IKTwoBoneJob::default();
                f.set_target(p.target);
                f.set_mid_axis(p.axis);
                f.set_pole_vector(p.pole);
                f.set_twist_angle(p.twist);
                f.set_soften(p.soften);
                f.set_weight(p.weight);
                f.set_start_joint(p.start);
                f.set_mid_joint(p.mid);
                f.set_end_joint(p.end);
                let (a, b) = (j.run(), f.run());
                ensure!(res(&a) == res(&b), "run gives {:?}, a fresh job {:?}", a, b);
                if a.is_ok() {
                    self.out = (f.start_joint_correction(), f.mid_joint_correction(), f.reached());
                }
            }
            1 => p.target = Vec3A::new(0.4, 1.0, -1.0),
            2 => p.target = Vec3A::new(-1.0, 0.2, 0.7),
            3 => p.target = Vec3A::new(9.0, 1.0, 0.0),
            4 => p.axis = Vec3A::X,
            5 => p.axis = Vec3A::new(0.0, 0.0, 3.0),
            6 => p.axis = Vec3A::Z,
            7 => p.pole = Vec3A::Z,
            8 => p.twist = 0.8,
            9 => p.twist = 0.0,
            10 => p.soften = 0.5,
            11 => p.soften = 1.0,
            12 => p.weight = 0.5,
            13 => p.weight = 0.0,
            14 => p.weight = 1.0,
            15 => p.start = Mat4::from_rotation_translation(Quat::from_rotation_z(0.3), Vec3::new(0.1, 0.2, -0.4)),
            16 => p.end = Mat4::from_translation(Vec3::new(1.2, -0.9, 0.1)),
            17 => {
                j.clear_outs();
                self.out = (Quat::IDENTITY, Quat::IDENTITY, false);
            }
            18 => {
                j.clear_start_joint_correction();
                self.out.0 = Quat::IDENTITY;
            }
            19 => {
                j.clear_mid_joint_correction();
                self.out.1 = Quat::IDENTITY;
            }
            _ => {
                j.clear_reached();
                self.out.2 = false;
            }
        }
        match op {
            1..=3 => j.set_target(p.target),
            4..=6 => j.set_mid_axis(p.axis),
            7 => j.set_pole_vector(p.pole),
            8 | 9 => j.set_twist_angle(p.twist),
            10 | 11 => j.set_soften(p.soften),
            12..=14 => j.set_weight(p.weight),
            15 => j.set_start_joint(p.start),
            16 => j.set_end_joint(p.end),
            _ => {}
        }
        let o = (j.start_joint_correction(), j.mid_joint_correction(), j.reached());
        let b = |q: Quat| q.to_array().map(f32::to_bits);
        ensure!(b(o.0) == b(self.out.0) && b(o.1) == b(self.out.1) && o.2 == self.out.2, "outputs {:?}, expected {:?}", o, self.out);
        ensure!(
            j.target() == p.target && j.mid_axis() == p.axis && j.pole_vector() == p.pole && j.twist_angle() == p.twist && j.soften() == p.soften && j.weight() == p.weight && j.start_joint() == p.start && j.mid_joint() == p.mid && j.end_joint() == p.end,
            "the parameters changed"
        );
        Ok(Fnv::new().fs(&o.0.to_array()).fs(&o.1.to_array()).get())
    }
}

fn machine<M: Machine>(ctx: &mut Ctx, name: &str, depth: usize) {
    ctx.suite(name, |ctx| {
        for a in 0..M::ops() {
            ctx.case(|| format!("every sequence of at most {} operations starting with '{}'", depth + 1, M::name(a)), |st| search::<M>(a, depth, st));
        }
    });
}

/// Long lives: every pair of operations, each followed by a run, over and over; and every operation followed by
/// more runs than 16 bits can count.
fn long<M: Machine>(ctx: &mut Ctx, name: &str, runs: usize) {
    ctx.suite(&format!("{}, long lives", name), |ctx| {
        let mut live = |what: String, seq: &[usize], from: usize, n: usize| {
            ctx.case(
                || what.clone(),
                |st| {
                    let mut m = M::new();
                    let mut h = Fnv::new();
                    for i in 0..n {
                        let op = if i < seq.len() { seq[i] } else { seq[from + (i - from) % (seq.len() - from)] };
                        h.u64(m.step(op).map_err(|e| format!("operation {} ('{}'): {}", i, M::name(op), e))?);
                        st.transitions += 1;
                    }
                    tick();
                    st.traces += 1;
                    Ok(h.get())
                },
            );
        };
        for a in 0..M::ops() {
            for b in 0..M::ops() {
                live(format!("'{}', run, '{}', run, 150 times", M::name(a), M::name(b)), &[a, 0, b, 0], 0, 600);
            }
            live(format!("'{}', then {} runs", M::name(a), runs), &[a, 0], 1, runs);
        }
    });
}

pub fn c23(ctx: &mut Ctx) {
    let runs = ctx.pick3(300, 700, 66000);
    long::<Samp>(ctx, "sampling", runs);
    long::<Blend>(ctx, "blending", runs);
    long::<L2m>(ctx, "local-to-model", runs);
    long::<Skinner>(ctx, "skinning", runs);
    long::<TrackS>(ctx, "track-sampling", runs);
    long::<TrackT>(ctx, "track-triggering", runs);
    long::<Motion>(ctx, "motion-blending", runs);
    long::<AimM>(ctx, "ik-aim", runs);
    long::<TwoM>(ctx, "ik-two-bone", runs);
    let d = ctx.pick(4, 5);
    machine::<Samp>(ctx, "sampling", d);
    machine::<Blend>(ctx, "blending", d);
    machine::<L2m>(ctx, "local-to-model", d);
    machine::<Skinner>(ctx, "skinning", ctx.pick(4, 5));
    machine::<TrackS>(ctx, "track-sampling", d + 1);
    machine::<TrackT>(ctx, "track-triggering", d);
    machine::<Motion>(ctx, "motion-blending", d + 1);
    machine::<AimM>(ctx, "ik-aim", d);
    machine::<TwoM>(ctx, "ik-two-bone", d);
}
