//! C13: user-channel track sampling; C14: track triggering.

use crate::assets::*;
use crate::core::*;
use crate::p_assets::trk;
use crate::util::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;

fn probes(t: &Trk, fine: usize) -> Vec<f32> {
    let mut p = vec![0.0, -0.0, 1.0, 1.0f32.next_up(), -f32::MIN_POSITIVE, f32::MIN_POSITIVE, -1.0, 2.0, 1e30, -1e30, f32::INFINITY, f32::NEG_INFINITY, f32::MAX];
    let n = t.ratios.len();
    for (i, r) in t.ratios.iter().enumerate() {
        // Long tracks: both ends, the neighbourhood of byte and word limits, and every so many keys.
        if n > 300 && i > 40 && i + 40 < n && (i + 4) % 256 > 8 && (i + 20) % 65536 > 40 && i % (n / 50) != 0 || n > 3000 && i > 40 && i + 40 < n && (i + 20) % 65536 > 40 && i % (n / 50) != 0 {
            continue;
        }
        p.extend([*r, r.next_up(), r.next_down()]);
        if i + 1 < t.ratios.len() {
            let d = t.ratios[i + 1] - r;
            for k in 1..fine {
                p.push(r + d * k as f32 / fine as f32);
            }
        }
    }
    p
}

fn run_track<V: Flat>(t: &Trk, st: &mut Stats, fine: usize) -> Result<u64, String> {
    let x: Track<V> = load_track(t);
    let mut reused: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
    reused.set_track(&x);
    let mut h = Fnv::new();
    for r in probes(t, fine) {
        let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
        j.set_track(&x);
        j.set_ratio(r);
        ensure!(j.validate(), "valid job refused");
        j.run().map_err(|e| format!("{:?}", e))?;
        let got = j.result().flat();
        let want = t.value(r);
        for (k, (g, w)) in got.iter().zip(&want).enumerate() {
            // Rounding is relative to the component's own values.
            let mag = if t.kind == 4 { 0.1 } else { t.values.iter().map(|v| v[k].abs() as f64).fold(0.0, f64::max) };
            ensure!((*g as f64 - *w).abs() <= 3e-5 * mag, "ratio {:?}: component {} is {} expected {} (track {:?})", r, k, g, w, t);
        }
        // On a step key, at the ends and beyond them, the key's own value comes back.
        let n = t.ratios.len();
        if n > 0 {
            let c = r.clamp(0.0, 1.0);
            let i = (0..n).filter(|k| t.ratios[*k] <= c).max().unwrap_or(0);
            if i == n - 1 || t.steps[i] {
                let exact = got.iter().zip(&t.values[i]).all(|(a, b)| a == b);
                ensure!(exact, "ratio {:?}: {:?} instead of the held value {:?}", r, got, t.values[i]);
            }
        }
        if t.kind == 4 {
            let l: f64 = got.iter().map(|v| (*v as f64).powi(2)).sum();
            ensure!((l - 1.0).abs() < 1e-5, "ratio {:?}: quaternion {:?} is not normalised", r, got);
        }
        reused.set_ratio(r);
        reused.run().map_err(|e| format!("{:?}", e))?;
        ensure!(reused.result().flat().iter().map(|f| f.to_bits()).eq(got.iter().map(|f| f.to_bits())), "ratio {:?}: a reused job gives another value", r);
        h.fs(&got);
        st.transition();
    }
    Ok(h.get())
}

pub fn any_track(t: &Trk, st: &mut Stats, fine: usize) -> Result<u64, String> {
    match t.kind {
        0 => run_track::<f32>(t, st, fine),
        1 => run_track::<Vec2>(t, st, fine),
        2 => run_track::<Vec3>(t, st, fine),
        3 => run_track::<Vec4>(t, st, fine),
        _ => run_track::<Quat>(t, st, fine),
    }
}

/// Increasing ratio sequences over a grid, starting at 0.
fn ratio_sets(n: usize, grid: usize) -> Vec<Vec<f32>> {
    let mut out = Vec::new();
    if n == 0 {
        return vec![vec![]];
    }
    fn rec(cur: &mut Vec<usize>, n: usize, grid: usize, out: &mut Vec<Vec<f32>>) {
        if cur.len() == n {
            out.push(cur.iter().map(|i| *i as f32 / grid as f32).collect());
            return;
        }
        for k in cur.last().unwrap() + 1..=grid {
            cur.push(k);
            rec(cur, n, grid, out);
            cur.pop();
        }
    }
    rec(&mut vec![0], n, grid, &mut out);
    out
}

pub fn c13(ctx: &mut Ctx) {
    let th = ctx.wide();
    ctx.suite("small-tracks", |ctx| {
        for n in 0..=ctx.more(ctx.pick(5usize, 6), 7) {
            for ratios in ratio_sets(n, ctx.more(ctx.pick(8, 9), 10)) {
                for kind in 0..5 {
                    ctx.case(
                        || format!("kind {} ratios {:?}, every step pattern", kind, ratios),
                        |st| {
                            let mut h = 0u64;
                            for bits in 0..1u32 << n {
                                let mut t = trk(kind, n, n + kind, (0..n).map(|i| i < 32 && bits >> i & 1 == 1).collect());
                                t.ratios = ratios.clone();
                                h = h.rotate_left(3) ^ any_track(&t, st, 4)?;
                            }
                            Ok(h)
                        },
                    );
                }
            }
        }
    });
    // Step flags are packed eight to a byte.
    ctx.suite("step-bytes", |ctx| {
        for n in 6..=ctx.more(ctx.pick(40usize, 130), 400) {
            for kind in 0..5 {
                for pat in 0..10usize {
                    ctx.case(
                        || format!("{} keys of kind {}, step pattern {}", n, kind, pat),
                        |st| {
                            let steps = (0..n)
                                .map(|i| match pat {
                                    0 => false,
                                    1 => true,
                                    2 => i % 2 == 0,
                                    3 => i % 8 == 7,
                                    4 => i % 8 == 0,
                                    5 => i == n - 1,
                                    6 => i + 2 == n,
                                    7 => i / 8 % 2 == 1,
                                    8 => i % 3 == 1,
                                    _ => (i * 7 + i / 5) % 4 < 2,
                                })
                                .collect();
                            any_track(&trk(kind, n, pat, steps), st, 3)
                        },
                    );
                }
            }
        }
    });
    ctx.suite("many-keys", |ctx| {
        let ns = ctx.pick3(vec![], vec![255usize, 256, 257, 511, 512, 513, 1024, 1025, 2049, 65535, 65536, 65537, 70001], (250..270).chain(500..530).chain([1023, 1024, 1025, 2047, 2048, 2049, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073]).collect());
        for n in ns {
            for kind in 0..5 {
                for pat in 0..4usize {
                    ctx.case(
                        || format!("{} keys of kind {}, step pattern {}", n, kind, pat),
                        |st| {
                            let steps = (0..n).map(|i| match pat { 0 => false, 1 => i % 2 == 0, 2 => i % 8 == 7, _ => (i * 7 + i / 5) % 4 < 2 }).collect();
                            any_track(&trk(kind, n, pat, steps), st, 2)
                        },
                    );
                }
            }
        }
    });
    if th {
        ctx.suite("step-patterns-9", |ctx| {
            let n = ctx.more(12usize, 17);
            for bits in 0..1u32 << n {
                ctx.case(
                    || format!("{} keys, step bits {:b}", n, bits),
                    |st| any_track(&trk((bits % 5) as usize, n, 1, (0..n).map(|i| i < 32 && bits >> i & 1 == 1).collect()), st, 2),
                );
            }
        });
    }
    // Unevenly spaced keys, nearly equal ratios, extreme values.
    ctx.suite("uneven", |ctx| {
        let sets: Vec<Vec<f32>> = vec![
            vec![0.0, f32::EPSILON, 1.0],
            vec![0.0, 0.5, 0.5f32.next_up(), 1.0],
            vec![0.0, 1.0f32.next_down(), 1.0],
            vec![0.0, 1e-20, 1e-3, 0.9],
            vec![0.0, 0.1, 0.100001, 0.100002, 0.3, 0.999, 1.0],
            vec![0.0, f32::MIN_POSITIVE, 1.0],
        ];
        for (si, ratios) in sets.iter().enumerate() {
            for kind in 0..5 {
                for bits in 0..1u32 << ratios.len() {
                    ctx.case(
                        || format!("ratios {:?} kind {} steps {:b}", ratios, kind, bits),
                        |st| {
                            let n = ratios.len();
                            let mut t = trk(kind, n, si, (0..n).map(|i| i < 32 && bits >> i & 1 == 1).collect());
                            t.ratios = ratios.clone();
                            any_track(&t, st, 5)
                        },
                    );
                }
            }
        }
    });
    // Values of every size: the result is as exact for a small value as for a large one.
    ctx.suite("magnitudes", |ctx| {
        for e in [-100i32, -40, -20, -10, -4, 4, 10, 20, 40, 100] {
            for kind in 0..4 {
                for n in 1..=ctx.pick(4usize, 6) {
                    ctx.case(
                        || format!("{} keys of kind {}, values scaled by 2^{}, every step pattern", n, kind, e),
                        |st| {
                            let mut h = 0u64;
                            for bits in 0..1u32 << n {
                                let mut t = trk(kind, n, n + kind, (0..n).map(|i| bits >> i & 1 == 1).collect());
                                for v in t.values.iter_mut().flatten() {
                                    *v *= 2f32.powi(e);
                                }
                                h = h.rotate_left(3) ^ any_track(&t, st, 7)?;
                            }
                            Ok(h)
                        },
                    );
                }
            }
        }
        // Rotations that differ by little.
        for a in [0.3f64, 0.03, 3e-3, 1e-3] {
            for bits in 0..8u32 {
                ctx.case(
                    || format!("rotations {} apart, step pattern {:b}", a, bits),
                    |st| {
                        let mut t = trk(4, 3, 1, (0..3).map(|i| bits >> i & 1 == 1).collect());
                        for (i, v) in t.values.iter_mut().enumerate() {
                            let q = quat_axis([0.4, -1.0, 0.3], a * (i + 1) as f64);
                            *v = q.to_vec();
                        }
                        any_track(&t, st, 9)
                    },
                );
            }
        }
    });
    ctx.suite("no-track", |ctx| {
        ctx.case(
            || "no track, default track".into(),
            |_| {
                fn go<V: Flat>() -> Result<(), String> {
                    let mut j: TrackSamplingJob<V> = TrackSamplingJob::default();
                    let r = j.run();
                    ensure!(!j.validate() && matches!(r, Err(OzzError::InvalidJob)), "a job without a track is accepted");
                    j.set_track(std::rc::Rc::new(Track::default()));
                    j.set_ratio(0.3);
                    ensure!(j.validate() && j.run().is_ok(), "empty track refused");
                    ensure!(j.result() == V::default(), "empty track gives {:?}", j.result());
                    Ok(())
                }
                go::<f32>()?;
                go::<Vec2>()?;
                go::<Vec3>()?;
                go::<Vec4>()?;
                go::<Quat>()?;
                Ok(1)
            },
        );
    });
}

// ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
struct E {
    at: f64,
    rising: bool,
}

/// Ratio and direction of an edge, as its serialised form and its equality have them.
pub fn edge_parts(e: &Edge) -> Result<(f32, bool), String> {
    let j = serde_json::to_value(e).map_err(|e| e.to_string())?;
    let (at, rising) = (j["ratio"].as_f64().unwrap_or(f64::NAN) as f32, j["rising"].as_bool().ok_or("no direction")?);
    ensure!(at.is_nan() || Edge::new(at, rising) == *e, "{:?} does not equal an edge built from its parts", e);
    ensure!(at.is_nan() || Edge::new(at, !rising) != *e && Edge::new(at + 1.0 + at.abs(), rising) != *e, "{:?} equals another edge", e);
    Ok((at, rising))
}

fn edges(x: &Track<f32>, from: f32, to: f32, threshold: f32) -> Result<Vec<E>, String> {
    let mut job: TrackTriggeringJobRef = TrackTriggeringJob::default();
    job.set_track(x);
    job.set_from(from);
    job.set_to(to);
    job.set_threshold(threshold);
    ensure!(job.validate(), "valid job refused");
    let mut v = Vec::new();
    let cap = 64 + x.key_count() * ((to - from).abs().min(1e6) as usize + 3) * 2;
    let mut it = job.run().map_err(|e| format!("{:?}", e))?;
    for e in it.by_ref() {
        let (at, rising) = edge_parts(&e)?;
        v.push(E { at: at as f64, rising });
        ensure!(v.len() <= cap, "window {}..{}: endless sequence of edges", from, to);
    }
    ensure!(it.next().is_none(), "the iterator restarts after its end");
    Ok(v)
}

/// Reference: crossings of the looping track, loop by loop, from the plain keys. An edge at the very end
/// of a loop belongs to a window that reaches that end.
fn reference(t: &Trk, lo: f64, hi: f64, th: f64) -> (Vec<E>, f64) {
    let n = t.ratios.len();
    let mut out = Vec::new();
    let mut margin = f64::MAX;
    if n == 0 || lo == hi {
        return (out, margin);
    }
    let v = |i: usize| t.values[i][0] as f64;
    for k in lo.floor() as i64 - 1..=hi.ceil() as i64 {
        for i in 0..n {
            let prev = if i == 0 { n - 1 } else { i - 1 };
            let (a, b) = (v(prev), v(i));
            let rising = a <= th && b > th;
            let falling = a > th && b <= th;
            if !rising && !falling {
                continue;
            }
            let at = if i == 0 {
                t.ratios[0] as f64
            } else if t.steps[prev] {
                t.ratios[i] as f64
            } else {
                t.ratios[prev] as f64 + (t.ratios[i] as f64 - t.ratios[prev] as f64) * (th - a) / (b - a)
            };
            let p = at + k as f64;
            let end = at == 1.0;
            let inside = if end { lo < p && p <= hi } else { lo <= p && p < hi };
            for w in [lo, hi] {
                if p != w {
                    margin = margin.min((p - w).abs());
                }
            }
            if inside {
                out.push(E { at: p, rising });
            }
        }
    }
    (out, margin)
}

fn same(a: &[E], b: &[E]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.rising == y.rising && (x.at - y.at).abs() < 2e-5 + 2.5e-7 * y.at.abs())
}

fn track_of(ratios: &[f32], values: &[f32], bits: u32) -> Trk {
    Trk { kind: 0, name: String::new(), ratios: ratios.to_vec(), values: values.iter().map(|v| vec![*v]).collect(), steps: (0..ratios.len()).map(|i| i < 32 && bits >> i & 1 == 1).collect() }
}

fn check_windows(t: &Trk, grid: &[f32], th: f32, exact: bool, st: &mut Stats) -> Result<u64, String> {
    let x: Track<f32> = load_track(t);
    let mut h = Fnv::new();
    let n = grid.len();
    let mut all: Vec<Vec<Option<Vec<E>>>> = vec![vec![None; n]; n];
    for i in 0..n {
        for j in i..n {
            let (lo, hi) = (grid[i], grid[j]);
            let fwd = edges(&x, lo, hi, th)?;
            let (want, margin) = reference(t, lo as f64, hi as f64, th as f64);
            st.transition();
            if exact || margin > 1e-4 {
                ensure!(same(&fwd, &want), "window {}..{} threshold {}: edges {:?} expected {:?} (track {:?})", lo, hi, th, fwd, want, t);
            }
            let bwd = edges(&x, hi, lo, th)?;
            let mirror: Vec<E> = fwd.iter().rev().map(|e| E { at: e.at, rising: !e.rising }).collect();
            ensure!(same(&bwd, &mirror), "window {}..{} threshold {} backward: {:?}, forward {:?} (track {:?})", hi, lo, th, bwd, fwd, t);
            for e in &fwd {
                h.f32(e.at as f32).u64(e.rising as u64);
            }
            all[i][j] = Some(fwd);
        }
    }
    // Cutting a window anywhere gives the same edges.
    for i in 0..n {
        for j in i..n {
            for c in i..=j {
                let (a, b, w) = (all[i][c].as_ref().unwrap(), all[c][j].as_ref().unwrap(), all[i][j].as_ref().unwrap());
                let ok = same(&a.iter().chain(b.iter()).copied().collect::<Vec<_>>(), w);
                ensure!(ok, "window {}..{} cut at {}: {:?} then {:?}, whole {:?} (track {:?})", grid[i], grid[j], grid[c], a, b, w, t);
            }
        }
    }
    Ok(h.get())
}

pub fn c14(ctx: &mut Ctx) {
    let th = ctx.wide();
    // Values and ratios chosen so that every crossing falls on a binary fraction: comparisons are exact.
    let den = 8;
    let win: Vec<f32> = if th { (-36..=52).map(|i| i as f32 / 16.0).collect() } else { (-10..=18).map(|i| i as f32 / 8.0).collect() };
    let vals = [-1.0f32, 0.0, 1.0, 3.0];
    ctx.suite("windows", |ctx| {
        for n in 0..=ctx.pick(3usize, 4) {
            for ratios in ratio_sets(n, if n <= 3 { den } else { 4 }) {
                tuples(vals.len(), n, |d| {
                    let values: Vec<f32> = d.iter().map(|i| vals[*i]).collect();
                    // Skip crossings that are not binary fractions (threshold 0: -1..3 over a non-dyadic step).
                    ctx.case(
                        || format!("ratios {:?} values {:?}: every step pattern, every window and cut", ratios, values),
                        |st| {
                            let mut h = 0;
                            for bits in 0..1u32 << n {
                                h ^= check_windows(&track_of(&ratios, &values, bits), &win, 0.0, true, st)?.rotate_left(bits);
                            }
                            Ok(h)
                        },
                    );
                });
            }
        }
    });
    ctx.suite("thresholds", |ctx| {
        let win: Vec<f32> = (-9..=17).map(|i| i as f32 * 0.1337 + 0.0071).chain([-1.0, 0.0, 1.0, 2.0]).collect();
        let mut win = win;
        win.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for n in 2..=ctx.pick(4usize, 5) {
            for ratios in ratio_sets(n, 5) {
                for seed in 0..ctx.pick(6, 20) {
                    for t in [-0.6f32, 0.05, 0.3, 0.77, 5.0, -5.0] {
                        ctx.case(
                            || format!("ratios {:?} value set {} threshold {}", ratios, seed, t),
                            |st| {
                                let values: Vec<f32> = (0..n).map(|i| (((i * 5 + seed * 3 + i * i * seed) % 7) as f32 - 3.0) * 0.45).collect();
                                let mut h = 0;
                                for bits in 0..1u32 << n {
                                    h ^= check_windows(&track_of(&ratios, &values, bits), &win, t, false, st)?.rotate_left(bits);
                                }
                                Ok(h)
                            },
                        );
                    }
                }
            }
        }
    });
    ctx.suite("many-keys", |ctx| {
        for n in (7..=ctx.pick(20usize, 40)).chain([63, 64, 65, 66, 127, 129]).chain(ctx.pick3(vec![], vec![], vec![255, 256, 257, 258, 513, 1025, 2000])) {
            for pat in 0..6u32 {
                ctx.case(
                    || format!("{} keys, pattern {}", n, pat),
                    |st| {
                        let den = if n <= 64 { 64.0 } else if n <= 256 { 256.0 } else { 2048.0 };
                        let ratios: Vec<f32> = (0..n).map(|i| i as f32 / den).collect();
                        let values: Vec<f32> = (0..n).map(|i| [-1.0, 1.0, 3.0, 0.0, -1.0, -1.0, 1.0][(i * (pat as usize + 1)) % 7]).collect();
                        let mut t = track_of(&ratios, &values, 0);
                        t.steps = (0..n).map(|i| match pat { 0 => false, 1 => true, 2 => i % 2 == 0, 3 => i % 8 == 7, 4 => i % 8 == 0, _ => i > 7 }).collect();
                        let win: Vec<f32> = (0..=24).map(|i| i as f32 / 64.0 - 0.03125).chain([0.5, 0.75, 1.0, 1.25, 2.0]).collect();
                        check_windows(&t, &win, 0.0, true, st)
                    },
                );
            }
        }
    });
    // Windows that begin or end just before, at or just after a key or the end of a loop (all binary fractions, so that
    // every comparison stays exact).
    ctx.suite("boundaries", |ctx| {
        let eps: Vec<f32> = [20, 16, 13, 12, 11, 9, 7].iter().map(|e| 2f32.powi(-e)).collect();
        for (k, near) in eps.iter().enumerate() {
            for ratios in [vec![0.0f32, 1.0], vec![0.0, 0.5, 1.0 - near], vec![0.0, *near, 0.5], vec![0.0, 0.5, 1.0 - near, 1.0], vec![0.0, 0.5, 0.5 + near, 1.0]] {
                let n = ratios.len();
                let mut win = Vec::new();
                for b in [-2.0f32, -1.0, 0.0, 1.0, 2.0] {
                    for c in [0.0f32, 0.5] {
                        for e in [*near, eps[(k + 3) % eps.len()]] {
                            win.extend([b + c - e, b + c, b + c + e]);
                        }
                    }
                }
                win.sort_by(|a, b| a.total_cmp(b));
                win.dedup();
                ctx.case(
                    || format!("ratios {:?}: every value and step pattern, windows that end near keys and loops", ratios),
                    |st| {
                        let mut h = 0;
                        for v in 1..(1u32 << n) - 1 {
                            for bits in [0, (1 << n) - 1, 0b0101 & ((1 << n) - 1)] {
                                let values: Vec<f32> = (0..n).map(|i| if v >> i & 1 == 1 { 1.0 } else { -1.0 }).collect();
                                h ^= check_windows(&track_of(&ratios, &values, bits), &win, 0.0, true, st)?.rotate_left(bits);
                            }
                        }
                        Ok(h)
                    },
                );
            }
        }
    });
    // Whole-loop shifts, long windows.
    ctx.suite("loops", |ctx| {
        for n in 2..=3usize {
            for ratios in ratio_sets(n, 4) {
                tuples(3, n, |d| {
                    let values: Vec<f32> = d.iter().map(|i| [-1.0f32, 1.0, 3.0][*i]).collect();
                    ctx.case(
                        || format!("ratios {:?} values {:?}: windows shifted by whole loops, long windows", ratios, values),
                        |st| {
                            let mut h = Fnv::new();
                            for bits in 0..1u32 << n {
                                let t = track_of(&ratios, &values, bits);
                                let x: Track<f32> = load_track(&t);
                                for a in -8..=8 {
                                    for b in -8..=8 {
                                        let (lo, hi) = (a as f32 / 4.0, b as f32 / 4.0);
                                        let base = edges(&x, lo, hi, 0.0)?;
                                        for shift in [-100.0f32, -3.0, 1.0, 2.0, 7.0, 1000.0, 65536.0] {
                                            let s = edges(&x, lo + shift, hi + shift, 0.0)?;
                                            let want: Vec<E> = base.iter().map(|e| E { at: e.at + shift as f64, ..*e }).collect();
                                            ensure!(same(&s, &want), "window {}..{} shifted by {}: {:?} expected {:?} (track {:?})", lo, hi, shift, s, want, t);
                                            st.transition();
                                        }
                                    }
                                }
                                for (lo, hi) in [(0.0f32, 25.0f32), (-20.5, 4.25), (3.0, 40.0)] {
                                    let (want, _) = reference(&t, lo as f64, hi as f64, 0.0);
                                    let got = edges(&x, lo, hi, 0.0)?;
                                    ensure!(same(&got, &want), "window {}..{}: {} edges expected {}", lo, hi, got.len(), want.len());
                                    let back = edges(&x, hi, lo, 0.0)?;
                                    ensure!(back.len() == want.len(), "window {}..{}: {} edges expected {}", hi, lo, back.len(), want.len());
                                    h.u64(got.len() as u64);
                                }
                            }
                            Ok(h.get())
                        },
                    );
                });
            }
        }
    });
    // Only the proportion of the values to the threshold counts: scaled together by a power of two, the edges
    // stay where they are.
    ctx.suite("magnitudes", |ctx| {
        for n in 1..=3usize {
            for ratios in ratio_sets(n, 5) {
                for seed in 0..ctx.pick(4, 12) {
                    ctx.case(
                        || format!("ratios {:?} value set {}: every scale, step pattern, threshold and window", ratios, seed),
                        |st| {
                            let values: Vec<f32> = (0..n).map(|i| (((i * 5 + seed * 3 + i * i * seed) % 7) as f32 - 3.0) * 0.45).collect();
                            let mut h = Fnv::new();
                            for bits in 0..1u32 << n {
                                let x: Track<f32> = load_track(&track_of(&ratios, &values, bits));
                                for th in [-0.6f32, 0.0, 0.3, 0.77] {
                                    for (lo, hi) in [(0.0f32, 1.0f32), (0.13, 2.7), (-1.3, 0.4), (1.9, -0.2)] {
                                        let want = edges(&x, lo, hi, th)?;
                                        for e in [-80i32, -30, -23, -14, -7, 7, 14, 30, 80] {
                                            let s = 2f32.powi(e);
                                            let y: Track<f32> = load_track(&track_of(&ratios, &values.iter().map(|v| v * s).collect::<Vec<_>>(), bits));
                                            let got = edges(&y, lo, hi, th * s)?;
                                            ensure!(same(&got, &want), "values {:?} threshold {} scaled by 2^{}: window {}..{} has edges {:?}, unscaled {:?}", values, th, e, lo, hi, got, want);
                                            st.transition();
                                        }
                                        for e in &want {
                                            h.f32(e.at as f32);
                                        }
                                    }
                                }
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        }
    });
    // Degenerate and extreme windows end.
    ctx.suite("extremes", |ctx| {
        let big = [16777216.0f32, 16777220.0, -16777216.0, -16777220.0, 1e9, -1e9, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN];
        for (k, values) in [vec![], vec![1.0f32], vec![-1.0, -1.0], vec![-2.0, -1.0, -3.0]].into_iter().enumerate() {
            for a in big.iter().chain([0.0f32].iter()) {
                for b in big.iter().chain([0.5f32].iter()) {
                    // Long finite windows are legitimately long walks: keep those that start far away.
                    let far = a.abs() >= 16777216.0 && (b.is_sign_positive() == a.is_sign_positive() || b.abs() < 1.0);
                    if !far || (a.abs() < f32::INFINITY && (a.abs() > b.abs())) {
                        continue;
                    }
                    ctx.case(
                        || format!("value set {} window {}..{}", k, a, b),
                        |_| {
                            let ratios: Vec<f32> = (0..values.len()).map(|i| i as f32 / 4.0).collect();
                            let x: Track<f32> = load_track(&track_of(&ratios, &values, 0));
                            let e = edges(&x, *a, *b, 0.0)?;
                            ensure!(e.is_empty(), "edges {:?} on a track that never crosses", e);
                            Ok(k as u64)
                        },
                    );
                }
            }
        }
        for w in [0.0f32, 0.25, 1.0, -3.5, 100.0] {
            ctx.case(
                || format!("empty window at {}", w),
                |_| {
                    let x: Track<f32> = load_track(&track_of(&[0.0, 0.25, 1.0], &[-1.0, 1.0, -1.0], 3));
                    let e = edges(&x, w, w, 0.0)?;
                    ensure!(e.is_empty(), "empty window reports {:?}", e);
                    Ok(0)
                },
            );
        }
    });
}
