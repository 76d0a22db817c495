//! C06 - C08: loading, refusing and round-tripping assets.

use crate::assets::*;
use crate::core::*;
use crate::p_sampling::*;
use crate::util::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;
use std::io::{self, Read};

// ---------------------------------------------------------------------------------------------------
// Readers

/// Delivers at most `chunk` bytes per call; with `interrupts`, every other call is interrupted.
struct Chunked<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    interrupts: bool,
    calls: usize,
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.calls % 2 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Delivers the first `at` bytes, then fails with `kind` for ever.
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    kind: io::ErrorKind,
}

impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && !buf.is_empty() {
            return Err(io::Error::from(self.kind));
        }
        let n = buf.len().min(self.at - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------------------------------------------
// Comparing a loaded asset with its description

fn feq(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

fn feqs(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| feq(*x, *y))
}

pub fn check_anim(a: &Anim, x: &Animation) -> Result<u64, String> {
    ensure!(feq(x.duration(), a.duration), "duration {} expected {}", x.duration(), a.duration);
    ensure!(x.num_tracks() == a.num_tracks(), "track count {} expected {}", x.num_tracks(), a.num_tracks());
    ensure!(x.num_soa_tracks() == a.soa(), "SoA track count");
    ensure!(x.num_aligned_tracks() == a.soa() * 4, "aligned track count");
    ensure!(x.name() == a.name, "name {:?} expected {:?}", x.name(), a.name);
    ensure!(feqs(x.timepoints(), &a.times), "time points differ");
    let ctrls = [x.translations_ctrl(), x.rotations_ctrl(), x.scales_ctrl()];
    let mut h = Fnv::new();
    for c in 0..3 {
        let s = a.sorted(c);
        let k = &ctrls[c];
        ensure!(k.ratios.iter().map(|r| *r as usize).eq(s.ratios.iter().copied()), "channel {}: key times differ", c);
        ensure!(k.previouses == &s.previouses[..], "channel {}: previous-key offsets differ", c);
        ensure!(k.iframe_entries == &s.entries[..], "channel {}: seek frame entries differ", c);
        ensure!(k.iframe_desc == &s.desc[..], "channel {}: seek frame descriptors differ", c);
        let iv = if a.interval[c] > 0.0 { a.interval[c] } else { 1.0 };
        ensure!(feq(k.iframe_interval, iv), "channel {}: seek interval {} expected {}", c, k.iframe_interval, iv);
        let ok = match c {
            T => x.translations().iter().copied().eq(s.keys.iter().map(|v| Float3Key::new(*v))),
            R => x.rotations().iter().copied().eq(s.keys.iter().map(|v| QuaternionKey::new(*v))),
            _ => x.scales().iter().copied().eq(s.keys.iter().map(|v| Float3Key::new(*v))),
        };
        ensure!(ok, "channel {}: key values differ", c);
        for v in &s.keys {
            h.u64(v[0] as u64 | (v[1] as u64) << 16 | (v[2] as u64) << 32);
        }
        h.u64(s.entries.len() as u64);
    }
    Ok(h.u64(a.times.len() as u64).str(&a.name).get())
}

pub fn check_skel(s: &Skel, x: &Skeleton) -> Result<u64, String> {
    let n = s.parents.len();
    ensure!(x.num_joints() == n && x.num_soa_joints() == s.soa() && x.num_aligned_joints() == s.soa() * 4, "joint counts");
    ensure!(x.joint_parents() == &s.parents[..], "parents {:?} expected {:?}", x.joint_parents(), s.parents);
    ensure!(x.joint_names().len() == n, "{} names for {} joints", x.joint_names().len(), n);
    for (i, name) in s.names.iter().enumerate() {
        ensure!(x.joint_by_name(name) == Some(i as i16), "name {:?} gives {:?} expected {}", name, x.joint_by_name(name), i);
        ensure!(x.name_by_joint(i as i16) == Some(name.as_str()), "joint {} is named {:?}", i, x.name_by_joint(i as i16));
        ensure!(x.joint_parent(i) == s.parents[i], "parent of {}", i);
    }
    let want = soa_pose(&s.rest, s.soa());
    ensure!(pose_bits(x.joint_rest_poses()) == pose_bits(&want), "rest poses differ");
    let mut h = Fnv::new();
    for p in &s.parents {
        h.u64(*p as u64);
    }
    for n in &s.names {
        h.str(n).u64(1);
    }
    Ok(h.u64(hash_pose(&want)).get())
}

pub fn check_track<V: Flat>(t: &Trk, x: &Track<V>) -> Result<u64, String> {
    ensure!(x.key_count() == t.ratios.len(), "key count {} expected {}", x.key_count(), t.ratios.len());
    ensure!(x.name() == t.name, "name {:?} expected {:?}", x.name(), t.name);
    ensure!(feqs(x.ratios(), &t.ratios), "ratios differ");
    ensure!(x.values().len() == t.values.len(), "value count");
    for (i, v) in x.values().iter().enumerate() {
        ensure!(feqs(&v.flat(), &t.values[i]), "value {}: {:?} expected {:?}", i, v.flat(), t.values[i]);
    }
    ensure!(x.steps() == &t.step_bytes()[..], "interpolation modes {:?} expected {:?}", x.steps(), t.step_bytes());
    let mut h = Fnv::new();
    for v in &t.values {
        h.fs(v);
    }
    Ok(h.fs(&t.ratios).bytes(&t.step_bytes()).get())
}

/// Any asset, with one load and one check entry point.
#[derive(Clone, Debug)]
pub enum Asset {
    A(Anim),
    S(Skel),
    T(Trk),
}

impl Asset {
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        match self {
            Asset::A(a) => a.bytes(big),
            Asset::S(s) => s.bytes(big),
            Asset::T(t) => t.bytes(big),
        }
    }

    fn name(&self) -> String {
        match self {
            Asset::A(a) => format!("animation of {} tracks, {} times", a.num_tracks(), a.times.len()),
            Asset::S(s) => format!("skeleton of {} joints", s.parents.len()),
            Asset::T(t) => format!("{} of {} keys", TRK_TAGS[t.kind], t.ratios.len()),
        }
    }

    /// Loads from the archive and compares; Err(Ok(e)) = load error, Err(Err(m)) = wrong content.
    fn load<R: Read>(&self, ar: &mut Archive<R>) -> Result<u64, Result<OzzError, String>> {
        fn t<V: Flat, R: Read>(t: &Trk, ar: &mut Archive<R>) -> Result<u64, Result<OzzError, String>> {
            check_track(t, &Track::<V>::from_archive(ar).map_err(Ok)?).map_err(Err)
        }
        match self {
            Asset::A(a) => check_anim(a, &Animation::from_archive(ar).map_err(Ok)?).map_err(Err),
            Asset::S(s) => check_skel(s, &Skeleton::from_archive(ar).map_err(Ok)?).map_err(Err),
            Asset::T(x) => match x.kind {
                0 => t::<f32, R>(x, ar),
                1 => t::<Vec2, R>(x, ar),
                2 => t::<Vec3, R>(x, ar),
                3 => t::<Vec4, R>(x, ar),
                _ => t::<Quat, R>(x, ar),
            },
        }
    }

    /// Only whether loading succeeds.
    fn try_load<R: Read>(&self, r: R) -> Result<(), OzzError> {
        let mut ar = Archive::new(r)?;
        match self {
            Asset::A(_) => Animation::from_archive(&mut ar).map(|_| ()),
            Asset::S(_) => Skeleton::from_archive(&mut ar).map(|_| ()),
            Asset::T(x) => match x.kind {
                0 => Track::<f32>::from_archive(&mut ar).map(|_| ()),
                1 => Track::<Vec2>::from_archive(&mut ar).map(|_| ()),
                2 => Track::<Vec3>::from_archive(&mut ar).map(|_| ()),
                3 => Track::<Vec4>::from_archive(&mut ar).map(|_| ()),
                _ => Track::<Quat>::from_archive(&mut ar).map(|_| ()),
            },
        }
    }

    #[cfg(feature = "full")]
    fn load_path(&self, path: &str) -> Result<u64, String> {
        let e = |e: OzzError| format!("from_path: {}", e);
        match self {
            Asset::A(a) => check_anim(a, &Animation::from_path(path).map_err(e)?),
            Asset::S(s) => check_skel(s, &Skeleton::from_path(path).map_err(e)?),
            Asset::T(x) => match x.kind {
                0 => check_track::<f32>(x, &Track::from_path(path).map_err(e)?),
                1 => check_track::<Vec2>(x, &Track::from_path(path).map_err(e)?),
                2 => check_track::<Vec3>(x, &Track::from_path(path).map_err(e)?),
                3 => check_track::<Vec4>(x, &Track::from_path(path).map_err(e)?),
                _ => check_track::<Quat>(x, &Track::from_path(path).map_err(e)?),
            },
        }
    }
}

fn loaded(r: Result<u64, Result<OzzError, String>>, what: &str) -> Result<u64, String> {
    r.map_err(|e| match e {
        Ok(e) => format!("{}: valid archive refused: {}", what, e),
        Err(m) => format!("{}: {}", what, m),
    })
}

fn check_sources(a: &Asset) -> Result<u64, String> {
    let mut h = 0;
    for big in [false, true] {
        let b = a.bytes(big);
        let en = if big { "big endian" } else { "little endian" };
        let o = |e: OzzError| format!("{}: archive not opened: {}", en, e);
        h = loaded(a.load(&mut Archive::from_slice(&b).map_err(o)?), &format!("{} slice", en))?;
        ensure!(Archive::from_slice(&b).map_err(o)?.endian_swap() == (big == cfg!(target_endian = "little")), "byte order not recognised");
        loaded(a.load(&mut Archive::from_vec(b.clone()).map_err(o)?), &format!("{} owned buffer", en))?;
        for chunk in [1usize, 2, 3, 5, 8, 61] {
            for interrupts in [false, true] {
                let r = Chunked { data: &b, pos: 0, chunk, interrupts, calls: 0 };
                loaded(a.load(&mut Archive::new(r).map_err(o)?), &format!("{} reader of {} bytes per call, interrupts {}", en, chunk, interrupts))?;
            }
        }
        // A reader that holds more than the asset: nothing beyond it is needed or misread.
        let mut more = b.clone();
        more.extend([0xEE; 64]);
        loaded(a.load(&mut Archive::from_slice(&more).map_err(o)?), &format!("{} with trailing data", en))?;
    }
    Ok(h)
}

pub fn tmp_dir() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("ozzmc-files-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

// ---------------------------------------------------------------------------------------------------
// Families

pub const NAMES: [&str; 9] = ["", "a", "clip one", "clip/è\u{4e2d}\u{1F600}", "quote\" back\\slash", "tab\tnew\nline\u{7f}", "0", "trailing ", "\u{fffd}\u{200d}"];

pub fn trk(kind: usize, n: usize, seed: usize, steps: Vec<bool>) -> Trk {
    let ratios: Vec<f32> = (0..n).map(|i| if n == 1 { 0.0 } else { i as f32 / (n - 1) as f32 }).collect();
    let values = (0..n)
        .map(|i| {
            if kind == 4 {
                let q = qaxis([1.0, 0.3 + seed as f64 * 0.1, -0.4], 0.3 + 0.5 * i as f64);
                q.map(|x| x as f32).to_vec()
            } else {
                (0..TRK_DIM[kind]).map(|d| ((i * 7 + d * 3 + seed) % 11) as f32 * 0.75 - 3.0 + i as f32 * 0.01).collect()
            }
        })
        .collect();
    Trk { kind, name: NAMES[seed % NAMES.len()].to_string(), ratios, values, steps }
}

fn rest_pose(n: usize) -> Vec<Xf> {
    (0..n)
        .map(|i| {
            let f = i as f32;
            Xf {
                t: [f * 0.5 - 1.0, 1.0 / (f + 1.0), -0.0 + f * 1e-6],
                r: quat_axis([1.0, f as f64 * 0.3 - 1.0, 0.2], 0.3 + f as f64),
                s: [1.0 + f * 0.125, 2.0 - f * 0.01, 1e-3 * (f + 1.0)],
            }
        })
        .collect()
}

pub fn skel(parents: &[i16], named: usize) -> Skel {
    let mut s = Skel::of(parents);
    s.rest = rest_pose(parents.len());
    if named > 0 {
        for (i, n) in s.names.iter_mut().enumerate() {
            // Distinct, of any kind; the empty name is allowed once.
            *n = if i < NAMES.len() { NAMES[(i + named) % NAMES.len()].to_string() } else { format!("{}#{}", NAMES[i % NAMES.len()], i) };
        }
    }
    s
}

/// Depth-first forest of `n` joints with a branching pattern.
pub fn big_hierarchy(n: usize) -> Vec<i16> {
    let mut v: Vec<i16> = Vec::new();
    for i in 0..n {
        if i == 0 || i % 97 == 0 {
            v.push(-1);
        } else {
            let mut p = i as i16 - 1;
            for _ in 0..(i * 5 % 7) / 2 {
                if v[p as usize] >= 0 {
                    p = v[p as usize];
                }
            }
            v.push(p);
        }
    }
    v
}

pub fn empty_anim() -> Anim {
    Anim { duration: 1.5, name: "nothing".into(), times: vec![], chans: [vec![], vec![], vec![]], interval: [0.0; 3] }
}

pub fn families(th: bool) -> Vec<Asset> {
    let mut v: Vec<Asset> = Vec::new();
    v.push(Asset::A(empty_anim()));
    for n in 1..=(if th { 40 } else { 13 }) {
        for (k, iv) in [[0.0; 3], [0.25, 0.5, 0.0], [0.0, 1.0, 0.5]].iter().enumerate() {
            let mut a = build(&grid(4), &scattered(n, 4, 2 + k), *iv);
            a.name = NAMES[(n + k) % NAMES.len()].into();
            a.duration = [0.0001, 2.0, 1e6][k];
            v.push(Asset::A(a));
        }
    }
    for times in [2usize, 3, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300] {
        let inner = times - 2;
        let mut a = build(&grid(if inner == 0 { 3 } else { inner }), &scattered(2, inner.max(1), 1), [0.0, 0.25, 0.5]);
        if inner == 0 {
            a = build(&[0.0, 1.0], &[vec![vec![]; 3], vec![vec![]; 3], vec![vec![]; 3]], [0.5, 0.0, 0.25]);
        }
        a.name = "n".repeat(times);
        v.push(Asset::A(a));
    }
    for (_, a) in large_family(th as u8) {
        v.push(Asset::A(a));
    }
    for n in 0..=(if th { 6 } else { 4 }) {
        for (i, h) in hierarchies(n).iter().enumerate() {
            v.push(Asset::S(skel(h, i % 5)));
        }
    }
    for n in [7usize, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024] {
        v.push(Asset::S(skel(&big_hierarchy(n), n % 3)));
    }
    for kind in 0..5 {
        for n in 0..=(if th { 6 } else { 4 }) {
            for m in 0..1usize << n {
                v.push(Asset::T(trk(kind, n, m + n, (0..n).map(|i| m & (1 << i) != 0).collect())));
            }
        }
        for n in [7usize, 8, 9, 15, 16, 17, 24, 25, 255, 256, 257, 1000, 5000] {
            for p in 0..4usize {
                v.push(Asset::T(trk(kind, n, p + 1, (0..n).map(|i| match p { 0 => false, 1 => true, 2 => i % 3 == 0, _ => i + 1 == n }).collect())));
            }
        }
    }
    // Lengths beyond 8 and 16 bits.
    let lens: &[usize] = if th { &[255, 256, 1000, 1024, 4096, 32768, 65535, 65536, 70000] } else { &[256, 65536] };
    for (i, len) in lens.iter().enumerate() {
        let name: String = "\u{e8}x".chars().cycle().take(*len).collect();
        let mut a = build(&grid(3), &scattered(3, 3, 2), [0.5, 0.0, 0.25]);
        a.name = name.clone();
        v.push(Asset::A(a));
        let mut s = skel(&[-1, 0, 1, 1, 0], 0);
        s.names[i % 5] = name.clone();
        v.push(Asset::S(s));
        for kind in 0..5 {
            let mut t = trk(kind, 3, 1, vec![true, false, true]);
            t.name = name.clone();
            v.push(Asset::T(t));
        }
        if *len > 5000 {
            v.push(Asset::T(trk(i % 5, *len, 1, (0..*len).map(|i| i % 5 == 0).collect())));
        }
    }
    v
}

pub fn few() -> Vec<Asset> {
    let mut v = vec![Asset::A(empty_anim())];
    let mut a = build(&grid(3), &scattered(2, 3, 2), [0.25, 0.0, 0.5]);
    a.name = "caf\u{e9}".into();
    v.push(Asset::A(a));
    let mut a = build(&grid(255), &scattered(1, 255, 60), [0.0, 0.5, 0.0]);
    a.name = "wide".into();
    v.push(Asset::A(a));
    v.push(Asset::S(skel(&[-1, 0, 1, 1, 0], 1)));
    v.push(Asset::S(skel(&[-1], 0)));
    for kind in 0..5 {
        let mut t = trk(kind, 5, kind, vec![true, false, true, false, false]);
        t.name = "tr\u{e4}ck".into();
        v.push(Asset::T(t));
    }
    v.push(Asset::T(trk(2, 9, 1, vec![false; 9])));
    v.push(Asset::T(trk(0, 0, 1, vec![])));
    v
}

#[cfg(feature = "full")]
/// The archive of `a` with the four bytes holding the number `from` (which must be unique in it) replaced.
fn with_number(a: &Anim, big: bool, from: f32, to: u32) -> Vec<u8> {
    let enc = |b: u32| if big { b.to_be_bytes() } else { b.to_le_bytes() };
    let mut bytes = a.bytes(big);
    let pat = enc(from.to_bits());
    let at: Vec<usize> = (0..bytes.len() - 3).filter(|i| bytes[*i..*i + 4] == pat).collect();
    assert!(at.len() == 1, "{} occurs {} times", from, at.len());
    bytes[at[0]..at[0] + 4].copy_from_slice(&enc(to));
    bytes
}

#[cfg(feature = "full")]
/// Duration and seek intervals of an animation, as bits.
fn scalars(x: &Animation) -> [u32; 4] {
    [x.duration().to_bits(), x.translations_ctrl().iframe_interval.to_bits(), x.rotations_ctrl().iframe_interval.to_bits(), x.scales_ctrl().iframe_interval.to_bits()]
}

#[cfg(feature = "full")]
/// Every number an archive may hold in those fields, loaded and (finite ones) taken through every serialised form.
fn any_number(ctx: &mut Ctx, trips: bool) {
    ctx.suite("any number as duration or seek interval", |ctx| {
        const START: [f32; 4] = [2.718_281_7, 0.337_813_4, 0.211_345_7, 0.451_798_3];
        for field in 0..4 {
            for big in [false, true] {
                for hi in 0..256u32 {
                    ctx.case(
                        || format!("field {}, {} bytes first, patterns {:#04x}..", field, if big { "high" } else { "low" }, hi),
                        |st| {
                            let mut a = build(&grid(5), &scattered(3, 5, 2), [START[1], START[2], START[3]]);
                            a.duration = START[0];
                            for low in [0u32, 1, 0x0000_ff00, 0x0012_3456, 0x0040_0000, 0x007f_ffff, 0x0080_0000, 0x0080_0001, 0x00ff_ffff, 0x00c0_0001] {
                                let bits = hi << 24 | low;
                                let b = with_number(&a, big, START[field], bits);
                                let x = Animation::from_archive(&mut Archive::from_slice(&b).map_err(|e| e.to_string())?).map_err(|e| format!("number {:08x}: {:?}", bits, e))?;
                                let mut want = START.map(f32::to_bits);
                                want[field] = bits;
                                ensure!(scalars(&x) == want, "number {:08x}: loaded as {:08x?} instead of {:08x?}", bits, scalars(&x), want);
                                st.evaluations += 1;
                                if trips && f32::from_bits(bits).is_finite() {
                                    for f in 0..FORMS.len() {
                                        let y = trip(&x, f)?;
                                        ensure!(scalars(&y) == want, "{}: number {:08x} read back as {:08x?} instead of {:08x?}", FORMS[f], bits, scalars(&y), want);
                                        st.evaluations += 1;
                                    }
                                }
                            }
                            Ok(hi as u64)
                        },
                    );
                }
            }
        }
    });
}

#[cfg(feature = "full")]
pub fn c06(ctx: &mut Ctx) {
    let th = ctx.wide();
    let all = families(th);
    ctx.suite("every asset from every in-memory source", |ctx| {
        for (i, a) in all.iter().enumerate() {
            ctx.case(|| format!("asset {} {}", i, a.name()), |st| {
                st.evaluations += 27;
                check_sources(a)
            });
        }
    });
    any_number(ctx, false);
    ctx.suite("files", |ctx| {
        for (i, a) in all.iter().enumerate().filter(|(i, _)| th || i % 4 == 0) {
            ctx.case(
                || format!("asset {} {}", i, a.name()),
                |_| {
                    let dir = tmp_dir();
                    let mut h = 0;
                    for big in [false, true] {
                        let p = dir.join(format!("a{}{}.ozz", i, big));
                        std::fs::write(&p, a.bytes(big)).map_err(|e| e.to_string())?;
                        let r = (|| {
                            h ^= a.load_path(p.to_str().unwrap())?;
                            loaded(a.load(&mut Archive::from_path(&p).map_err(|e| e.to_string())?), "Archive::from_path")?;
                            let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
                            loaded(a.load(&mut Archive::from_file(f).map_err(|e| e.to_string())?), "Archive::from_file")
                        })();
                        let _ = std::fs::remove_file(&p);
                        r?;
                    }
                    let _ = std::fs::remove_dir(&dir);
                    Ok(h)
                },
            );
        }
    });
    ctx.suite("several assets in one archive", |ctx| {
        let some = few();
        let strip = |a: &Asset, big: bool| a.bytes(big)[1..].to_vec();
        for big in [false, true] {
            tuples(some.len(), if th { 3 } else { 2 }, |d| {
                ctx.case(
                    || format!("assets {:?} big endian {}", d, big),
                    |_| {
                        let mut b = vec![if big { 0u8 } else { 1 }];
                        for i in d {
                            b.extend(strip(&some[*i], big));
                        }
                        let mut ar = Archive::new(Chunked { data: &b, pos: 0, chunk: 7, interrupts: false, calls: 0 }).map_err(|e| e.to_string())?;
                        let mut h = Fnv::new();
                        for (n, i) in d.iter().enumerate() {
                            h.u64(loaded(some[*i].load(&mut ar), &format!("object {}", n))?);
                        }
                        Ok(h.get())
                    },
                );
            });
        }
    });
    ctx.suite("metadata readers", |ctx| {
        for (i, a) in all.iter().enumerate() {
            ctx.case(
                || format!("asset {} {}", i, a.name()),
                |_| {
                    for big in [false, true] {
                        let b = a.bytes(big);
                        let (tag, version) = Archive::from_slice(&b).unwrap().read_tag_version().map_err(|e| e.to_string())?;
                        let mut ar = Archive::from_slice(&b).unwrap();
                        let apart = (ar.read_tag().map_err(|e| e.to_string())?, ar.read_version().map_err(|e| e.to_string())?);
                        let end = b[1..].iter().position(|c| *c == 0).unwrap() + 1;
                        let v = u32::from_le_bytes(b[end + 1..end + 5].try_into().unwrap());
                        let v = if big { v.swap_bytes() } else { v };
                        ensure!(tag.as_bytes() == &b[1..end] && version == v, "tag {:?} and version {} instead of {:?} {}", tag, version, &b[1..end], v);
                        ensure!(apart == (tag, version), "tag and version read one by one are {:?}", apart);
                        match a {
                            Asset::A(a) => {
                                let m = Animation::read_meta(&mut Archive::from_slice(&b).unwrap()).map_err(|e| e.to_string())?;
                                let s = [a.sorted(0), a.sorted(1), a.sorted(2)];
                                ensure!(m.version == 7 && feq(m.duration, a.duration) && m.num_tracks as usize == a.num_tracks() && m.name == a.name, "header differs");
                                ensure!(m.timepoints_count as usize == a.times.len(), "time point count");
                                ensure!([m.translations_count, m.rotations_count, m.scales_count].iter().zip(&s).all(|(n, s)| *n as usize == s.keys.len()), "key counts");
                                ensure!([m.t_iframe_entries_count, m.r_iframe_entries_count, m.s_iframe_entries_count].iter().zip(&s).all(|(n, s)| *n as usize == s.entries.len()), "seek frame counts");
                                ensure!([m.t_iframe_desc_count, m.r_iframe_desc_count, m.s_iframe_desc_count].iter().zip(&s).all(|(n, s)| *n as usize == s.desc.len()), "seek frame descriptor counts");
                            }
                            Asset::S(s) => {
                                let m = Skeleton::read_meta(&mut Archive::from_slice(&b).unwrap(), true).map_err(|e| e.to_string())?;
                                ensure!(m.version == 2 && m.num_joints as usize == s.parents.len() && m.joint_parents == s.parents, "header differs");
                                for (i, n) in s.names.iter().enumerate() {
                                    ensure!(m.joint_names.get_by_left(n) == Some(&(i as i16)), "name {:?}", n);
                                }
                                let m = Skeleton::read_meta(&mut Archive::from_slice(&b).unwrap(), false).map_err(|e| e.to_string())?;
                                ensure!(m.version == 2 && m.num_joints as usize == s.parents.len(), "short header differs");
                            }
                            _ => {}
                        }
                    }
                    Ok(i as u64)
                },
            );
        }
    });
    ctx.suite("primitive values in both byte orders", |ctx| {
        for b in 0..=255u8 {
            ctx.case(
                || format!("byte {:#04x}", b),
                |_| {
                    for pos in 0..8usize {
                        let mut raw = [0x11u8, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88];
                        raw[pos] = b;
                        for big in [false, true] {
                            let mut data = vec![if big { 0u8 } else { 1 }];
                            data.extend(raw);
                            macro_rules! prim {
                                ($t:ty) => {{
                                    let n = std::mem::size_of::<$t>();
                                    let mut ar = Archive::from_slice(&data).unwrap();
                                    let got: $t = ar.read().map_err(|e| e.to_string())?;
                                    let a: [u8; std::mem::size_of::<$t>()] = raw[..n].try_into().unwrap();
                                    let want = if big { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) };
                                    ensure!(got.to_ne_bytes() == want.to_ne_bytes(), "{} read as {} expected {}", stringify!($t), got, want);
                                    let mut ar = Archive::from_slice(&data).unwrap();
                                    let v: Vec<$t> = ar.read_vec(8 / n).map_err(|e| e.to_string())?;
                                    ensure!(v.len() == 8 / n && v[0].to_ne_bytes() == want.to_ne_bytes(), "{} vector", stringify!($t));
                                    let mut ar = Archive::from_slice(&data).unwrap();
                                    let mut s = vec![want; 8 / n];
                                    ar.read_slice(&mut s).map_err(|e| e.to_string())?;
                                    for (i, c) in raw.chunks(n).enumerate() {
                                        let a: [u8; std::mem::size_of::<$t>()] = c.try_into().unwrap();
                                        let want = if big { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) };
                                        ensure!(s[i].to_ne_bytes() == want.to_ne_bytes() && v[i].to_ne_bytes() == want.to_ne_bytes(), "{} element {}", stringify!($t), i);
                                    }
                                }};
                            }
                            prim!(u8);
                            prim!(i8);
                            prim!(u16);
                            prim!(i16);
                            prim!(u32);
                            prim!(i32);
                            prim!(u64);
                            prim!(i64);
                            prim!(f32);
                            prim!(f64);
                        }
                    }
                    Ok(b as u64)
                },
            );
        }
    });
}

// ---------------------------------------------------------------------------------------------------

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
];

/// Byte offsets of the version and of every count that announces data, of the tag and of the names.
struct Layout {
    version: usize,
    counts: Vec<usize>,
    names: Vec<(usize, usize)>,
}

fn layout(a: &Asset) -> Layout {
    match a {
        Asset::A(x) => {
            let v = 1 + 14;
            // duration, num_tracks, name_len, timepoints, 3 key counts, 6 seek counts, then the name
            let base = v + 4;
            Layout { version: v, counts: (0..11).map(|i| base + 8 + i * 4).collect(), names: vec![(base + 8 + 44, x.name.len())] }
        }
        Asset::S(s) => {
            let v = 1 + 13;
            let mut names = Vec::new();
            let mut at = v + 12;
            for n in &s.names {
                names.push((at, n.len()));
                at += n.len() + 1;
            }
            Layout { version: v, counts: vec![v + 4], names }
        }
        Asset::T(t) => {
            let v = 1 + TRK_TAGS[t.kind].len() + 1;
            let n = t.ratios.len();
            let at = v + 12 + n * 4 * (1 + TRK_DIM[t.kind]) + n.div_ceil(8);
            Layout { version: v, counts: vec![v + 4, v + 8], names: vec![(at, t.name.len())] }
        }
    }
}

fn put_u32(b: &mut [u8], at: usize, v: u32, big: bool) {
    let x = if big { v.to_be_bytes() } else { v.to_le_bytes() };
    b[at..at + 4].copy_from_slice(&x);
}

fn get_u32(b: &[u8], at: usize, big: bool) -> u32 {
    let x: [u8; 4] = b[at..at + 4].try_into().unwrap();
    if big {
        u32::from_be_bytes(x)
    } else {
        u32::from_le_bytes(x)
    }
}

#[cfg(feature = "full")]
pub fn c07(ctx: &mut Ctx) {
    let th = ctx.wide();
    let mut all = few();
    if th {
        all.push(Asset::A(build(&grid(5), &scattered(33, 5, 2), [0.25, 0.5, 0.2])));
        all.push(Asset::S(skel(&big_hierarchy(70), 1)));
        all.push(Asset::T(trk(4, 40, 3, vec![true; 40])));
    }
    for big in [false, true] {
        let en = if big { "big endian" } else { "little endian" };
        ctx.suite(&format!("truncation at every byte, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                for n in 0..b.len() {
                    ctx.case(
                        || format!("{} cut at {} of {}", a.name(), n, b.len()),
                        |_| {
                            for chunk in [usize::MAX, 3] {
                                let r = a.try_load(Chunked { data: &b[..n], pos: 0, chunk, interrupts: false, calls: 0 });
                                match r {
                                    Err(OzzError::IO(io::ErrorKind::UnexpectedEof)) => {}
                                    Err(e) => return Err(format!("reported as {:?}", e)),
                                    Ok(()) => return Err("truncated archive accepted".into()),
                                }
                            }
                            Ok(n as u64)
                        },
                    );
                }
            }
        });
        ctx.suite(&format!("reader failing at every byte, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                for n in 0..b.len() {
                    for kind in KINDS {
                        ctx.case(
                            || format!("{} {:?} at {}", a.name(), kind, n),
                            |_| match a.try_load(Failing { data: &b, pos: 0, at: n, kind }) {
                                Err(OzzError::IO(k)) if k == kind => Ok(n as u64 ^ (kind as u64) << 32),
                                Err(e) => Err(format!("reported as {:?}", e)),
                                Ok(()) => Err("accepted although the reader failed".into()),
                            },
                        );
                    }
                }
            }
        });
        ctx.suite(&format!("wrong tags, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                let v = layout(a).version;
                for pos in 1..v - 1 {
                    for c in 0..=255u8 {
                        if c == b[pos] {
                            continue;
                        }
                        ctx.case(
                            || format!("{} tag byte {} = {:#04x}", a.name(), pos - 1, c),
                            |_| {
                                let mut x = b.clone();
                                x[pos] = c;
                                match a.try_load(&x[..]) {
                                    Err(OzzError::InvalidTag) => Ok(1),
                                    Err(OzzError::Utf8(_)) if c >= 0x80 => Ok(2),
                                    Err(e) => Err(format!("reported as {:?}", e)),
                                    Ok(()) => Err("wrong tag accepted".into()),
                                }
                            },
                        );
                    }
                }
                for other in &all {
                    if std::mem::discriminant(a) == std::mem::discriminant(other) {
                        match (a, other) {
                            (Asset::T(x), Asset::T(y)) if x.kind != y.kind => {}
                            _ => continue,
                        }
                    }
                    ctx.case(
                        || format!("{} loaded as {}", other.name(), a.name()),
                        |_| match a.try_load(&other.bytes(big)[..]) {
                            Err(OzzError::InvalidTag) => Ok(1),
                            Err(e) => Err(format!("reported as {:?}", e)),
                            Ok(()) => Err("wrong tag accepted".into()),
                        },
                    );
                }
            }
        });
        ctx.suite(&format!("wrong versions, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                let v = layout(a).version;
                let right = get_u32(&b, v, big);
                let mut list: Vec<u32> = (0..=64).collect();
                list.extend([right << 8, right.swap_bytes(), right | 0x10000, u32::MAX, u32::MAX - 1, 0x8000_0000, right + 256, right | 0x0100_0000]);
                for ver in list {
                    if ver == right {
                        continue;
                    }
                    ctx.case(
                        || format!("{} version {}", a.name(), ver),
                        |_| {
                            let mut x = b.clone();
                            put_u32(&mut x, v, ver, big);
                            match a.try_load(&x[..]) {
                                Err(OzzError::InvalidVersion) => Ok(1),
                                Err(e) => Err(format!("reported as {:?}", e)),
                                Ok(()) => Err("wrong version accepted".into()),
                            }
                        },
                    );
                }
            }
        });
        ctx.suite(&format!("text that is not UTF-8, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                for (at, len) in layout(a).names {
                    for pos in 0..len {
                        for c in [0x80u8, 0xbf, 0xc0, 0xc1, 0xf5, 0xff, 0xfe] {
                            let mut x = b.clone();
                            x[at + pos] = c;
                            if std::str::from_utf8(&x[at..at + len]).is_ok() {
                                continue;
                            }
                            ctx.case(
                                || format!("{} byte {} of the text at {} = {:#04x}", a.name(), pos, at, c),
                                |_| match a.try_load(&x[..]) {
                                    Err(OzzError::Utf8(n)) => {
                                        ensure!(n as usize == std::str::from_utf8(&x[at..at + len]).unwrap_err().valid_up_to(), "valid up to {}", n);
                                        Ok(n as u64)
                                    }
                                    Err(e) => Err(format!("reported as {:?}", e)),
                                    Ok(()) => Err("invalid text accepted".into()),
                                },
                            );
                        }
                    }
                }
            }
        });
        ctx.suite(&format!("counts announcing more than there is, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                if matches!(a, Asset::S(s) if s.parents.is_empty()) {
                    continue;
                }
                for (ci, at) in layout(a).counts.iter().enumerate() {
                    let right = get_u32(&b, *at, big);
                    let base = [1u32, 2, 3, 7, 8, 255, 256, 257, 65535, 65536, 1 << 20, 1 << 24, 1 << 27, 1 << 28, 1 << 29, 1 << 30, 1 << 31];
                    let mut vals: Vec<u32> = base.iter().map(|x| right.saturating_add(*x)).collect();
                    vals.extend([u32::MAX, u32::MAX - 1, u32::MAX - 6, u32::MAX - 7, i32::MAX as u32, i32::MAX as u32 - 1]);
                    for val in vals {
                        ctx.case(
                            || format!("{} count {} = {} instead of {}", a.name(), ci, val, right),
                            |_| {
                                let mut x = b.clone();
                                put_u32(&mut x, *at, val, big);
                                match a.try_load(&x[..]) {
                                    Ok(()) => Err("accepted".into()),
                                    Err(OzzError::IO(_)) | Err(OzzError::Utf8(_)) => Ok(val as u64),
                                    Err(e) => Err(format!("reported as {:?}", e)),
                                }
                            },
                        );
                    }
                }
            }
        });
        ctx.suite(&format!("any byte replaced by any value, {}", en), |ctx| {
            // No expectation on the verdict, only that there is one: an asset or an error.
            for a in &all {
                let b = a.bytes(big);
                for pos in 0..b.len() {
                    ctx.case(
                        || format!("{} byte {}", a.name(), pos),
                        |st| {
                            let mut h = Fnv::new();
                            for c in 0..=255u8 {
                                let mut x = b.clone();
                                x[pos] = c;
                                st.evaluations += 1;
                                match a.try_load(&x[..]) {
                                    Ok(()) => h.u64(1),
                                    Err(e) => h.str(&format!("{:?}", e)),
                                };
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        });
        if !ctx.deep() {
            continue;
        }
        ctx.suite(&format!("any two bytes replaced, {}", en), |ctx| {
            for a in &all {
                let b = a.bytes(big);
                if b.len() > 700 {
                    continue;
                }
                for pos in 0..b.len() {
                    ctx.case(
                        || format!("{} byte {} and every later one", a.name(), pos),
                        |st| {
                            let mut h = Fnv::new();
                            let mut x = b.clone();
                            for other in pos + 1..b.len() {
                                for (c, d) in [(0u8, 0u8), (0, 0x80), (0, 0xff), (1, 1), (0x80, 0), (0x80, 0x80), (0xff, 0), (0xff, 0xff), (2, 0)] {
                                    x[pos] = c;
                                    x[other] = d;
                                    st.evaluations += 1;
                                    h.u64(a.try_load(&x[..]).is_ok() as u64);
                                }
                                x[other] = b[other];
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        });
    }
    ctx.suite("missing files", |ctx| {
        ctx.case(
            || "missing file".into(),
            |_| {
                let d = tmp_dir();
                let p = d.join("missing.ozz");
                let p = p.to_str().unwrap();
                ensure!(matches!(Animation::from_path(p), Err(OzzError::IO(io::ErrorKind::NotFound))), "animation");
                ensure!(matches!(Skeleton::from_path(p), Err(OzzError::IO(io::ErrorKind::NotFound))), "skeleton");
                ensure!(matches!(Track::<f32>::from_path(p), Err(OzzError::IO(io::ErrorKind::NotFound))), "track");
                let _ = std::fs::remove_dir(&d);
                Ok(0)
            },
        );
        ctx.case(
            || "a directory".into(),
            |_| {
                let d = tmp_dir();
                let p = d.to_str().unwrap().to_string();
                ensure!(matches!(Animation::from_path(&p), Err(OzzError::IO(_))), "animation");
                ensure!(matches!(Skeleton::from_path(&p), Err(OzzError::IO(_))), "skeleton");
                ensure!(matches!(Track::<f32>::from_path(&p), Err(OzzError::IO(_))), "track");
                let _ = std::fs::remove_dir(&d);
                Ok(0)
            },
        );
    });
}

// ---------------------------------------------------------------------------------------------------

pub const FORMS: [&str; 9] = [
    "rkyv",
    "json text",
    "json bytes",
    "json pretty text",
    "json reader",
    "json value",
    "json reader of one byte per call",
    "bincode",
    "rkyv at another buffer",
];

/// One serialise / deserialise trip through a form.
fn trip<T>(v: &T, form: usize) -> Result<T, String>
where
    T: serde::Serialize + serde::de::DeserializeOwned + rkyv::Archive + rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<4096>>,
    T::Archived: rkyv::Deserialize<T, rkyv::Infallible>,
{
    use rkyv::Deserialize;
    let e = |e: serde_json::Error| format!("{}: {}", FORMS[form], e);
    Ok(match form {
        0 => {
            let b = to_rkyv(v);
            unsafe { rkyv::archived_root::<T>(&b) }.deserialize(&mut rkyv::Infallible).unwrap()
        }
        1 => serde_json::from_str(&serde_json::to_string(v).map_err(e)?).map_err(e)?,
        2 => serde_json::from_slice(&serde_json::to_vec(v).map_err(e)?).map_err(e)?,
        3 => serde_json::from_str(&serde_json::to_string_pretty(v).map_err(e)?).map_err(e)?,
        4 => serde_json::from_reader(io::Cursor::new(serde_json::to_vec(v).map_err(e)?)).map_err(e)?,
        5 => serde_json::from_value(serde_json::to_value(v).map_err(e)?).map_err(e)?,
        6 => {
            let b = serde_json::to_vec(v).map_err(e)?;
            serde_json::from_reader(Chunked { data: &b, pos: 0, chunk: 1, interrupts: true, calls: 0 }).map_err(e)?
        }
        7 => bincode::deserialize(&bincode::serialize(v).map_err(|e| e.to_string())?).map_err(|e| format!("bincode: {}", e))?,
        _ => {
            let b = to_rkyv(v);
            let mut c = rkyv::AlignedVec::with_capacity(b.len());
            c.extend_from_slice(&b);
            drop(b);
            unsafe { rkyv::archived_root::<T>(&c) }.deserialize(&mut rkyv::Infallible).unwrap()
        }
    })
}

fn anim_behaviour(x: &Animation) -> Result<Vec<u32>, String> {
    let mut v = Vec::new();
    let mut c = SamplingContext::new(x.num_tracks());
    for r in [0.0f32, 0.3, 0.9, 0.5, 1.0, 0.1] {
        v.extend(sample_bits(x, &mut c, r, 1)?);
    }
    Ok(v)
}

fn track_behaviour<V: Flat>(x: &Track<V>) -> Result<Vec<u32>, String> {
    let mut v = Vec::new();
    for r in [0.0f32, 0.2, 0.25, 0.61, 1.0, 2.0, -1.0] {
        let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
        j.set_track(x);
        j.set_ratio(r);
        j.run().map_err(|e| e.to_string())?;
        v.extend(j.result().flat().iter().map(|f| f.to_bits()));
    }
    Ok(v)
}

fn track_trips<V>(t: &Trk, st: &mut Stats) -> Result<u64, String>
where
    V: Flat + serde::Serialize + serde::de::DeserializeOwned,
    Track<V>: serde::Serialize + serde::de::DeserializeOwned + rkyv::Archive + rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<4096>>,
    <Track<V> as rkyv::Archive>::Archived: rkyv::Deserialize<Track<V>, rkyv::Infallible>,
{
    let x: Track<V> = load_track(t);
    let want = track_behaviour(&x)?;
    let mut h = 0;
    for f in 0..FORMS.len() {
        let y = trip(&x, f)?;
        h = check_track(t, &y).map_err(|e| format!("{}: {}", FORMS[f], e))?;
        ensure!(track_behaviour(&y)? == want, "{}: behaves differently", FORMS[f]);
        let z = trip(&y, (f + 1) % FORMS.len())?;
        check_track(t, &z).map_err(|e| format!("{} twice: {}", FORMS[f], e))?;
        st.evaluations += 2;
    }
    Ok(h)
}

#[cfg(feature = "full")]
pub fn c08(ctx: &mut Ctx) {
    let th = ctx.wide();
    let all = families(th);
    ctx.suite("round trips", |ctx| {
        for (i, a) in all.iter().enumerate() {
            ctx.case(
                || format!("asset {} {}", i, a.name()),
                |st| match a {
                    Asset::A(a) => {
                        let x = load_anim(a);
                        let want = anim_behaviour(&x)?;
                        let mut h = 0;
                        for f in 0..FORMS.len() {
                            let y = trip(&x, f)?;
                            h = check_anim(a, &y).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                            ensure!(anim_behaviour(&y)? == want, "{}: samples differently", FORMS[f]);
                            let z = trip(&y, (f + 1) % FORMS.len())?;
                            check_anim(a, &z).map_err(|e| format!("{} twice: {}", FORMS[f], e))?;
                            ensure!(anim_behaviour(&z)? == want, "{} twice: samples differently", FORMS[f]);
                            st.evaluations += 2;
                        }
                        check_anim(a, &x).map_err(|e| format!("the original changed: {}", e))?;
                        Ok(h)
                    }
                    Asset::S(s) => {
                        let x = load_skel(s);
                        let mut h = 0;
                        for f in 0..FORMS.len() {
                            let y = trip(&x, f)?;
                            h = check_skel(s, &y).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                            crate::p_skeleton::check_queries(s, &y).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                            let z = trip(&y, (f + 1) % FORMS.len())?;
                            check_skel(s, &z).map_err(|e| format!("{} twice: {}", FORMS[f], e))?;
                            st.evaluations += 2;
                        }
                        check_skel(s, &x).map_err(|e| format!("the original changed: {}", e))?;
                        Ok(h)
                    }
                    Asset::T(t) => match t.kind {
                        0 => track_trips::<f32>(t, st),
                        1 => track_trips::<Vec2>(t, st),
                        2 => track_trips::<Vec3>(t, st),
                        3 => track_trips::<Vec4>(t, st),
                        _ => track_trips::<Quat>(t, st),
                    },
                },
            );
        }
    });
    any_number(ctx, true);
    ctx.suite("every value survives", |ctx| {
        // Key values, times and rest poses over the bit patterns of finite numbers.
        for hi in 0..256u32 {
            ctx.case(
                || format!("patterns {:#04x}..", hi),
                |st| {
                    let mut h = 0;
                    // Track values: a spread of float bit patterns with this top byte.
                    let vals: Vec<f32> = (0..64u32)
                        .map(|k| f32::from_bits(hi << 24 | (k * 0x0004_1041) & 0x00ff_ffff))
                        .filter(|f| f.is_finite())
                        .collect();
                    if !vals.is_empty() {
                        let n = vals.len();
                        let t = Trk {
                            kind: 0,
                            name: "v".into(),
                            ratios: (0..n).map(|i| if n == 1 { 0.0 } else { i as f32 / (n - 1) as f32 }).collect(),
                            values: vals.iter().map(|v| vec![*v]).collect(),
                            steps: (0..n).map(|i| (i as u32 + hi) % 3 == 0).collect(),
                        };
                        let x: Track<f32> = load_track(&t);
                        for f in 0..FORMS.len() {
                            h ^= check_track(&t, &trip(&x, f)?).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                            st.evaluations += 1;
                        }
                        // Rest poses.
                        let mut s = skel(&[-1, 0, 1], 0);
                        for (i, x) in s.rest.iter_mut().enumerate() {
                            x.t = std::array::from_fn(|k| vals[(i * 3 + k) % n]);
                            x.s = std::array::from_fn(|k| vals[(i * 5 + k + 7) % n]);
                        }
                        let x = load_skel(&s);
                        for f in 0..FORMS.len() {
                            h ^= check_skel(&s, &trip(&x, f)?).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                            st.evaluations += 1;
                        }
                    }
                    // Animation keys: any 16-bit word.
                    let mut a = build(&grid(3), &scattered(3, 3, 1), [0.5, 0.0, 0.25]);
                    let mut w = hi << 8;
                    for c in a.chans.iter_mut() {
                        for t in c.iter_mut() {
                            for k in t.iter_mut() {
                                for v in k.v.iter_mut() {
                                    *v = (w & 0xffff) as u16;
                                    w = w.wrapping_add(0x0107);
                                }
                            }
                        }
                    }
                    let x = load_anim(&a);
                    for f in 0..FORMS.len() {
                        h ^= check_anim(&a, &trip(&x, f)?).map_err(|e| format!("{}: {}", FORMS[f], e))?;
                        st.evaluations += 1;
                    }
                    Ok(h)
                },
            );
        }
    });
}
