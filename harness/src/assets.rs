//! Independent writer and reference model of the ozz binary assets.
//!
//! Nothing here uses the library's code: assets are described as plain keyframes, written in the published
//! archive layout, and the reference evaluation interpolates those plain keyframes directly.

pub const T: usize = 0;
pub const R: usize = 1;
pub const S: usize = 2;

/// A key: index in the time table and the three compressed components.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Key {
    pub at: usize,
    pub v: [u16; 3],
}

#[derive(Clone, Debug)]
pub struct Anim {
    pub duration: f32,
    pub name: String,
    pub times: Vec<f32>,
    /// chans[T|R|S][track] = keys in time order; first at time 0, last at time 1, at least two.
    pub chans: [Vec<Vec<Key>>; 3],
    /// Seek frame interval per channel, 0 = none.
    pub interval: [f32; 3],
}

pub fn half(f: f32) -> u16 {
    // Round to nearest even, finite values only.
    let b = f.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let a = f.abs() as f64;
    if a == 0.0 {
        return s;
    }
    let mut best = 0u16;
    let mut bd = f64::MAX;
    // binary search over the monotonic positive halves
    let (mut lo, mut hi) = (0u16, 0x7bffu16);
    while lo <= hi {
        let m = (lo + hi) / 2;
        let v = half_value(m);
        let d = (v - a).abs();
        if d < bd {
            bd = d;
            best = m;
        }
        if v < a {
            lo = m + 1;
        } else if m == 0 {
            break;
        } else {
            hi = m - 1;
        }
    }
    s | best
}

/// Value of a half float bit pattern (IEEE 754 binary16).
pub fn half_value(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as f64;
    if e == 31 {
        return if m == 0.0 { s * f64::INFINITY } else { f64::NAN };
    }
    if e == 0 {
        s * m * 2f64.powi(-24)
    } else {
        s * (1.0 + m / 1024.0) * 2f64.powi(e - 15)
    }
}

/// Packs a "smallest three" rotation: index of the largest component, its sign, the three others.
pub fn quat_key(largest: u16, negative: bool, v: [u16; 3]) -> [u16; 3] {
    let v0 = (v[0] & 0x7fff) as u64;
    let v1 = (v[1] & 0x7fff) as u64;
    let v2 = (v[2] & 0x7fff) as u64;
    let bits = (largest as u64 & 3) | ((negative as u64) << 2) | (v0 << 3) | (v1 << 18) | (v2 << 33);
    [bits as u16, (bits >> 16) as u16, (bits >> 32) as u16]
}

pub fn quat_fields(k: [u16; 3]) -> (usize, bool, [u16; 3]) {
    let bits = k[0] as u64 | (k[1] as u64) << 16 | (k[2] as u64) << 32;
    (
        (bits & 3) as usize,
        bits & 4 != 0,
        [((bits >> 3) & 0x7fff) as u16, ((bits >> 18) & 0x7fff) as u16, ((bits >> 33) & 0x7fff) as u16],
    )
}

pub fn quat_value(k: [u16; 3]) -> [f64; 4] {
    let (largest, neg, v) = quat_fields(k);
    let s2 = 2f64.sqrt();
    let mut q = [0.0; 4];
    let mut n = 0;
    let mut dot = 0.0;
    for (i, c) in q.iter_mut().enumerate() {
        if i != largest {
            *c = v[n] as f64 / 32767.0 * s2 - s2 / 2.0;
            dot += *c * *c;
            n += 1;
        }
    }
    let w = (1.0 - dot).max(0.0).sqrt();
    q[largest] = if neg { -w } else { w };
    q
}

/// Encodes a unit quaternion (x, y, z, w).
pub fn encode_quat(q: [f64; 4]) -> [u16; 3] {
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let q = [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
    let mut l = 0;
    for i in 1..4 {
        if q[i].abs() > q[l].abs() {
            l = i;
        }
    }
    let s2 = 2f64.sqrt();
    let mut v = [0u16; 3];
    let mut n = 0;
    for (i, c) in q.iter().enumerate() {
        if i != l {
            v[n] = ((c + s2 / 2.0) / s2 * 32767.0).round().clamp(0.0, 32767.0) as u16;
            n += 1;
        }
    }
    quat_key(l as u16, q[l] < 0.0, v)
}

#[derive(Clone, Debug, Default)]
pub struct Sorted {
    pub ratios: Vec<usize>,
    pub previouses: Vec<u16>,
    pub keys: Vec<[u16; 3]>,
    pub entries: Vec<u8>,
    pub desc: Vec<u32>,
}

impl Anim {
    pub fn num_tracks(&self) -> usize {
        self.chans[0].len()
    }

    pub fn soa(&self) -> usize {
        self.num_tracks().div_ceil(4)
    }

    fn padded(&self, c: usize) -> Vec<Vec<Key>> {
        let mut tracks = self.chans[c].clone();
        let last = self.times.len().saturating_sub(1);
        let v = match c {
            T => [0, 0, 0],
            R => encode_quat([0.0, 0.0, 0.0, 1.0]),
            _ => [half(1.0); 3],
        };
        while tracks.len() % 4 != 0 {
            tracks.push(vec![Key { at: 0, v }, Key { at: last, v }]);
        }
        tracks
    }

    /// Key stream order: by time of the previous key of the same track, then by track.
    pub fn sorted(&self, c: usize) -> Sorted {
        let tracks = self.padded(c);
        let n = tracks.len();
        let mut order: Vec<(f32, usize, usize)> = Vec::new();
        for (t, keys) in tracks.iter().enumerate() {
            for i in 0..keys.len() {
                let prev = if i == 0 { -1.0 } else { self.times[keys[i - 1].at] };
                order.push((prev, t, i));
            }
        }
        order.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
        let mut s = Sorted::default();
        let mut last_pos = vec![0usize; n];
        for (pos, (_, t, i)) in order.iter().enumerate() {
            let k = tracks[*t][*i];
            s.ratios.push(k.at);
            s.keys.push(k.v);
            s.previouses.push(if *i == 0 { 0 } else { (pos - last_pos[*t]) as u16 });
            last_pos[*t] = pos;
        }
        if self.interval[c] > 0.0 && n > 0 {
            let count = (1.0 / self.interval[c]).round().max(1.0) as usize;
            for f in 1..=count {
                let ratio = self.interval[c] * f as f32;
                let mut cur = vec![0u32; n];
                let mut last = 0;
                for (pos, (prev, t, _)) in order.iter().enumerate() {
                    if *prev > ratio {
                        break;
                    }
                    cur[*t] = pos as u32;
                    last = pos;
                }
                s.desc.push(s.entries.len() as u32);
                s.desc.push(last as u32);
                for g in cur.chunks(4) {
                    let mut prefix = 0u8;
                    let mut bytes = Vec::new();
                    for (i, v) in g.iter().enumerate() {
                        let len = if *v < 1 << 8 {
                            1
                        } else if *v < 1 << 16 {
                            2
                        } else if *v < 1 << 24 {
                            3
                        } else {
                            4
                        };
                        prefix |= ((len - 1) as u8) << (2 * i);
                        bytes.extend_from_slice(&v.to_le_bytes()[..len]);
                    }
                    s.entries.push(prefix);
                    s.entries.extend(bytes);
                }
            }
        }
        s
    }

    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        w.str("ozz-animation");
        w.u32(7);
        w.f32(self.duration);
        w.u32(self.num_tracks() as u32);
        w.u32(self.name.len() as u32);
        w.u32(self.times.len() as u32);
        let s = [self.sorted(0), self.sorted(1), self.sorted(2)];
        for x in &s {
            w.u32(x.keys.len() as u32);
        }
        for x in &s {
            w.u32(x.entries.len() as u32);
            w.u32(x.desc.len() as u32);
        }
        w.raw(self.name.as_bytes());
        for t in &self.times {
            w.f32(*t);
        }
        let narrow = self.times.len() <= 255;
        for (c, x) in s.iter().enumerate() {
            for r in &x.ratios {
                if narrow {
                    w.u8(*r as u8)
                } else {
                    w.u16(*r as u16)
                }
            }
            for p in &x.previouses {
                w.u16(*p);
            }
            w.raw(&x.entries);
            for d in &x.desc {
                w.u32(*d);
            }
            w.f32(if self.interval[c] > 0.0 { self.interval[c] } else { 1.0 });
            for k in &x.keys {
                for v in k {
                    w.u16(*v);
                }
            }
        }
        w.buf
    }

    /// Reference value of a track/channel at a ratio: brackets and interpolates plain keys in f64.
    pub fn value(&self, c: usize, track: usize, ratio: f32) -> [f64; 4] {
        let r = if ratio.is_nan() { 1.0 } else { ratio.clamp(0.0, 1.0) };
        let keys = &self.chans[c][track];
        let mut i = 0;
        for k in 0..keys.len() - 1 {
            if self.times[keys[k].at] <= r {
                i = k;
            }
        }
        let (a, b) = (keys[i], keys[i + 1]);
        let (ta, tb) = (self.times[a.at] as f64, self.times[b.at] as f64);
        let f = (r as f64 - ta) / (tb - ta);
        let dec = |k: Key| -> [f64; 4] {
            if c == R {
                quat_value(k.v)
            } else {
                [half_value(k.v[0]), half_value(k.v[1]), half_value(k.v[2]), 0.0]
            }
        };
        let (va, vb) = (dec(a), dec(b));
        let mut o = [0.0; 4];
        for j in 0..4 {
            o[j] = va[j] + (vb[j] - va[j]) * f;
        }
        if c == R {
            let n = o.iter().map(|x| x * x).sum::<f64>().sqrt();
            for x in o.iter_mut() {
                *x /= n;
            }
        }
        o
    }
}

/// Byte writer in either byte order. The first byte of an archive is the byte-order tag.
pub struct W {
    pub buf: Vec<u8>,
    big: bool,
}

impl W {
    pub fn new(big: bool) -> W {
        W { buf: vec![if big { 0 } else { 1 }], big }
    }
    pub fn raw(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    pub fn u8(&mut self, v: u8) {
        self.buf.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        let b = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.raw(&b);
    }
    pub fn u32(&mut self, v: u32) {
        let b = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.raw(&b);
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
    pub fn str(&mut self, s: &str) {
        self.raw(s.as_bytes());
        self.u8(0);
    }
}

// ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Xf {
    pub t: [f32; 3],
    pub r: [f32; 4],
    pub s: [f32; 3],
}

pub const XF_ID: Xf = Xf { t: [0.0; 3], r: [0.0, 0.0, 0.0, 1.0], s: [1.0; 3] };

#[derive(Clone, Debug)]
pub struct Skel {
    pub names: Vec<String>,
    pub parents: Vec<i16>,
    pub rest: Vec<Xf>,
}

impl Skel {
    pub fn of(parents: &[i16]) -> Skel {
        Skel {
            names: (0..parents.len()).map(|i| format!("joint_{}", i)).collect(),
            parents: parents.to_vec(),
            rest: vec![XF_ID; parents.len()],
        }
    }

    pub fn soa(&self) -> usize {
        self.parents.len().div_ceil(4)
    }

    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        w.str("ozz-skeleton");
        w.u32(2);
        w.u32(self.parents.len() as u32);
        if self.parents.is_empty() {
            return w.buf;
        }
        w.u32(self.names.iter().map(|n| n.len() as u32 + 1).sum());
        for n in &self.names {
            w.str(n);
        }
        for p in &self.parents {
            w.u16(*p as u16);
        }
        for g in 0..self.soa() {
            let at = |l: usize| self.rest.get(g * 4 + l).copied().unwrap_or(XF_ID);
            for c in 0..3 {
                for l in 0..4 {
                    w.f32(at(l).t[c]);
                }
            }
            for c in 0..4 {
                for l in 0..4 {
                    w.f32(at(l).r[c]);
                }
            }
            for c in 0..3 {
                for l in 0..4 {
                    w.f32(at(l).s[c]);
                }
            }
        }
        w.buf
    }
}

/// All parent arrays of forests over `n` joints in depth-first order.
pub fn hierarchies(n: usize) -> Vec<Vec<i16>> {
    let mut out = Vec::new();
    fn rec(cur: &mut Vec<i16>, n: usize, out: &mut Vec<Vec<i16>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        // Depth-first order: the next joint's parent is -1 or an ancestor-or-self of the previous joint.
        let mut p = cur.len() as i16 - 1;
        loop {
            cur.push(p);
            rec(cur, n, out);
            cur.pop();
            if p < 0 {
                break;
            }
            p = cur[p as usize];
        }
    }
    rec(&mut Vec::new(), n, &mut out);
    out
}

// ---------------------------------------------------------------------------------------------------

/// A user-channel track with values of `dim` components (quaternions are dim 4 with `quat`).
#[derive(Clone, Debug)]
pub struct Trk {
    pub kind: usize, // 0 f32, 1 Vec2, 2 Vec3, 3 Vec4, 4 Quat
    pub name: String,
    pub ratios: Vec<f32>,
    pub values: Vec<Vec<f32>>,
    pub steps: Vec<bool>,
}

pub const TRK_TAGS: [&str; 5] =
    ["ozz-float_track", "ozz-float2_track", "ozz-float3_track", "ozz-float4_track", "ozz-quat_track"];
pub const TRK_DIM: [usize; 5] = [1, 2, 3, 4, 4];

impl Trk {
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        w.str(TRK_TAGS[self.kind]);
        w.u32(1);
        w.u32(self.ratios.len() as u32);
        w.u32(self.name.len() as u32);
        for r in &self.ratios {
            w.f32(*r);
        }
        for v in &self.values {
            for c in v {
                w.f32(*c);
            }
        }
        w.raw(&self.step_bytes());
        w.raw(self.name.as_bytes());
        w.buf
    }

    pub fn step_bytes(&self) -> Vec<u8> {
        let mut steps = vec![0u8; self.ratios.len().div_ceil(8)];
        for (i, s) in self.steps.iter().enumerate() {
            if *s {
                steps[i / 8] |= 1 << (i % 8);
            }
        }
        steps
    }

    /// Reference value (f64), well-formed tracks only (first ratio 0 or single key).
    pub fn value(&self, ratio: f32) -> Vec<f64> {
        let dim = TRK_DIM[self.kind];
        let n = self.ratios.len();
        let up = |v: &Vec<f32>| v.iter().map(|x| *x as f64).collect::<Vec<f64>>();
        if n == 0 {
            let mut z = vec![0.0; dim];
            if self.kind == 4 {
                z[3] = 1.0;
            }
            return z;
        }
        let r = ratio.clamp(0.0, 1.0);
        let mut i = 0;
        for k in 0..n {
            if self.ratios[k] <= r {
                i = k;
            }
        }
        if i == n - 1 || self.steps[i] {
            return up(&self.values[i]);
        }
        let f = (r as f64 - self.ratios[i] as f64) / (self.ratios[i + 1] as f64 - self.ratios[i] as f64);
        let (a, b) = (up(&self.values[i]), up(&self.values[i + 1]));
        let mut o: Vec<f64> = (0..dim).map(|j| a[j] + (b[j] - a[j]) * f).collect();
        if self.kind == 4 {
            let mut bb = b.clone();
            let dot: f64 = (0..4).map(|j| a[j] * b[j]).sum();
            if dot < 0.0 {
                for x in bb.iter_mut() {
                    *x = -*x;
                }
            }
            o = (0..4).map(|j| a[j] + (bb[j] - a[j]) * f).collect();
            let l = o.iter().map(|x| x * x).sum::<f64>().sqrt();
            for x in o.iter_mut() {
                *x /= l;
            }
        }
        o
    }
}
