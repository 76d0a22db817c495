//! C26: serialised documents that are cut short, incomplete or whose parts do not fit.

use crate::assets::*;
use crate::core::*;
use crate::p_assets::*;
use crate::p_sampling::*;
use crate::util::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

#[derive(Clone)]
enum Doc {
    A(Anim),
    S(Skel),
    T(Trk),
    /// Animation, capacity, ratios played before.
    C(Anim, usize, Vec<f32>),
}

fn text<T: Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap()
}

impl Doc {
    fn name(&self) -> String {
        match self {
            Doc::A(a) => format!("animation of {} tracks, {} times", a.num_tracks(), a.times.len()),
            Doc::S(s) => format!("skeleton of {} joints", s.parents.len()),
            Doc::T(t) => format!("{} of {} keys", TRK_TAGS[t.kind], t.ratios.len()),
            Doc::C(a, cap, rs) => format!("context for {} tracks after sampling {} tracks at {:?}", cap, a.num_tracks(), rs),
        }
    }

    fn json(&self) -> String {
        match self {
            Doc::A(a) => text(&load_anim(a)),
            Doc::S(s) => text(&load_skel(s)),
            Doc::T(t) => match t.kind {
                0 => text(&load_track::<f32>(t)),
                1 => text(&load_track::<Vec2>(t)),
                2 => text(&load_track::<Vec3>(t)),
                3 => text(&load_track::<Vec4>(t)),
                _ => text(&load_track::<Quat>(t)),
            },
            Doc::C(a, cap, rs) => {
                let x = load_anim(a);
                let mut c = SamplingContext::new(*cap);
                for r in rs {
                    sample_bits(&x, &mut c, *r, 0).unwrap();
                }
                text(&c)
            }
        }
    }

    fn bincode(&self) -> Option<Vec<u8>> {
        let e = "bincode";
        Some(match self {
            Doc::A(a) => bincode::serialize(&load_anim(a)).expect(e),
            Doc::S(s) => bincode::serialize(&load_skel(s)).expect(e),
            Doc::T(t) => match t.kind {
                0 => bincode::serialize(&load_track::<f32>(t)).expect(e),
                1 => bincode::serialize(&load_track::<Vec2>(t)).expect(e),
                2 => bincode::serialize(&load_track::<Vec3>(t)).expect(e),
                3 => bincode::serialize(&load_track::<Vec4>(t)).expect(e),
                _ => bincode::serialize(&load_track::<Quat>(t)).expect(e),
            },
            // Contexts are written as maps of unknown length, which this format does not have.
            Doc::C(..) => return None,
        })
    }

    /// Reads JSON text and gives back what the accepted object serialises to.
    fn read(&self, s: &str) -> Result<Value, String> {
        fn r<T: DeserializeOwned + Serialize>(s: &str) -> Result<Value, String> {
            let x: T = serde_json::from_str(s).map_err(|e| e.to_string())?;
            Ok(serde_json::to_value(&x).unwrap())
        }
        match self {
            Doc::A(_) => r::<Animation>(s),
            Doc::S(_) => r::<Skeleton>(s),
            Doc::T(t) => match t.kind {
                0 => r::<Track<f32>>(s),
                1 => r::<Track<Vec2>>(s),
                2 => r::<Track<Vec3>>(s),
                3 => r::<Track<Vec4>>(s),
                _ => r::<Track<Quat>>(s),
            },
            Doc::C(..) => r::<SamplingContext>(s),
        }
    }

    fn read_bincode(&self, b: &[u8]) -> Result<Vec<u8>, String> {
        fn r<T: DeserializeOwned + Serialize>(b: &[u8]) -> Result<Vec<u8>, String> {
            let x: T = bincode::deserialize(b).map_err(|e| e.to_string())?;
            Ok(bincode::serialize(&x).unwrap())
        }
        match self {
            Doc::A(_) => r::<Animation>(b),
            Doc::S(_) => r::<Skeleton>(b),
            Doc::T(t) => match t.kind {
                0 => r::<Track<f32>>(b),
                1 => r::<Track<Vec2>>(b),
                2 => r::<Track<Vec3>>(b),
                3 => r::<Track<Vec4>>(b),
                _ => r::<Track<Quat>>(b),
            },
            Doc::C(..) => unreachable!(),
        }
    }

    /// Whether the list lengths of the document fit together.
    fn fits(&self, v: &Value) -> bool {
        let len = |k: &str| v[k].as_array().map(|a| a.len());
        match self {
            Doc::A(_) => ["t", "r", "s"].iter().zip(["translations", "rotations", "scales"]).all(|(p, k)| {
                len(k) == len(&format!("{p}_ratios")) && len(k) == len(&format!("{p}_previouses"))
            }),
            Doc::S(_) => len("joint_rest_poses") == len("joint_parents").map(|n| n.div_ceil(4)),
            Doc::T(_) => {
                let n = v["key_count"].as_u64().map(|n| n as usize);
                n == len("ratios") && n == len("values") && n.map(|n| n.div_ceil(8)) == len("steps")
            }
            Doc::C(..) => {
                let Some(n) = v["max_tracks"].as_u64() else { return false };
                if n > 1 << 40 {
                    return false;
                }
                let soa = n.div_ceil(4) as usize;
                ["translation", "rotation", "scale"].iter().all(|c| {
                    len(&format!("{c}s")) == Some(soa) && len(&format!("{c}_entries")) == Some(soa * 4) && len(&format!("{c}_outdated")) == Some(soa.div_ceil(8))
                })
            }
        }
    }

    /// Fields that repeat what the others say.
    fn redundant(&self) -> &'static [&'static str] {
        match self {
            Doc::C(..) => &["size", "max_soa_tracks", "max_outdated"],
            _ => &[],
        }
    }

    fn docs(level: u8) -> Vec<Doc> {
        let mut v: Vec<Doc> = few()
            .into_iter()
            .map(|a| match a {
                Asset::A(a) => Doc::A(a),
                Asset::S(s) => Doc::S(s),
                Asset::T(t) => Doc::T(t),
            })
            .filter(|d| level >= 2 || !matches!(d, Doc::A(a) if a.times.len() > 100))
            .collect();
        v.push(Doc::S(skel(&[], 0)));
        let a = build(&grid(5), &scattered(6, 5, 2), [0.25, 0.5, 0.0]);
        v.push(Doc::C(a.clone(), 6, vec![]));
        v.push(Doc::C(a.clone(), 6, vec![0.7, 0.2]));
        v.push(Doc::C(a, 12, vec![0.4]));
        v.push(Doc::C(empty_anim(), 0, vec![]));
        if level >= 1 {
            v.push(Doc::A(build(&grid(9), &scattered(9, 9, 3), [0.3, 0.0, 0.6])));
            v.push(Doc::S(skel(&[-1, 0, 1, 1, 0, 4, 4, 4, -1], 1)));
            v.push(Doc::T(trk(4, 17, 2, (0..17).map(|i| i % 3 == 0).collect())));
            v.push(Doc::C(build(&grid(3), &scattered(33, 3, 1), [0.0, 0.5, 0.0]), 40, vec![0.9, 0.3]));
        }
        v
    }
}

/// Same document up to the precision of single floats.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || (x.is_f64() || y.is_f64()) && (x.as_f64().unwrap() as f32).to_bits() == (y.as_f64().unwrap() as f32).to_bits() || x.as_f64() == Some(0.0) && y.as_f64() == Some(0.0)
        }
        // Numbers beyond single precision become infinite, which this format writes as null.
        (Value::Null, Value::Number(x)) | (Value::Number(x), Value::Null) => !(x.as_f64().unwrap() as f32).is_finite(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same(a, b))),
        _ => a == b,
    }
}

/// Every place in a document, as a path of steps.
#[derive(Clone, Debug)]
enum Step {
    K(String),
    I(usize),
}

fn paths(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Array(x) => {
            for (i, w) in x.iter().enumerate() {
                at.push(Step::I(i));
                paths(w, at, out);
                at.pop();
            }
        }
        Value::Object(x) => {
            for (k, w) in x {
                at.push(Step::K(k.clone()));
                paths(w, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn place<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::K(k) => &mut v[k.as_str()],
        Step::I(i) => &mut v[*i],
    })
}

fn remove(v: &mut Value, p: &[Step]) {
    let (last, up) = p.split_last().unwrap();
    match (place(v, up), last) {
        (Value::Object(x), Step::K(k)) => {
            x.remove(k);
        }
        (Value::Array(x), Step::I(i)) => {
            x.remove(*i);
        }
        _ => unreachable!(),
    }
}

/// Refused, or accepted with parts that fit and reproduced as they were written.
fn verdict(d: &Doc, v: &Value, must_refuse: bool) -> Result<u64, String> {
    let shown = |v: &Value| {
        let mut s = v.to_string();
        if s.len() > 200 {
            s.truncate((0..=200).rev().find(|i| s.is_char_boundary(*i)).unwrap());
        }
        s
    };
    match d.read(&v.to_string()) {
        Err(_) => {
            ensure!(must_refuse || !d.fits(v), "a document whose parts fit is refused: {}", shown(v));
            Ok(0)
        }
        Ok(back) => {
            ensure!(!must_refuse, "accepted: {}", shown(v));
            ensure!(d.fits(v), "a document whose parts do not fit is accepted: {}", shown(v));
            let mut want = v.clone();
            let mut got = back;
            if matches!(d, Doc::C(..)) {
                for k in d.redundant().iter().chain(&["max_tracks"]) {
                    want[*k] = Value::Null;
                    got[*k] = Value::Null;
                }
            }
            if matches!(d, Doc::S(_)) {
                got["joint_names"] = Value::Null;
                want["joint_names"] = Value::Null;
            }
            ensure!(same(&got, &want), "accepted but changed: {} became {}", shown(&want), shown(&got));
            Ok(1)
        }
    }
}

pub fn c26(ctx: &mut Ctx) {
    let docs = Doc::docs(ctx.level);
    ctx.suite("documents as written", |ctx| {
        for d in &docs {
            ctx.case(|| d.name(), |_| verdict(d, &serde_json::from_str(&d.json()).unwrap(), false));
        }
    });
    ctx.suite("text cut at every byte", |ctx| {
        for d in &docs {
            let s = d.json();
            for n in (0..s.len()).filter(|n| s.is_char_boundary(*n)) {
                ctx.case(
                    || format!("{} cut at {} of {}", d.name(), n, s.len()),
                    |_| match d.read(&s[..n]) {
                        Err(_) => Ok(n as u64),
                        Ok(_) => Err("accepted".into()),
                    },
                );
            }
        }
    });
    ctx.suite("missing fields", |ctx| {
        for d in &docs {
            let v: Value = serde_json::from_str(&d.json()).unwrap();
            for k in v.as_object().unwrap().keys() {
                ctx.case(
                    || format!("{} without {}", d.name(), k),
                    |_| {
                        let mut x = v.clone();
                        x.as_object_mut().unwrap().remove(k);
                        if d.redundant().contains(&k.as_str()) {
                            return d.read(&x.to_string()).map(|_| 1).or(Ok(0));
                        }
                        verdict(d, &x, true)
                    },
                );
            }
        }
    });
    ctx.suite("lists of other lengths", |ctx| {
        for d in &docs {
            let v: Value = serde_json::from_str(&d.json()).unwrap();
            let lists: Vec<String> = v.as_object().unwrap().iter().filter(|(_, x)| x.is_array()).map(|(k, _)| k.clone()).collect();
            // One list, and every pair of lists, made shorter, longer or empty.
            for (i, k) in lists.iter().enumerate() {
                for l in &lists[..=i] {
                    ctx.case(
                        || format!("{} with other lengths of {} and {}", d.name(), k, l),
                        |st| {
                            let mut h = Fnv::new();
                            let n = v[k].as_array().unwrap().len();
                            let m = v[l].as_array().unwrap().len();
                            let sizes = |n: usize| vec![0, 1, n / 2, n.saturating_sub(4), n.saturating_sub(1), n, n + 1, n + 4, n + 8, 2 * n + 1];
                            for a in sizes(n) {
                                for b in if k == l { vec![m] } else { sizes(m) } {
                                    let mut x = v.clone();
                                    for (key, to) in [(l, b), (k, a)] {
                                        let list = x[key].as_array_mut().unwrap();
                                        if list.is_empty() && to > 0 {
                                            continue; // nothing to repeat
                                        }
                                        let first = list.first().cloned();
                                        while list.len() < to {
                                            list.push(first.clone().unwrap());
                                        }
                                        list.truncate(to);
                                    }
                                    st.evaluations += 1;
                                    h.u64(verdict(d, &x, false)?);
                                }
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        }
    });
    ctx.suite("announced sizes", |ctx| {
        for d in &docs {
            let v: Value = serde_json::from_str(&d.json()).unwrap();
            let k = match d {
                Doc::T(_) => "key_count",
                Doc::C(..) => "max_tracks",
                _ => continue,
            };
            let right = v[k].as_u64().unwrap();
            let mut sizes: Vec<u64> = (0..80).collect();
            for b in 6..64 {
                sizes.extend([(1u64 << b) - 1, 1 << b, (1 << b) + right, (1 << b) + 1]);
            }
            sizes.extend([u64::MAX, u64::MAX - 1, u64::MAX - 3]);
            for n in sizes {
                ctx.case(
                    || format!("{} announcing {}", d.name(), n),
                    |_| {
                        let mut x = v.clone();
                        x[k] = Value::from(n);
                        verdict(d, &x, false)
                    },
                );
            }
        }
    });
    ctx.suite("every part removed, doubled or replaced", |ctx| {
        for d in &docs {
            let v: Value = serde_json::from_str(&d.json()).unwrap();
            let mut all = vec![];
            paths(&v, &mut vec![], &mut all);
            for p in &all {
                // Names are a map of their own: no expectation about its entries except that reading ends.
                let names = matches!(d, Doc::S(_)) && matches!(p.first(), Some(Step::K(k)) if k == "joint_names");
                ctx.case(
                    || format!("{} at {:?}", d.name(), p),
                    |st| {
                        let mut h = Fnv::new();
                        let others = [Value::Null, Value::Bool(true), Value::from("x"), Value::from(1), Value::from(-1), Value::from(0.5), Value::from(1e300), Value::from(u64::MAX), Value::Array(vec![]), serde_json::json!({}), serde_json::json!([1]), serde_json::json!([[1.0]])];
                        let mut forms = vec![];
                        for o in others {
                            let mut x = v.clone();
                            *place(&mut x, p) = o;
                            forms.push(x);
                        }
                        if !p.is_empty() {
                            let mut x = v.clone();
                            remove(&mut x, p);
                            forms.push(x);
                            if let Some((Step::I(i), up)) = p.split_last() {
                                let mut x = v.clone();
                                let list = place(&mut x, up).as_array_mut().unwrap();
                                let e = list[*i].clone();
                                list.insert(*i, e);
                                forms.push(x);
                            }
                        }
                        for x in forms {
                            st.evaluations += 1;
                            let redundant = matches!(p.first(), Some(Step::K(k)) if d.redundant().contains(&k.as_str()));
                            match d.read(&x.to_string()) {
                                Err(_) => {
                                    h.u64(0);
                                }
                                Ok(_) if names || redundant => {
                                    h.u64(1);
                                }
                                Ok(_) => {
                                    h.u64(2);
                                    verdict(d, &x, false)?;
                                }
                            }
                        }
                        Ok(h.get())
                    },
                );
            }
        }
    });
    if ctx.deep() {
        ctx.suite("every two parts removed, emptied or replaced", |ctx| {
            for d in &docs {
                let v: Value = serde_json::from_str(&d.json()).unwrap();
                let mut all = vec![];
                paths(&v, &mut vec![], &mut all);
                let all: Vec<_> = all.into_iter().filter(|p| !p.is_empty() && !matches!(p.first(), Some(Step::K(k)) if k == "joint_names" || d.redundant().contains(&k.as_str()))).collect();
                let act = |x: &mut Value, p: &[Step], k: usize| match k {
                    0 => remove(x, p),
                    1 => *place(x, p) = Value::from(3),
                    2 => *place(x, p) = Value::Array(vec![]),
                    _ => *place(x, p) = Value::Null,
                };
                if all.len() > 900 {
                    continue;
                }
                for (i, p) in all.iter().enumerate() {
                    ctx.case(
                        || format!("{} at {:?} and every later place", d.name(), p),
                        |st| {
                            let mut h = Fnv::new();
                            for q in &all[i + 1..] {
                                // The later place goes first, so that the earlier one stays where it is.
                                if q.len() > p.len() && q.iter().zip(p).all(|(a, b)| format!("{:?}", a) == format!("{:?}", b)) {
                                    continue;
                                }
                                for k in 0..4 {
                                    let mut x = v.clone();
                                    act(&mut x, q, k);
                                    for l in 0..4 {
                                        let mut x = x.clone();
                                        act(&mut x, p, l);
                                        st.evaluations += 1;
                                        match d.read(&x.to_string()) {
                                            Err(_) => {
                                                h.u64(0);
                                            }
                                            Ok(_) => {
                                                h.u64(verdict(d, &x, false)?);
                                            }
                                        }
                                    }
                                }
                            }
                            Ok(h.get())
                        },
                    );
                }
            }
        });
    }
    ctx.suite("binary documents cut at every byte", |ctx| {
        for d in &docs {
            let Some(b) = d.bincode() else { continue };
            for n in 0..b.len() {
                ctx.case(
                    || format!("{} cut at {} of {}", d.name(), n, b.len()),
                    |_| match d.read_bincode(&b[..n]) {
                        Err(_) => Ok(n as u64),
                        Ok(_) => Err("accepted".into()),
                    },
                );
            }
        }
    });
    ctx.suite("binary documents with any byte replaced by any value", |ctx| {
        for d in &docs {
            let Some(b) = d.bincode() else { continue };
            for pos in 0..b.len() {
                ctx.case(
                    || format!("{} byte {}", d.name(), pos),
                    |st| {
                        let mut h = Fnv::new();
                        for c in 0..=255u8 {
                            let mut x = b.clone();
                            x[pos] = c;
                            st.evaluations += 1;
                            match d.read_bincode(&x) {
                                Err(_) => {
                                    ensure!(c != b[pos], "the document as written is refused");
                                    h.u64(0);
                                }
                                Ok(y) => {
                                    // A shorter list leaves bytes behind; what was read is written back unchanged.
                                    let ok = matches!(d, Doc::S(_)) || y.len() <= x.len() && y[..] == x[..y.len()];
                                    ensure!(ok, "byte {} = {:#04x}: accepted but changed", pos, c);
                                    h.u64(1);
                                }
                            }
                        }
                        Ok(h.get())
                    },
                );
            }
        }
    });
}
