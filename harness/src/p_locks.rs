//! C20: jobs on several threads over shared lockable buffers.
//!
//! The real jobs run on real threads over real `Arc<RwLock<Vec<T>>>` buffers, wrapped in a type whose only
//! addition is that every acquisition asks a controller first. The controller lets one thread run at a time
//! and explores every order of acquisitions (depth-first, by re-execution, with visited-state pruning).
//! A waiting writer may or may not block later readers: both kinds of lock are covered.

use crate::core::*;
use crate::p_blend::{blend_skel, jws, pose};
use crate::p_skin::{mat, vert};
use crate::util::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::ops::{Deref, DerefMut};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex, OnceLock, RwLock};
use std::time::Duration;

// ---------------------------------------------------------------------------------------------------
// Buffers

#[derive(Clone, Debug)]
enum Content {
    P(Vec<SoaTransform>),
    M(Vec<Mat4>),
    I(Vec<u16>),
    W(Vec<f32>),
    V(Vec<Vec3>),
}

impl Content {
    fn bits(&self) -> Vec<u32> {
        match self {
            Content::P(v) => pose_bits(v),
            Content::M(v) => mat_bits(v),
            Content::I(v) => v.iter().map(|x| *x as u32).collect(),
            Content::W(v) => v.iter().map(|x| x.to_bits()).collect(),
            Content::V(v) => v.iter().flat_map(|x| x.to_array().map(f32::to_bits)).collect(),
        }
    }
    fn hash(&self) -> u64 {
        hash_bits(&self.bits())
    }
}

trait Elem: 'static + std::fmt::Debug + Clone + Send + Sync {
    fn wrap(v: Vec<Self>) -> Content;
}
impl Elem for SoaTransform {
    fn wrap(v: Vec<Self>) -> Content {
        Content::P(v)
    }
}
impl Elem for Mat4 {
    fn wrap(v: Vec<Self>) -> Content {
        Content::M(v)
    }
}
impl Elem for u16 {
    fn wrap(v: Vec<Self>) -> Content {
        Content::I(v)
    }
}
impl Elem for f32 {
    fn wrap(v: Vec<Self>) -> Content {
        Content::W(v)
    }
}
impl Elem for Vec3 {
    fn wrap(v: Vec<Self>) -> Content {
        Content::V(v)
    }
}

/// A shared buffer; under a controller (thread-local `WORKER`) its acquisitions are scheduling points.
#[derive(Debug)]
struct Lk<T: Elem> {
    id: usize,
    inner: Arc<RwLock<Vec<T>>>,
}

impl<T: Elem> Clone for Lk<T> {
    fn clone(&self) -> Self {
        Lk { id: self.id, inner: self.inner.clone() }
    }
}

struct RGuard<'t, T: Elem> {
    id: usize,
    inner: Option<<Arc<RwLock<Vec<T>>> as OzzBuf<T>>::Buf<'t>>,
}

struct WGuard<'t, T: Elem> {
    id: usize,
    inner: Option<<Arc<RwLock<Vec<T>>> as OzzMutBuf<T>>::MutBuf<'t>>,
}

impl<T: Elem> Deref for RGuard<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        self.inner.as_ref().unwrap()
    }
}
impl<T: Elem> Deref for WGuard<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        self.inner.as_ref().unwrap()
    }
}
impl<T: Elem> DerefMut for WGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut [T] {
        self.inner.as_mut().unwrap()
    }
}
impl<T: Elem> Drop for RGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        released(self.id, None);
    }
}
impl<T: Elem> Drop for WGuard<'_, T> {
    fn drop(&mut self) {
        let c = T::wrap(self.inner.as_ref().unwrap().to_vec());
        let poison = std::thread::panicking();
        self.inner = None;
        released(self.id, Some((c, poison)));
    }
}

impl<T: Elem> OzzBuf<T> for Lk<T> {
    type Buf<'t> = RGuard<'t, T>;
    fn buf(&self) -> Result<RGuard<'_, T>, OzzError> {
        want(self.id, false);
        let r = self.inner.buf();
        acquired(self.id, false, r.as_ref().ok().map(|g| T::wrap(g.to_vec())));
        Ok(RGuard { id: self.id, inner: Some(r?) })
    }
}

impl<T: Elem> OzzMutBuf<T> for Lk<T> {
    type MutBuf<'t> = WGuard<'t, T>;
    fn mut_buf(&mut self) -> Result<WGuard<'_, T>, OzzError> {
        want(self.id, true);
        let id = self.id;
        let r = self.inner.mut_buf();
        acquired(id, true, r.as_ref().ok().map(|g| T::wrap(g.to_vec())));
        Ok(WGuard { id, inner: Some(r?) })
    }
}

// Buffer numbers.
const NP: usize = 4;
const M0: usize = NP; // model matrices, second palette
const IX: usize = NP + 2;
const WT: usize = NP + 3;
const V0: usize = NP + 4; // 3 stages of positions, normals, tangents: V0 + 3 * stage + kind
const NB: usize = V0 + 9;
const N: usize = 5; // joints
const VC: usize = 3; // vertices

fn name(b: usize) -> String {
    match b {
        _ if b < M0 => format!("pose{}", b),
        _ if b < IX => format!("matrices{}", b - M0),
        IX => "indices".into(),
        WT => "weights".into(),
        _ => format!("{}{}", ["positions", "normals", "tangents"][(b - V0) % 3], (b - V0) / 3),
    }
}

struct World {
    p: Vec<Lk<SoaTransform>>,
    m: Vec<Lk<Mat4>>,
    ix: Lk<u16>,
    wt: Lk<f32>,
    v: Vec<Lk<Vec3>>,
}

fn initial() -> Vec<Content> {
    let soa = N.div_ceil(4);
    let mut c = vec![];
    for k in 0..NP {
        c.push(Content::P(soa_pose(&pose(k, N), soa + 1)));
    }
    for k in 0..2 {
        c.push(Content::M((0..N + 1).map(|i| mat(i + 7 * k)).collect()));
    }
    c.push(Content::I((0..VC * 3).map(|i| ((i * 2 + i / 3) % N) as u16).collect()));
    c.push(Content::W((0..VC * 2).map(|i| 0.25 + 0.125 * (i % 3) as f32).collect()));
    for k in 0..9 {
        c.push(Content::V((0..VC + 1).map(|i| vert(k, i)).collect()));
    }
    c
}

impl World {
    fn new(c: &[Content]) -> World {
        let mut w = World { p: vec![], m: vec![], ix: Lk { id: IX, inner: Default::default() }, wt: Lk { id: WT, inner: Default::default() }, v: vec![] };
        for (id, c) in c.iter().enumerate() {
            match c {
                Content::P(v) => w.p.push(Lk { id, inner: Arc::new(RwLock::new(v.clone())) }),
                Content::M(v) => w.m.push(Lk { id, inner: Arc::new(RwLock::new(v.clone())) }),
                Content::I(v) => w.ix.inner = Arc::new(RwLock::new(v.clone())),
                Content::W(v) => w.wt.inner = Arc::new(RwLock::new(v.clone())),
                Content::V(v) => w.v.push(Lk { id, inner: Arc::new(RwLock::new(v.clone())) }),
            }
        }
        w
    }

    /// Runs `f` on the lock of buffer `b`.
    fn with<R>(&self, b: usize, f: impl FnOnce(&dyn AnyLock) -> R) -> R {
        match b {
            _ if b < M0 => f(&*self.p[b].inner),
            _ if b < IX => f(&*self.m[b - M0].inner),
            IX => f(&*self.ix.inner),
            WT => f(&*self.wt.inner),
            _ => f(&*self.v[b - V0].inner),
        }
    }

    fn contents(&self) -> Vec<Content> {
        (0..NB).map(|b| self.with(b, |l| l.content())).collect()
    }
}

trait AnyLock: Sync {
    /// Content, whether poisoned or not.
    fn content(&self) -> Content;
    fn poison(&self);
    fn poisoned(&self) -> bool;
    /// Nobody holds the lock.
    fn free(&self) -> bool;
    /// Replaces the content unless somebody holds the lock.
    fn try_replace(&self, c: &Content) -> bool;
    /// Holds the lock while `f` runs, then (if it was held for writing) replaces the content.
    fn hold(&self, write: Option<&Content>, f: &mut dyn FnMut());
}

impl<T: Elem + Unwrap> AnyLock for RwLock<Vec<T>> {
    fn content(&self) -> Content {
        T::wrap(self.read().unwrap_or_else(|e| e.into_inner()).clone())
    }
    fn poison(&self) {
        let _ = guard(|| {
            let _g = self.write();
            panic!("poison");
        });
    }
    fn poisoned(&self) -> bool {
        self.is_poisoned()
    }
    fn free(&self) -> bool {
        !matches!(self.try_write(), Err(std::sync::TryLockError::WouldBlock))
    }
    fn try_replace(&self, c: &Content) -> bool {
        self.try_write().map(|mut g| *g = T::unwrap(c)).is_ok()
    }
    fn hold(&self, write: Option<&Content>, f: &mut dyn FnMut()) {
        match write {
            Some(c) => {
                let mut g = self.write().unwrap();
                f();
                *g = T::unwrap(c);
            }
            None => {
                let _g = self.read().unwrap();
                f();
            }
        }
    }
}

trait Unwrap: Sized {
    fn unwrap(c: &Content) -> Vec<Self>;
}
macro_rules! unwrap_impl {
    ($($t:ty, $v:ident;)*) => { $(impl Unwrap for $t {
        fn unwrap(c: &Content) -> Vec<Self> {
            match c { Content::$v(v) => v.clone(), _ => unreachable!() }
        }
    })* };
}
unwrap_impl! { SoaTransform, P; Mat4, M; u16, I; f32, W; Vec3, V; }

// ---------------------------------------------------------------------------------------------------
// Jobs

#[derive(Clone, Debug, PartialEq)]
enum Job {
    /// Animation, ratio, output.
    Sample(usize, f32, usize),
    /// Layers and additive layers (input, weight, joint weight pattern), output.
    Blend(Vec<(usize, f32, usize)>, Vec<(usize, f32, usize)>, usize),
    /// Input, output palette, from, to.
    Model(usize, usize, i32, i32),
    /// Palette, use the other one for vectors, influences, kinds (1 positions, 2 +normals, 3 +tangents), stage.
    Skin(usize, bool, usize, usize, usize),
    /// Write-locks a buffer and panics.
    Poison(usize),
}

impl Job {
    fn text(&self) -> String {
        match self {
            Job::Sample(a, r, o) => format!("sample anim{}@{} -> pose{}", a, r, o),
            Job::Blend(l, a, o) => format!("blend {:?} add {:?} -> pose{}", l, a, o),
            Job::Model(i, o, f, t) => format!("local-to-model pose{} {}..={} -> matrices{}", i, f, t, o),
            Job::Skin(m, it, n, k, s) => format!("skin palette{} it:{} influences:{} kinds:{} stage {}", m, it, n, k, s),
            Job::Poison(b) => format!("poison {}", name(*b)),
        }
    }
    /// (buffer, written)
    fn uses(&self) -> Vec<(usize, bool)> {
        match self {
            Job::Sample(_, _, o) => vec![(*o, true)],
            Job::Blend(l, a, o) => l.iter().chain(a).map(|x| (x.0, false)).chain([(*o, true)]).collect(),
            Job::Model(i, o, ..) => vec![(*i, false), (M0 + o, true)],
            Job::Skin(m, it, n, k, s) => {
                let mut v = vec![(M0 + m, false), (IX, false)];
                if *it && *k > 1 {
                    v.push((M0 + 1 - m, false));
                }
                if *n > 1 {
                    v.push((WT, false));
                }
                for i in 0..*k {
                    v.push((V0 + 3 * s + i, false));
                    v.push((V0 + 3 * (s + 1) + i, true));
                }
                v
            }
            Job::Poison(b) => vec![(*b, true)],
        }
    }
    /// The job cannot do without the buffer (a layer of weight zero may be left alone).
    fn needs(&self, b: usize) -> bool {
        match self {
            Job::Blend(l, a, o) => *o == b || l.iter().chain(a).any(|x| x.0 == b && x.1 != 0.0),
            _ => self.uses().iter().any(|u| u.0 == b),
        }
    }
    fn duplicates(&self) -> bool {
        let mut u: Vec<usize> = self.uses().iter().map(|x| x.0).collect();
        let n = u.len();
        u.sort();
        u.dedup();
        u.len() < n
    }
}

struct Res {
    skel: Arc<Skeleton>,
    anims: Vec<Arc<Animation>>,
}

fn res() -> &'static Res {
    static R: OnceLock<Res> = OnceLock::new();
    R.get_or_init(|| Res {
        skel: Arc::new(load_skel(&blend_skel(N))),
        anims: vec![Arc::new(load_anim(&crate::p_sampling::sample_anim(N))), Arc::new(load_anim(&crate::p_sampling::sample_anim(N + 1)))],
    })
}

/// What one run of a job reports: the answer of `validate` if asked, and of `run`.
type Rep = (Option<bool>, Result<(), OzzError>);

fn run_job(w: &World, job: &Job, validate: bool) -> Rep {
    let r = res();
    match job {
        Job::Sample(a, ratio, o) => {
            let anim = r.anims[*a].clone();
            let mut j: SamplingJob<Arc<Animation>, Lk<SoaTransform>> = SamplingJob::default();
            j.set_context(SamplingContext::from_animation(&anim));
            j.set_animation(anim);
            j.set_ratio(*ratio);
            j.set_output(w.p[*o].clone());
            (validate.then(|| j.validate()), j.run())
        }
        Job::Blend(l, a, o) => {
            let mut j: BlendingJob<Arc<Skeleton>, Lk<SoaTransform>, Lk<SoaTransform>> = BlendingJob::default();
            j.set_skeleton(r.skel.clone());
            j.set_output(w.p[*o].clone());
            let lay = |x: &(usize, f32, usize)| {
                let mut b = BlendingLayer::with_weight(w.p[x.0].clone(), x.1);
                b.joint_weights = jws(x.2, r.skel.num_soa_joints());
                b
            };
            j.layers_mut().extend(l.iter().map(lay));
            j.additive_layers_mut().extend(a.iter().map(lay));
            (validate.then(|| j.validate()), j.run())
        }
        Job::Model(i, o, f, t) => {
            let mut j: LocalToModelJob<Arc<Skeleton>, Lk<SoaTransform>, Lk<Mat4>> = LocalToModelJob::default();
            j.set_skeleton(r.skel.clone());
            j.set_input(w.p[*i].clone());
            j.set_output(w.m[*o].clone());
            j.set_from(*f);
            j.set_to(*t);
            (validate.then(|| j.validate()), j.run())
        }
        Job::Skin(m, it, n, k, s) => {
            let mut j: SkinningJob<Lk<Mat4>, Lk<u16>, Lk<f32>, Lk<Vec3>, Lk<Vec3>> = SkinningJob::default();
            j.set_vertex_count(VC);
            j.set_influences_count(*n);
            j.set_joint_matrices(w.m[*m].clone());
            if *it && *k > 1 {
                j.set_joint_it_matrices(w.m[1 - m].clone());
            }
            j.set_joint_indices(w.ix.clone());
            if *n > 1 {
                j.set_joint_weights(w.wt.clone());
            }
            let (i, o) = (3 * s, 3 * (s + 1));
            j.set_in_positions(w.v[i].clone());
            j.set_out_positions(w.v[o].clone());
            if *k > 1 {
                j.set_in_normals(w.v[i + 1].clone());
                j.set_out_normals(w.v[o + 1].clone());
            }
            if *k > 2 {
                j.set_in_tangents(w.v[i + 2].clone());
                j.set_out_tangents(w.v[o + 2].clone());
            }
            (validate.then(|| j.validate()), j.run())
        }
        Job::Poison(b) => {
            let _ = guard(|| match *b {
                b if b < M0 => {
                    let mut l = w.p[b].clone();
                    let _g = l.mut_buf();
                    panic!("poison");
                }
                b if b < IX => {
                    let mut l = w.m[b - M0].clone();
                    let _g = l.mut_buf();
                    panic!("poison");
                }
                b => {
                    let mut l = w.v[b - V0].clone();
                    let _g = l.mut_buf();
                    panic!("poison");
                }
            });
            (None, Ok(()))
        }
    }
}

/// The job alone, on given contents. Returns the contents afterwards.
fn solo(c: &[Content], job: &Job) -> Result<Vec<Content>, String> {
    let w = World::new(c);
    run_job(&w, job, false).1.map_err(|e| format!("{} alone: {:?}", job.text(), e))?;
    Ok(w.contents())
}

/// The job alone, when its duplicated layers saw different contents: every layer gets a buffer of its own.
fn solo_layers(c: &[Content], job: &Job, seen: &[Content]) -> Result<Content, String> {
    let Job::Blend(l, a, o) = job else { unreachable!() };
    let r = res();
    let mut k = 0;
    let bufs: Vec<Vec<SoaTransform>> = seen.iter().map(SoaTransform::unwrap).collect();
    let Content::P(out) = &c[*o] else { unreachable!() };
    let mut j: BlendingJob<Arc<Skeleton>, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
    j.set_skeleton(r.skel.clone());
    j.set_output(out.clone());
    let mut lay = |x: &(usize, f32, usize)| {
        let mut b = BlendingLayer::with_weight(bufs[k].clone(), x.1);
        k += 1;
        b.joint_weights = jws(x.2, r.skel.num_soa_joints());
        b
    };
    let ls: Vec<_> = l.iter().map(&mut lay).collect();
    let als: Vec<_> = a.iter().map(&mut lay).collect();
    j.layers_mut().extend(ls);
    j.additive_layers_mut().extend(als);
    j.run().map_err(|e| format!("{:?}", e))?;
    Ok(Content::P(j.output().unwrap().clone()))
}

// ---------------------------------------------------------------------------------------------------
// Controller

#[derive(Clone)]
enum Ev {
    Acq { b: usize, w: bool, c: Option<Content> },
    Rel { b: usize, c: Content },
}

#[derive(Default, Clone)]
struct LockSt {
    w: Option<usize>,
    r: Vec<usize>,
    q: Vec<usize>,
    poisoned: bool,
}

struct Model {
    locks: Vec<LockSt>,
    content: Vec<u64>,
    /// Per thread and job: what happened, and the report.
    logs: Vec<Vec<(Vec<Ev>, Option<Rep>)>>,
    /// Per thread: hash of everything it acquired so far.
    hist: Vec<u64>,
    steps: Vec<u32>,
}

enum Msg {
    Want(usize, usize, bool),
    Done(usize),
}

struct Worker {
    t: usize,
    tx: Sender<Msg>,
    grant: Receiver<()>,
    model: Arc<Mutex<Model>>,
    contended: Arc<Vec<bool>>,
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

struct Abort;

/// What another thread does to a buffer right before one of the acquisitions of a job that runs on its own.
struct Change {
    at: usize,
    act: Box<dyn Fn()>,
    asked: usize,
    seen: Vec<(usize, bool, Content)>,
}

thread_local! {
    static CHANGE: RefCell<Option<Change>> = const { RefCell::new(None) };
}

fn want(b: usize, w: bool) {
    CHANGE.with(|k| {
        if let Some(k) = &mut *k.borrow_mut() {
            if k.asked == k.at {
                (k.act)();
            }
            k.asked += 1;
        }
    });
    let ok = WORKER.with(|k| match &*k.borrow() {
        None => true,
        Some(k) if !k.contended[b] => true,
        Some(k) => k.tx.send(Msg::Want(k.t, b, w)).is_ok() && k.grant.recv().is_ok(),
    });
    if !ok {
        std::panic::resume_unwind(Box::new(Abort));
    }
}

fn acquired(b: usize, w: bool, c: Option<Content>) {
    CHANGE.with(|k| {
        if let (Some(k), Some(c)) = (&mut *k.borrow_mut(), &c) {
            k.seen.push((b, w, c.clone()));
        }
    });
    WORKER.with(|k| {
        if let Some(k) = &*k.borrow() {
            let mut m = k.model.lock().unwrap();
            let h = c.as_ref().map(|c| c.hash()).unwrap_or(0xdead);
            if c.is_some() {
                if w {
                    m.locks[b].w = Some(k.t);
                } else {
                    m.locks[b].r.push(k.t);
                }
            }
            m.locks[b].q.retain(|t| *t != k.t);
            m.hist[k.t] = Fnv(m.hist[k.t]).u64(b as u64 * 2 + w as u64).u64(h).get();
            m.steps[k.t] += 1;
            if let Some(l) = m.logs[k.t].last_mut() {
                l.0.push(Ev::Acq { b, w, c });
            }
        }
    });
}

fn released(b: usize, c: Option<(Content, bool)>) {
    WORKER.with(|k| {
        if let Some(k) = &*k.borrow() {
            let mut m = k.model.lock().unwrap();
            match c {
                Some((c, poison)) => {
                    m.locks[b].w = None;
                    m.locks[b].poisoned |= poison;
                    m.content[b] = c.hash();
                    if let Some(l) = m.logs[k.t].last_mut() {
                        l.0.push(Ev::Rel { b, c });
                    }
                }
                None => {
                    let i = m.locks[b].r.iter().position(|t| *t == k.t);
                    if let Some(i) = i {
                        m.locks[b].r.remove(i);
                    }
                }
            }
        }
    });
}

#[derive(Clone)]
struct Scn {
    progs: Vec<Vec<Job>>,
    validate: bool,
}

impl Scn {
    fn text(&self) -> String {
        let t: Vec<String> = self.progs.iter().map(|p| format!("[{}]", p.iter().map(Job::text).collect::<Vec<_>>().join("; "))).collect();
        format!("{}{}", t.join(" || "), if self.validate { " (validate first)" } else { "" })
    }
    /// Buffers that at least two threads use and one writes: only these can be waited for.
    fn contended(&self) -> Vec<bool> {
        (0..NB)
            .map(|b| {
                let users = self.progs.iter().filter(|p| p.iter().any(|j| j.uses().iter().any(|u| u.0 == b))).count();
                let written = self.progs.iter().any(|p| p.iter().any(|j| j.uses().contains(&(b, true))));
                users > 1 && written
            })
            .collect()
    }
    fn connected(&self) -> bool {
        let c = self.contended();
        self.progs.iter().all(|p| p.iter().any(|j| j.uses().iter().any(|u| c[u.0])))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Acquire(usize),
    Queue(usize),
}

struct Outcome {
    /// Decisions taken after the prefix: alternatives not taken at each, as full prefixes.
    branches: Vec<Vec<usize>>,
    trace: Vec<String>,
    world: Option<Arc<World>>,
    model: Arc<Mutex<Model>>,
    verdict: Result<(), String>,
}

/// Executes the scenario along `prefix`, then along first choices until it ends or meets a known state.
fn execute(scn: &Scn, contended: &Arc<Vec<bool>>, prefix: &[usize], seen: &mut HashSet<u64>, st: &mut Stats) -> Outcome {
    let init = initial();
    let world = Arc::new(World::new(&init));
    let n = scn.progs.len();
    let model = Arc::new(Mutex::new(Model {
        locks: vec![LockSt::default(); NB],
        content: init.iter().map(|c| c.hash()).collect(),
        logs: (0..n).map(|_| vec![]).collect(),
        hist: vec![0; n],
        steps: vec![0; n],
    }));
    let (tx, rx) = channel();
    let mut grants: Vec<Option<Sender<()>>> = vec![];
    let mut handles = vec![];
    for t in 0..n {
        let (gtx, grx) = channel();
        grants.push(Some(gtx));
        let (tx, model, world, contended, prog, validate) = (tx.clone(), model.clone(), world.clone(), contended.clone(), scn.progs[t].clone(), scn.validate);
        handles.push(std::thread::spawn(move || {
            WORKER.with(|w| *w.borrow_mut() = Some(Worker { t, tx: tx.clone(), grant: grx, model: model.clone(), contended }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                // Threads start one at a time, like everything else.
                WORKER.with(|k| k.borrow().as_ref().unwrap().grant.recv().is_ok());
                for job in &prog {
                    model.lock().unwrap().logs[t].push((vec![], None));
                    let rep = run_job(&world, job, validate && !matches!(job, Job::Poison(_)));
                    model.lock().unwrap().logs[t].last_mut().unwrap().1 = Some(rep);
                }
            }));
            let panic = match r {
                Err(e) if !e.is::<Abort>() => Some(last_panic()),
                _ => None,
            };
            let _ = tx.send(Msg::Done(t));
            panic
        }));
    }
    drop(tx);
    let mut out = Outcome { branches: vec![], trace: vec![], world: Some(world.clone()), model: model.clone(), verdict: Ok(()) };
    let mut pend: Vec<Option<(usize, bool)>> = vec![None; n];
    let mut done = vec![false; n];
    let mut stuck = false;
    let mut complete = true;
    let wait = |t: usize, pend: &mut Vec<Option<(usize, bool)>>, done: &mut Vec<bool>| -> Result<(), String> {
        let mut secs = 0;
        loop {
            tick();
            match rx.recv_timeout(Duration::from_secs(1)) {
                Ok(Msg::Want(t, b, w)) => {
                    pend[t] = Some((b, w));
                    return Ok(());
                }
                Ok(Msg::Done(t)) => {
                    done[t] = true;
                    return Ok(());
                }
                Err(RecvTimeoutError::Timeout) if secs < 30 => secs += 1,
                Err(_) => return Err(format!("thread {} neither finishes nor asks for a buffer: it waits for a lock that every job has released", t)),
            }
        }
    };
    for t in 0..n {
        let _ = grants[t].as_ref().unwrap().send(());
        if let Err(e) = wait(t, &mut pend, &mut done) {
            out.verdict = Err(e);
            stuck = true;
            break;
        }
    }
    let mut path: Vec<usize> = vec![];
    while !stuck && !done.iter().all(|d| *d) {
        let m = model.lock().unwrap();
        let mut steps = vec![];
        for t in 0..n {
            if let Some((b, w)) = pend[t] {
                let l = &m.locks[b];
                if w {
                    if l.w.is_none() && l.r.is_empty() {
                        steps.push(Step::Acquire(t));
                    } else if !l.r.is_empty() && !l.q.contains(&t) {
                        steps.push(Step::Queue(t));
                    }
                } else if l.w.is_none() && l.q.is_empty() {
                    steps.push(Step::Acquire(t));
                }
            }
        }
        let mut h = Fnv::new();
        for t in 0..n {
            h.u64(m.hist[t]).u64(m.steps[t] as u64).u64(done[t] as u64);
            h.u64(m.logs[t].len() as u64);
            if let Some((b, w)) = pend[t] {
                h.u64(b as u64 * 2 + w as u64 + 1);
            }
        }
        for b in 0..NB {
            let l = &m.locks[b];
            h.u64(l.w.map_or(0, |t| t as u64 + 1)).u64(l.poisoned as u64);
            let mut r = l.r.clone();
            r.sort();
            for t in r {
                h.u64(t as u64 + 10);
            }
            let mut q = l.q.clone();
            q.sort();
            for t in q {
                h.u64(t as u64 + 20);
            }
            h.u64(m.content[b]);
        }
        drop(m);
        let h = h.get();
        st.state(h ^ hash_str(&scn.text()));
        if path.len() >= prefix.len() && !seen.insert(h) {
            complete = false;
            break;
        }
        if steps.is_empty() {
            let waits: Vec<String> = (0..n).filter_map(|t| pend[t].map(|(b, w)| format!("thread {} waits to {} {}", t, if w { "write" } else { "read" }, name(b)))).collect();
            out.verdict = Err(format!("deadlock: {}", waits.join(", ")));
            break;
        }
        let pick = if path.len() < prefix.len() { prefix[path.len()] } else { 0 };
        if pick >= steps.len() {
            out.verdict = Err("the same schedule does not lead to the same requests".into());
            break;
        }
        if path.len() >= prefix.len() {
            for k in 1..steps.len() {
                let mut p = path.clone();
                p.push(k);
                out.branches.push(p);
            }
        }
        path.push(pick);
        st.transition();
        match steps[pick] {
            Step::Queue(t) => {
                let b = pend[t].unwrap().0;
                model.lock().unwrap().locks[b].q.push(t);
                out.trace.push(format!("{} queues for {}", t, name(b)));
            }
            Step::Acquire(t) => {
                let (b, w) = pend[t].take().unwrap();
                out.trace.push(format!("{} {} {}", t, if w { "writes" } else { "reads" }, name(b)));
                let _ = grants[t].as_ref().unwrap().send(());
                if let Err(e) = wait(t, &mut pend, &mut done) {
                    out.verdict = Err(e);
                    stuck = true;
                }
            }
        }
    }
    // Let parked threads unwind.
    for g in grants.iter_mut() {
        *g = None;
    }
    if stuck {
        out.world = None; // some thread is lost for good
        return out;
    }
    for (t, h) in handles.into_iter().enumerate() {
        if let Ok(Some(p)) = h.join() {
            if out.verdict.is_ok() {
                out.verdict = Err(format!("thread {}: {}", t, p));
            }
        }
    }
    if !complete || out.verdict.is_err() {
        out.world = None;
    }
    out
}

/// Checks a finished execution.
fn judge(scn: &Scn, o: &Outcome) -> Result<u64, String> {
    let w = o.world.as_ref().unwrap();
    let m = o.model.lock().unwrap();
    let fin = w.contents();
    let init = initial();
    let poison = scn.progs.iter().flatten().any(|j| matches!(j, Job::Poison(_)));
    for b in 0..NB {
        ensure!(w.with(b, |l| l.free()), "{} is still locked after every job has ended", name(b));
        ensure!(m.locks[b].w.is_none() && m.locks[b].r.is_empty(), "a guard of {} was never released", name(b));
        let asked = scn.progs.iter().flatten().any(|j| *j == Job::Poison(b));
        ensure!(asked || !w.with(b, |l| l.poisoned()), "{} ends poisoned", name(b));
    }
    for (t, p) in scn.progs.iter().enumerate() {
        for (i, job) in p.iter().enumerate() {
            let what = || format!("thread {} job {} ({})", t, i, job.text());
            let (evs, rep) = &m.logs[t][i];
            let (val, run) = rep.as_ref().unwrap();
            if matches!(job, Job::Poison(_)) {
                continue;
            }
            let met = evs.iter().any(|e| matches!(e, Ev::Acq { c: None, .. }));
            match run {
                Ok(()) => {}
                Err(OzzError::LockPoison) if met => continue,
                Err(e) => return Err(format!("{}: {:?}", what(), e)),
            }
            if poison && met {
                let needed = evs.iter().any(|e| matches!(e, Ev::Acq { b, c: None, .. } if job.needs(*b)));
                ensure!(!needed, "{}: met a poisoned buffer and reports success", what());
                continue;
            }
            ensure!(val != &Some(false), "{}: validate refuses a valid job", what());
            // Contents at the last moments the job locked each buffer.
            let mut c = init.clone();
            for e in evs {
                if let Ev::Acq { b, w, c: Some(x) } = e {
                    let written = job.uses().contains(&(*b, true));
                    if *w || !written {
                        c[*b] = x.clone();
                    }
                }
            }
            let uses = job.uses();
            let outs: Vec<usize> = uses.iter().filter(|u| u.1).map(|u| u.0).collect();
            let mut wants: Vec<Vec<Content>> = vec![];
            if job.duplicates() {
                let ins: Vec<usize> = uses.iter().filter(|u| !u.1).map(|u| u.0).collect();
                let opts: Vec<Vec<&Content>> = ins
                    .iter()
                    .map(|b| evs.iter().filter_map(|e| match e { Ev::Acq { b: x, c: Some(c), .. } if x == b => Some(c), _ => None }).collect())
                    .collect();
                let radix: Vec<usize> = opts.iter().map(|o| o.len()).collect();
                let mut err = None;
                product(&radix, |d| {
                    let seen: Vec<Content> = d.iter().zip(&opts).map(|(k, o)| o[*k].clone()).collect();
                    match solo_layers(&c, job, &seen) {
                        Ok(x) => wants.push(vec![x]),
                        Err(e) => err = Some(e),
                    }
                });
                if let Some(e) = err {
                    return Err(e);
                }
            } else {
                let s = solo(&c, job)?;
                wants.push(outs.iter().map(|b| s[*b].clone()).collect());
            }
            // Every release shows the old content or the whole result; the last one the whole result.
            let mut last: Vec<Option<Vec<u32>>> = vec![None; NB];
            let mut at: Vec<Option<Vec<u32>>> = vec![None; NB];
            for e in evs {
                match e {
                    Ev::Acq { b, w: true, c: Some(x) } => at[*b] = Some(x.bits()),
                    Ev::Rel { b, c: x } => {
                        let x = x.bits();
                        let Some(k) = outs.iter().position(|o| o == b) else { return Err(format!("{}: writes {}", what(), name(*b))) };
                        ensure!(at[*b].as_ref() == Some(&x) || wants.iter().any(|w| w[k].bits() == x), "{}: leaves {} half written", what(), name(*b));
                        last[*b] = Some(x);
                    }
                    _ => {}
                }
            }
            ensure!(
                wants.iter().any(|w| outs.iter().enumerate().all(|(k, b)| last[*b].as_ref() == Some(&w[k].bits()))),
                "{}: the result is not what the job computes alone from the contents it locked",
                what()
            );
        }
    }
    if !poison && scn.progs.len() == 2 && scn.progs.iter().all(|p| p.len() == 1 && !p[0].duplicates()) {
        let (a, b) = (&scn.progs[0][0], &scn.progs[1][0]);
        let ab = solo(&solo(&init, a)?, b)?;
        let ba = solo(&solo(&init, b)?, a)?;
        let same = |x: &[Content]| x.iter().zip(&fin).all(|(x, y)| x.bits() == y.bits());
        ensure!(same(&ab) || same(&ba), "the result of the two jobs is that of neither order");
    }
    let mut h = Fnv::new();
    for c in &fin {
        h.u64(c.hash());
    }
    Ok(h.get())
}

fn explore(scn: &Scn, st: &mut Stats) -> Result<u64, String> {
    let contended = Arc::new(scn.contended());
    let mut seen = HashSet::new();
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut ends = Fnv::new();
    while let Some(prefix) = stack.pop() {
        let o = execute(scn, &contended, &prefix, &mut seen, st);
        st.traces += 1;
        let sched = || o.trace.join(", ");
        if let Err(e) = &o.verdict {
            return Err(format!("{} [schedule: {}]", e, sched()));
        }
        if o.world.is_some() {
            let h = judge(scn, &o).map_err(|e| format!("{} [schedule: {}]", e, sched()))?;
            st.outcome(h);
            ends.u64(h);
        }
        stack.extend(o.branches);
    }
    Ok(ends.get())
}

// ---------------------------------------------------------------------------------------------------
// Scenarios

fn templates() -> Vec<Job> {
    use Job::*;
    vec![
        Sample(0, 0.3, 0),
        Sample(0, 0.7, 0),
        Sample(1, 0.5, 1),
        Blend(vec![(0, 0.6, 0), (1, 0.4, 0)], vec![], 2),
        Blend(vec![(0, 1.0, 0)], vec![(1, 0.5, 0)], 2),
        Blend(vec![(0, 0.5, 0), (0, 0.7, 2)], vec![], 1),
        Blend(vec![(0, 0.0, 0), (1, 1.0, 3)], vec![], 2),
        Blend(vec![(0, 1.0, 2)], vec![(0, -0.5, 0)], 3),
        Blend(vec![], vec![], 0),
        Blend(vec![(2, 1.0, 0)], vec![(1, 0.25, 2), (0, 0.5, 0)], 3),
        Model(0, 0, -1, 1024),
        Model(2, 0, -1, 1024),
        Model(2, 1, 1, 3),
        Model(1, 0, 2, 1024),
        Skin(0, false, 1, 1, 0),
        Skin(0, true, 2, 3, 0),
        Skin(1, false, 3, 2, 0),
        Skin(0, false, 1, 2, 1),
    ]
}

fn programs() -> Vec<Vec<Job>> {
    use Job::*;
    vec![
        vec![Sample(0, 0.3, 0), Sample(0, 0.9, 0)],
        vec![Sample(0, 0.6, 0), Sample(1, 0.5, 1)],
        vec![Sample(1, 0.25, 1), Blend(vec![(0, 0.6, 0), (1, 0.4, 0)], vec![], 2)],
        vec![Blend(vec![(0, 1.0, 0)], vec![(1, 0.5, 0)], 2), Model(2, 0, -1, 1024)],
        vec![Blend(vec![(1, 1.0, 0), (0, 0.25, 2)], vec![], 2), Blend(vec![(2, 1.0, 0)], vec![(0, 0.5, 0)], 3)],
        vec![Model(2, 0, -1, 1024), Skin(0, false, 1, 1, 0)],
        vec![Model(0, 1, -1, 1024), Skin(0, true, 2, 2, 0)],
        vec![Skin(0, false, 1, 1, 0), Skin(1, false, 2, 1, 1)],
        vec![Model(1, 0, 1, 3), Sample(0, 0.1, 0)],
    ]
}

pub fn c20(ctx: &mut Ctx) {
    let t = templates();
    let go = |ctx: &mut Ctx, progs: Vec<Vec<Job>>, validate: bool| {
        let scn = Scn { progs, validate };
        if scn.connected() {
            ctx.case(|| scn.text(), |st| explore(&scn, st));
        }
    };
    ctx.suite("pairs", |ctx| {
        for a in 0..t.len() {
            for b in a..t.len() {
                for v in [false, true] {
                    go(ctx, vec![vec![t[a].clone()], vec![t[b].clone()]], v);
                }
            }
        }
    });
    ctx.suite("triples", |ctx| {
        for a in 0..t.len() {
            for b in a..t.len() {
                for c in b..t.len() {
                    go(ctx, vec![vec![t[a].clone()], vec![t[b].clone()], vec![t[c].clone()]], false);
                    if ctx.wide() {
                        go(ctx, vec![vec![t[a].clone()], vec![t[b].clone()], vec![t[c].clone()]], true);
                    }
                }
            }
        }
    });
    let p = programs();
    ctx.suite("programs", |ctx| {
        for a in 0..p.len() {
            for b in a..p.len() {
                go(ctx, vec![p[a].clone(), p[b].clone()], false);
                if ctx.wide() {
                    for c in b..p.len() {
                        go(ctx, vec![p[a].clone(), p[b].clone(), p[c].clone()], false);
                    }
                }
            }
        }
    });
    if ctx.wide() {
        ctx.suite("quadruples", |ctx| {
            let k = ctx.more(12, t.len());
            for a in 0..k {
                for b in a..k {
                    for c in b..k {
                        for d in c..k {
                            go(ctx, vec![vec![t[a].clone()], vec![t[b].clone()], vec![t[c].clone()], vec![t[d].clone()]], false);
                        }
                    }
                }
            }
        });
    }
    ctx.suite("poisoning", |ctx| {
        let bufs = [0usize, 1, 2, M0, M0 + 1, V0, V0 + 3, V0 + 4];
        for b in bufs {
            for a in 0..t.len() {
                for v in [false, true] {
                    go(ctx, vec![vec![t[a].clone()], vec![Job::Poison(b)]], v);
                }
                for c in a..t.len() {
                    if t[a].uses().iter().any(|u| u.0 == b) && t[c].uses().iter().any(|u| u.0 == b) {
                        go(ctx, vec![vec![t[a].clone()], vec![t[c].clone()], vec![Job::Poison(b)]], false);
                    }
                }
            }
        }
    });
    ctx.suite("poisoned", |ctx| {
        for job in &t {
            ctx.case(
                || format!("{}: every subset of its buffers poisoned beforehand", job.text()),
                |st| {
                    let mut bufs: Vec<usize> = job.uses().iter().map(|u| u.0).collect();
                    bufs.sort();
                    bufs.dedup();
                    bufs.retain(|b| job.needs(*b));
                    for set in 1u32..1 << bufs.len() {
                        for v in [false, true] {
                            let init = initial();
                            let w = World::new(&init);
                            let bad: Vec<usize> = (0..bufs.len()).filter(|i| set >> i & 1 == 1).map(|i| bufs[i]).collect();
                            for b in &bad {
                                w.with(*b, |l| l.poison());
                            }
                            let what = || format!("{} with {} poisoned", job.text(), bad.iter().map(|b| name(*b)).collect::<Vec<_>>().join(", "));
                            let (_, run) = guard(|| run_job(&w, job, v)).map_err(|e| format!("{}: {}", what(), e))?;
                            ensure!(matches!(run, Err(OzzError::LockPoison)), "{}: run answers {:?}", what(), run);
                            for b in 0..NB {
                                ensure!(w.with(b, |l| l.free()), "{}: {} stays locked", what(), name(b));
                                ensure!(w.with(b, |l| l.poisoned()) == bad.contains(&b), "{}: poisoning of {} changed", what(), name(b));
                                ensure!(w.with(b, |l| l.content()).bits() == init[b].bits(), "{}: {} changed", what(), name(b));
                            }
                            st.transition();
                        }
                    }
                    Ok(hash_str(&job.text()))
                },
            );
        }
    });
    // Other threads may also give a buffer another content or length whenever it is free.
    ctx.suite("replaced", |ctx| {
        for job in &t {
            ctx.case(
                || format!("{}: each buffer replaced, longer or shorter, before each acquisition", job.text()),
                |st| {
                    let init = initial();
                    let mut bufs: Vec<usize> = job.uses().iter().map(|u| u.0).collect();
                    bufs.sort();
                    bufs.dedup();
                    let mut h = Fnv::new();
                    for b in bufs {
                        let n = init[b].len();
                        // A blending job takes its layers twice, to check and to blend; how long they are may not change
                        // in between.
                        let twice = matches!(job, Job::Blend(..)) && job.uses().contains(&(b, false));
                        for len in if twice { n } else { 0 }..=n + 2 {
                            let c = init[b].other(b, len);
                            for v in [false, true] {
                                let mut at = 0;
                                while replaced(job, b, &c, at, v, len >= n).map_err(|e| format!("{}{}: {} replaced by {} elements before acquisition {}: {}", job.text(), if v { " (validate first)" } else { "" }, name(b), len, at, e))? {
                                    at += 1;
                                    st.transition();
                                }
                                h.u64(at as u64);
                            }
                        }
                    }
                    Ok(h.get())
                },
            );
        }
    });
    ctx.suite("contention", |ctx| {
        for job in &t {
            let mut uses = job.uses();
            uses.sort();
            uses.dedup();
            for (b, written) in uses {
                for hold_write in [false, true] {
                    for v in [false, true] {
                        ctx.case(
                            || format!("{}{} while another thread {} {}", job.text(), if v { " (validate first)" } else { "" }, if hold_write { "writes" } else { "reads" }, name(b)),
                            |st| contend(job, b, written, hold_write, v, st),
                        );
                    }
                }
            }
        }
    });
}

impl Content {
    fn len(&self) -> usize {
        match self {
            Content::P(v) => v.len(),
            Content::M(v) => v.len(),
            Content::I(v) => v.len(),
            Content::W(v) => v.len(),
            Content::V(v) => v.len(),
        }
    }
    /// Other values, `n` of them.
    fn other(&self, b: usize, n: usize) -> Content {
        match self {
            Content::P(_) => Content::P(soa_pose(&pose(b + 1, n * 4), n)),
            Content::M(_) => Content::M((0..n).map(|i| mat(i + 3)).collect()),
            Content::V(_) => Content::V((0..n).map(|i| vert(b + 2, i)).collect()),
            Content::I(_) => Content::I((0..n).map(|i| ((i * 3 + 1) % N) as u16).collect()),
            Content::W(_) => Content::W((0..n).map(|i| 0.125 + 0.0625 * (i % 5) as f32).collect()),
        }
    }
}

/// Another thread replaces the content of buffer `b` by `c` right before the job's acquisition number `at`. Returns
/// false if the job does not have that many.
fn replaced(job: &Job, b: usize, c: &Content, at: usize, v: bool, fits: bool) -> Result<bool, String> {
    let init = initial();
    let w = Arc::new(World::new(&init));
    let (w2, c2) = (w.clone(), c.clone());
    let act = move || {
        w2.with(b, |l| l.try_replace(&c2));
    };
    CHANGE.with(|k| *k.borrow_mut() = Some(Change { at, act: Box::new(act), asked: 0, seen: vec![] }));
    let r = guard(|| run_job(&w, job, v));
    let k = CHANGE.with(|k| k.borrow_mut().take()).unwrap();
    let (_, run) = r?;
    for i in 0..NB {
        ensure!(w.with(i, |l| l.free()), "{} stays locked", name(i));
        ensure!(!w.with(i, |l| l.poisoned()), "{} is poisoned", name(i));
    }
    match run {
        Ok(()) => {
            let mut eff = init;
            for (b, _, c) in &k.seen {
                eff[*b] = c.clone();
            }
            if !job.duplicates() {
                let want = solo(&eff, job)?;
                for (o, wr) in job.uses() {
                    if wr {
                        ensure!(w.with(o, |l| l.content()).bits() == want[o].bits(), "{} is not what the job computes from the contents it locked", name(o));
                    }
                }
            }
        }
        Err(OzzError::InvalidJob) | Err(OzzError::InvalidIndex) if !fits => {}
        Err(e) => return Err(format!("run answers {:?}", e)),
    }
    Ok(k.asked > at)
}

/// Another thread really holds a buffer for a while; the job waits for it or, among readers, does not care.
fn contend(job: &Job, b: usize, written: bool, hold_write: bool, v: bool, st: &mut Stats) -> Result<u64, String> {
    let init = initial();
    let mut next = init.clone();
    if hold_write {
        next[b] = match (&init[b], b) {
            (Content::P(_), _) => Content::P(soa_pose(&pose(b + 5, N), N.div_ceil(4) + 1)),
            (Content::M(x), _) => Content::M((0..x.len()).map(|i| mat(i + 3)).collect()),
            (Content::V(x), _) => Content::V((0..x.len()).map(|i| vert(b + 2, i)).collect()),
            (Content::I(x), _) => Content::I(x.iter().map(|i| (i + 1) % N as u16).collect()),
            (Content::W(x), _) => Content::W(x.iter().map(|i| i * 0.5).collect()),
        };
    }
    let w = Arc::new(World::new(&init));
    let (tx, rx) = channel();
    let early = !hold_write && !written;
    let mut got = None;
    let mut handle = None;
    w.with(b, |l| {
        l.hold(hold_write.then_some(&next[b]), &mut || {
            let (w, job, tx) = (w.clone(), job.clone(), tx.clone());
            handle = Some(std::thread::spawn(move || {
                let r = guard(|| run_job(&w, &job, v));
                drop(w);
                let _ = tx.send(r);
            }));
            // Readers do not exclude readers: the job must end although the buffer is being read.
            // Otherwise the job should be waiting; it is only given time to make a mistake.
            for _ in 0..if early { 300 } else { 1 } {
                tick();
                if let Ok(r) = rx.recv_timeout(Duration::from_millis(if early { 100 } else { 12 })) {
                    got = Some(r);
                    break;
                }
            }
        })
    });
    let was_early = got.is_some();
    for _ in 0..300 {
        if got.is_some() {
            break;
        }
        tick();
        if let Ok(r) = rx.recv_timeout(Duration::from_millis(100)) {
            got = Some(r);
        }
    }
    let Some(r) = got else { return Err("the job never ends although the buffer is free again".into()) };
    let _ = handle.unwrap().join();
    let (val, run) = r?;
    if early {
        ensure!(was_early, "the job waits for a buffer that is only being read");
    } else {
        ensure!(!was_early, "the job ends while another thread holds a buffer it needs: {:?}", run);
    }
    ensure!(val != Some(false), "validate refuses because a buffer is in use");
    ensure!(run.is_ok(), "run fails because a buffer is in use: {:?}", run);
    let want = solo(&next, job)?;
    for i in 0..NB {
        ensure!(w.with(i, |l| l.free()), "{} stays locked", name(i));
        ensure!(w.with(i, |l| l.content()).bits() == want[i].bits(), "{} is not what the job computes from the contents it had to wait for", name(i));
    }
    st.transition();
    Ok(hash_str(&job.text()) ^ b as u64)
}
