//! Exploration engine: case enumeration, sharding, panic capture, counters.
//!
//! A property is a function that walks its whole bounded space through `Ctx::case`. Every case has an
//! ordinal inside its suite; a shard executes the cases whose ordinal is congruent to it, so the union of
//! all shards is the complete enumeration, and a replay executes exactly one ordinal.

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// Smallest bounds, for development only.
    Smoke,
    Quick,
    Thorough,
}

/// Progress block shared with the supervisor (mmap of a file): [suite hash, ordinal, heartbeat].
static PROGRESS: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static BEAT: AtomicU64 = AtomicU64::new(0);

pub fn set_progress(p: *mut u64) {
    PROGRESS.store(p, Ordering::SeqCst);
}

/// Writes the suite name where the supervisor can read it after a crash.
pub fn publish_suite(name: &str) {
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        let b = name.as_bytes();
        unsafe {
            p.add(8).write_volatile(b.len() as u64);
            let q = p.add(9) as *mut u8;
            for (i, c) in b.iter().enumerate().take(256) {
                q.add(i).write_volatile(*c);
            }
        }
    }
}

pub fn read_suite(p: *const u64) -> String {
    unsafe {
        let n = (p.add(8).read_volatile() as usize).min(256);
        let q = p.add(9) as *const u8;
        String::from_utf8_lossy(&(0..n).map(|i| q.add(i).read_volatile()).collect::<Vec<u8>>()).into_owned()
    }
}

pub fn publish(suite: u64, ordinal: u64) {
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            p.write_volatile(suite);
            p.add(1).write_volatile(ordinal);
        }
    }
    tick();
}

/// Heartbeat for long cases.
#[inline]
pub fn tick() {
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        let b = BEAT.fetch_add(1, Ordering::Relaxed);
        unsafe { p.add(2).write_volatile(b) };
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub suite: String,
    pub ordinal: u64,
    pub desc: String,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
}

impl Stats {
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 400_000 {
            self.outcomes.insert(h);
        }
    }
    /// States are never capped: a count of states must be exact.
    pub fn state(&mut self, h: u64) -> bool {
        self.states.insert(h)
    }
    pub fn transition(&mut self) {
        self.transitions += 1;
        tick();
    }
}

pub struct Ctx {
    pub tier: Tier,
    /// Bounds in force: 0 to 2 are used by quick (by cost of the property), 3 by thorough.
    pub level: u8,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<(String, u64)>,
    pub suite: String,
    suite_hash: u64,
    ordinal: u64,
    pub cases_total: u64,
    pub stats: Stats,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    pub suites: Vec<(String, u64, u64)>, // name, cases enumerated, cases run here
    suite_run: u64,
    suite_violations: u64,
    pub skip_to: Option<(String, u64)>,
    /// Run every case under the adversarial allocator (C24).
    pub mem: bool,
    /// Put in front of suite names.
    pub prefix: &'static str,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static ARENA_MESSAGE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        #[cfg(feature = "full")]
        return crate::mem::paused(|| note_panic(info));
        #[cfg(not(feature = "full"))]
        note_panic(info)
    }));
}

fn note_panic(info: &std::panic::PanicHookInfo) {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic becomes an `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Runs a case again under the adversarial allocator, with two fill patterns.
#[cfg(feature = "full")]
fn in_arena(stats: &mut Stats, want: u64, body: &mut dyn FnMut(&mut Stats) -> Result<u64, String>) -> Result<u64, String> {
    for fill in [0xA5u8, 0x00] {
        let (got, rep) = crate::mem::armed(fill, || {
            let mut st = Stats::default();
            match catch_unwind(AssertUnwindSafe(|| body(&mut st))) {
                Ok(Ok(h)) => Ok(h),
                Ok(Err(e)) => {
                    crate::mem::paused(|| ARENA_MESSAGE.with(|m| *m.borrow_mut() = e.as_str().to_string()));
                    Err(())
                }
                Err(e) => {
                    drop(e);
                    crate::mem::paused(|| ARENA_MESSAGE.with(|m| *m.borrow_mut() = last_panic()));
                    Err(())
                }
            }
        });
        stats.transitions += rep.allocs;
        stats.evaluations += 1;
        if let Some(f) = rep.fault {
            return Err(format!("{} (fresh memory filled with {:#04x})", f, fill));
        }
        match got {
            Ok(h) if h == want => {}
            Ok(_) => return Err(format!("the outcome depends on the content of fresh memory (filled with {:#04x})", fill)),
            Err(()) => return Err(format!("with fresh memory filled with {:#04x}: {}", fill, ARENA_MESSAGE.with(|m| m.borrow().clone()))),
        }
    }
    Ok(want)
}

impl Ctx {
    pub fn new(tier: Tier, quick_level: u8, shard: u64, nshards: u64) -> Ctx {
        Ctx {
            tier,
            level: match tier {
                Tier::Smoke => 0,
                Tier::Quick => quick_level,
                Tier::Thorough => 3,
            },
            shard,
            nshards,
            only: None,
            suite: String::new(),
            suite_hash: 0,
            ordinal: 0,
            cases_total: 0,
            stats: Stats::default(),
            samples: Vec::new(),
            violations: Vec::new(),
            violation_count: 0,
            suites: Vec::new(),
            suite_run: 0,
            suite_violations: 0,
            skip_to: None,
            mem: false,
            prefix: "",
        }
    }

    pub fn wide(&self) -> bool {
        self.level >= 1
    }

    pub fn deepest(&self) -> bool {
        self.level >= 2
    }

    /// The thorough tier.
    pub fn deep(&self) -> bool {
        self.level >= 3
    }

    /// Picks a bound that only the thorough tier raises.
    pub fn more<T>(&self, quick: T, thorough: T) -> T {
        if self.level >= 3 {
            thorough
        } else {
            quick
        }
    }

    /// Picks a bound by level.
    pub fn pick<T>(&self, narrow: T, wide: T) -> T {
        if self.level >= 1 {
            wide
        } else {
            narrow
        }
    }

    pub fn pick3<T>(&self, narrow: T, wide: T, deep: T) -> T {
        match self.level {
            0 => narrow,
            1 => wide,
            _ => deep,
        }
    }

    pub fn suite(&mut self, name: &str, f: impl FnOnce(&mut Ctx)) {
        let name = &format!("{}{}", self.prefix, name);
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        self.suite = name.to_string();
        self.suite_hash = hash_str(name);
        self.ordinal = 0;
        self.suite_run = 0;
        self.suite_violations = 0;
        publish_suite(name);
        f(self);
        self.suites.push((name.clone(), self.ordinal, self.suite_run));
    }

    /// One case of the enumeration. The body runs the real code and compares it with the reference; it
    /// returns a hash of the observed outcome (used only to count distinct outcomes).
    #[inline]
    pub fn case(&mut self, desc: impl Fn() -> String, mut body: impl FnMut(&mut Stats) -> Result<u64, String>) {
        let ord = self.ordinal;
        self.ordinal += 1;
        self.cases_total += 1;
        match &self.only {
            Some((_, o)) => {
                if *o != ord {
                    return;
                }
            }
            None => {
                if ord % self.nshards != self.shard {
                    return;
                }
            }
        }
        if self.suite_violations >= 8 || self.violation_count >= 40 {
            // The property is already refuted many times over; do not flood.
            return;
        }
        publish(self.suite_hash, ord);
        self.suite_run += 1;
        self.stats.evaluations += 1;
        let stats = &mut self.stats;
        let res = catch_unwind(AssertUnwindSafe(|| body(stats)));
        let mut res = match res {
            Ok(r) => r,
            Err(_) => Err(last_panic()),
        };
        #[cfg(feature = "full")]
        if self.mem {
            // The first run only provides the expected outcome; what it violates is another property's
            // business. It also lets every lazily initialised static settle.
            res = match res {
                Ok(h) => in_arena(&mut self.stats, h, &mut body),
                Err(_) => Ok(0),
            };
        }
        match res {
            Ok(h) => {
                self.stats.outcome(h ^ self.suite_hash);
                if self.samples.len() < 40 && self.suite_run == 1 {
                    self.samples.push(format!("{}#{}: {}", self.suite, ord, desc()));
                }
            }
            Err(message) => {
                self.violation_count += 1;
                self.suite_violations += 1;
                self.violations.push(Violation {
                    suite: self.suite.clone(),
                    ordinal: ord,
                    desc: desc(),
                    message,
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// Hashing (FNV-1a 64 with a final mix)

#[derive(Clone, Copy)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}

impl Fnv {
    pub fn new() -> Fnv {
        Fnv::default()
    }
    #[inline]
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
        self.0 = self.0.wrapping_mul(0xbf58476d1ce4e5b9);
        self.0 ^= self.0 >> 32;
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.u64(v as u64)
    }
    pub fn f32(&mut self, v: f32) -> &mut Self {
        // All NaNs are one outcome: payloads are not observable behaviour.
        self.u64(if v.is_nan() { 0x7fc00000 } else { v.to_bits() as u64 })
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for c in b {
            self.u64(*c as u64);
        }
        self
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        self.bytes(s.as_bytes())
    }
    pub fn fs(&mut self, v: &[f32]) -> &mut Self {
        for f in v {
            self.f32(*f);
        }
        self
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}

pub fn hash_str(s: &str) -> u64 {
    Fnv::new().str(s).get()
}

// ---------------------------------------------------------------------------------------------------
// Enumeration helpers

/// Calls `f` with every tuple of `len` digits in 0..base.
pub fn tuples(base: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut d = vec![0usize; len];
    if base == 0 && len > 0 {
        return;
    }
    loop {
        f(&d);
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            d[i] += 1;
            if d[i] < base {
                break;
            }
            d[i] = 0;
            i += 1;
        }
    }
}

/// Mixed-radix enumeration.
pub fn product(radix: &[usize], mut f: impl FnMut(&[usize])) {
    let mut d = vec![0usize; radix.len()];
    if radix.iter().any(|r| *r == 0) {
        return;
    }
    loop {
        f(&d);
        let mut i = 0;
        loop {
            if i == radix.len() {
                return;
            }
            d[i] += 1;
            if d[i] < radix[i] {
                break;
            }
            d[i] = 0;
            i += 1;
        }
    }
}

pub fn close(a: f32, b: f64, tol: f64) -> bool {
    let a = a as f64;
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol * (1.0 + b.abs())
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
