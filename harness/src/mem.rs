//! An adversarial allocator for C24.
//!
//! While armed, every allocation of the thread is served from a private arena: filled with a chosen byte,
//! between guard zones, aligned to what was asked for and to nothing more, and not handed out again before
//! 64 MiB of other allocations. Freed blocks are overwritten. At the end of an armed run every block must
//! have been released exactly once, with the layout it was requested with, and no byte outside a live block
//! may have changed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::ffi::c_void;

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn madvise(addr: *mut c_void, len: usize, advice: i32) -> i32;
}

pub struct Guarded;

const ARENA: usize = 2 << 30;
const LARGEST: usize = 256 << 20;
const RECORDS: usize = 1 << 23;
const REUSE_AFTER: usize = 64 << 20;
const GUARD: usize = 64;
const FREED: u8 = 0xDD;
const HEADS: usize = 1 << 12;

#[derive(Clone, Copy)]
struct Record {
    p: usize,
    size: usize,
    align: u32,
    live: bool,
    /// Next freed block with the same hash, plus one.
    next: u32,
}

struct State {
    base: usize,
    records: *mut Record,
    n: usize,
    used: usize,
    fill: u8,
    live: usize,
    allocs: u64,
    bytes: u64,
    reused: bool,
    heads: [u32; HEADS],
    fault: Fault,
}

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    Empty,
    Twice(usize),
    Layout(usize, usize, usize, usize),
    Stranger,
    Before(usize),
    After(usize),
    Freed(usize),
    Leak(usize, usize),
    Exhausted,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

struct Shared(UnsafeCell<State>);
// Armed runs are single-threaded; see `armed`.
unsafe impl Sync for Shared {}

static STATE: Shared = Shared(UnsafeCell::new(State {
    base: 0,
    records: std::ptr::null_mut(),
    n: 0,
    used: 0,
    fill: 0,
    live: 0,
    allocs: 0,
    bytes: 0,
    reused: false,
    heads: [0; HEADS],
    fault: Fault::None,
}));

#[allow(clippy::mut_from_ref)]
unsafe fn state() -> &'static mut State {
    unsafe { &mut *STATE.0.get() }
}

fn head(size: usize, align: usize) -> usize {
    (size.wrapping_mul(0x9E37_79B9) ^ align) >> 3 & (HEADS - 1)
}

unsafe fn filled(p: usize, n: usize, b: u8) -> bool {
    unsafe { std::slice::from_raw_parts(p as *const u8, n) }.iter().all(|x| *x == b)
}

impl State {
    fn note(&mut self, f: Fault) {
        if self.fault == Fault::None {
            self.fault = f;
        }
    }

    unsafe fn rec(&mut self, i: usize) -> &'static mut Record {
        unsafe { &mut *self.records.add(i) }
    }

    unsafe fn check_guards(&mut self, r: Record) {
        unsafe {
            if !filled(r.p - GUARD, GUARD, self.fill) {
                self.note(Fault::Before(r.size));
            }
            if !filled(r.p + r.size, GUARD, self.fill) {
                self.note(Fault::After(r.size));
            }
        }
    }

    unsafe fn alloc(&mut self, l: Layout, zeroed: bool) -> *mut u8 {
        unsafe {
            let (size, align) = (l.size(), l.align());
            if size == 0 {
                self.note(Fault::Empty);
            }
            self.allocs += 1;
            self.bytes += size as u64;
            let first = if zeroed { 0 } else { self.fill };
            if self.used > REUSE_AFTER {
                let mut at = &mut self.heads[head(size, align)] as *mut u32;
                while *at != 0 {
                    let r = self.rec(*at as usize - 1);
                    if r.size == size && r.align as usize == align {
                        *at = r.next;
                        r.live = true;
                        if !filled(r.p, size, FREED) {
                            self.note(Fault::Freed(size));
                        }
                        self.check_guards(*r);
                        std::ptr::write_bytes(r.p as *mut u8, first, size);
                        self.live += 1;
                        return r.p as *mut u8;
                    }
                    at = &mut r.next;
                }
            }
            // An odd multiple of the alignment: aligned as requested and no better.
            let mut p = (self.base + self.used + 8 + GUARD).div_ceil(align) * align;
            if (p / align) % 2 == 0 {
                p += align;
            }
            let end = p + size + GUARD;
            if size > LARGEST || end > self.base + ARENA || self.n == RECORDS {
                self.note(Fault::Exhausted);
                return std::ptr::null_mut();
            }
            self.used = end - self.base;
            *self.rec(self.n) = Record { p, size, align: align as u32, live: true, next: 0 };
            std::ptr::write_unaligned((p - GUARD - 8) as *mut u64, self.n as u64);
            self.n += 1;
            std::ptr::write_bytes((p - GUARD) as *mut u8, self.fill, GUARD);
            std::ptr::write_bytes(p as *mut u8, first, size);
            std::ptr::write_bytes((p + size) as *mut u8, self.fill, GUARD);
            self.live += 1;
            p as *mut u8
        }
    }

    unsafe fn free(&mut self, p: usize, l: Layout) {
        unsafe {
            let i = if p >= self.base + 8 + GUARD { std::ptr::read_unaligned((p - GUARD - 8) as *const u64) as usize } else { usize::MAX };
            if i >= self.n || self.rec(i).p != p {
                self.note(Fault::Stranger);
                return;
            }
            let r = self.rec(i);
            if !r.live {
                self.note(Fault::Twice(r.size));
                return;
            }
            if r.size != l.size() || r.align as usize != l.align() {
                self.note(Fault::Layout(r.size, r.align as usize, l.size(), l.align()));
            }
            self.check_guards(*r);
            r.live = false;
            std::ptr::write_bytes(p as *mut u8, FREED, r.size);
            let k = head(r.size, r.align as usize);
            r.next = self.heads[k];
            self.heads[k] = i as u32 + 1;
            self.live -= 1;
        }
    }
}

fn within(p: usize) -> bool {
    let b = unsafe { (*STATE.0.get()).base };
    b != 0 && p >= b && p < b + ARENA
}

unsafe impl GlobalAlloc for Guarded {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.get() {
            unsafe { state().alloc(l, false) }
        } else {
            unsafe { System.alloc(l) }
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.get() {
            unsafe { state().alloc(l, true) }
        } else {
            unsafe { System.alloc_zeroed(l) }
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if within(p as usize) {
            unsafe { state().free(p as usize, l) }
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if !within(p as usize) {
            return unsafe { System.realloc(p, l, size) };
        }
        unsafe {
            let n = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(size));
                self.dealloc(p, l);
            }
            n
        }
    }
}

/// Allocations of the harness itself that outlive a run.
pub fn paused<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.replace(false);
    let r = f();
    ARMED.set(was);
    r
}

pub struct Report {
    pub allocs: u64,
    pub bytes: u64,
    pub fault: Option<String>,
}

/// Runs `f` armed; whatever `f` returns must own no memory.
pub fn armed<T: Copy>(fill: u8, f: impl FnOnce() -> T) -> (T, Report) {
    unsafe {
        let s = state();
        if s.base == 0 {
            let map = |n: usize| {
                let p = mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0); // private, anonymous, not reserved
                assert!(p as isize != -1, "no address space for the arena");
                p as usize
            };
            s.records = map(RECORDS * std::mem::size_of::<Record>()) as *mut Record;
            s.base = map(ARENA);
        }
        if s.used > REUSE_AFTER {
            s.heads = [0; HEADS];
            // Give back what a large run touched.
            madvise(s.base as *mut c_void, ARENA, 4);
        } else if s.n > 0 {
            for i in 0..s.n {
                let r = *s.rec(i);
                s.heads[head(r.size, r.align as usize)] = 0;
            }
        }
        s.n = 0;
        s.used = 0;
        s.fill = fill;
        s.live = 0;
        s.allocs = 0;
        s.bytes = 0;
        s.fault = Fault::None;
        ARMED.set(true);
        let r = f();
        ARMED.set(false);
        for i in 0..s.n {
            let b = *s.rec(i);
            s.check_guards(b);
            if b.live {
                let l = s.live;
                s.note(Fault::Leak(l, b.size));
            } else if !filled(b.p, b.size, FREED) {
                s.note(Fault::Freed(b.size));
            }
        }
        let fault = match s.fault {
            Fault::None => None,
            Fault::Empty => Some("an allocation of zero bytes was requested (undefined behaviour)".into()),
            Fault::Twice(n) => Some(format!("a block of {} bytes was released twice", n)),
            Fault::Layout(a, b, c, d) => Some(format!("a block requested with size {} alignment {} was released with size {} alignment {}", a, b, c, d)),
            Fault::Stranger => Some("an address that is not a block was released".into()),
            Fault::Before(n) => Some(format!("memory in front of a block of {} bytes was written", n)),
            Fault::After(n) => Some(format!("memory behind a block of {} bytes was written", n)),
            Fault::Freed(n) => Some(format!("a block of {} bytes was written after its release", n)),
            Fault::Leak(k, n) => Some(format!("{} blocks were never released, the first of {} bytes", k, n)),
            Fault::Exhausted => Some("more memory requested than the data can account for".into()),
        };
        (r, Report { allocs: s.allocs, bytes: s.bytes, fault })
    }
}
