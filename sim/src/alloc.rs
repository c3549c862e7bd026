//! Global allocator: the system one, counted per thread. While it runs, the C12
//! scheduler must not preempt (the C library's own locks are not simulated), so it
//! also maintains the no-preempt depth.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

const SLOTS: usize = 512;

thread_local! {
    /// Blocks allocated inside `tracked` and not freed since.
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: Cell<[(usize, usize); SLOTS]> = const { Cell::new([(0, 0); SLOTS]) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    pub static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
}

thread_local! {
    static FILL: Cell<u8> = const { Cell::new(0) };
}
/// What fresh memory contains on this thread from now on (0: whatever was there).
pub fn fill(b: u8) {
    FILL.with(|f| f.set(b));
}
#[inline]
unsafe fn paint(p: *mut u8, n: usize) {
    let b = FILL.with(|f| f.get());
    if b != 0 {
        std::ptr::write_bytes(p, b, n);
    }
}

#[inline]
fn born(p: *mut u8, n: usize) {
    if TRACK.with(|t| t.get()) {
        BLOCKS.with(|b| {
            let b = unsafe { &mut *b.as_ptr() };
            let u = USED.with(|u| u.get());
            if let Some(e) = b[..u].iter_mut().find(|e| e.0 == 0) {
                *e = (p as usize, n);
            } else if u < SLOTS {
                b[u] = (p as usize, n);
                USED.with(|c| c.set(u + 1));
            }
        });
    }
}
#[inline]
fn gone(p: *mut u8) {
    let u = USED.with(|u| u.get());
    if u > 0 {
        BLOCKS.with(|b| {
            let b = unsafe { &mut *b.as_ptr() };
            for e in b[..u].iter_mut() {
                if e.0 == p as usize {
                    *e = (0, 0);
                }
            }
        });
    }
}

/// Runs `f`, remembering the heap blocks it leaves behind.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    r
}
/// Calls `f` with each remembered block that is still allocated.
pub fn each_tracked(mut f: impl FnMut(&[u8])) {
    let u = USED.with(|u| u.get());
    let b = BLOCKS.with(|b| b.get());
    for (p, n) in b[..u].iter().filter(|e| e.0 != 0) {
        f(unsafe { std::slice::from_raw_parts(*p as *const u8, *n) });
    }
}
pub fn forget_tracked() {
    USED.with(|u| u.set(0));
}

#[inline]
fn add(n: i64) {
    LIVE.with(|l| {
        let v = l.get() + n;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
#[inline]
fn enter() {
    NOPREEMPT.with(|n| n.set(n.get() + 1));
    if crate::sched::managed() {
        crate::sched::step_off();
    }
}
#[inline]
fn leave() {
    crate::sched::step_on();
    NOPREEMPT.with(|n| n.set(n.get() - 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        enter();
        let p = System.alloc(l);
        if !p.is_null() {
            paint(p, l.size());
            add(l.size() as i64);
            born(p, l.size());
        }
        leave();
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        enter();
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
            born(p, l.size());
        }
        leave();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        enter();
        gone(p);
        System.dealloc(p, l);
        add(-(l.size() as i64));
        leave();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        enter();
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                paint(q.add(l.size()), n - l.size());
            }
            add(n as i64 - l.size() as i64);
            gone(p);
            born(q, n);
        }
        leave();
        q
    }
}

/// Runs `f` and returns its result with the largest number of bytes it held at once.
pub fn peak_of<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

/// Bytes this thread holds now.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
