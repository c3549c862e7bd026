//! Deterministic scheduler for real OS threads. Exactly one thread runs at a time (it
//! holds the baton). Inside an operation the thread is single-stepped by the CPU (trap
//! flag); the trap handler counts the instructions of the program's own code and, at
//! the instruction counts and synchronisation points the scenario names, parks the
//! thread and hands the baton to another. Blocking and waking (futex) are simulated, so
//! a deadlock is an observed state, not a hang. Who runs is never left to the OS.
use crate::alloc::NOPREEMPT;
use crate::rng::mix;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAX: usize = 8;
const READY: u8 = 0;
const BLOCKED: u8 = 1;
const DONE: u8 = 2;

#[derive(Clone, Copy)]
pub struct Pre {
    /// 0: at the n-th counted instruction, 1: at the n-th synchronisation point,
    /// 2: at the n-th instruction that touches writable static data,
    /// 3: as 1 and 2, and 4: as 0, but counting each instruction once per thread.
    pub kind: u8,
    pub at: u64,
    pub to: u64,
    pub used: bool,
}

pub struct Sched {
    n: usize,
    state: [u8; MAX],
    waddr: [usize; MAX],
    seed: u64,
    pub steps: u64,
    pub syncs: u64,
    pub statics: u64,
    new_shared: u64,
    new_any: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub digest: u64,
    plan: [Pre; 32],
    nplan: usize,
    max_steps: u64,
    /// Steps since the last switch; a thread that never blocks is still made to share.
    slice: u64,
    text: (usize, usize),
    /// Writable static data of the program.
    data: (usize, usize),
    pub fatal: u8,
}
const NOPRE: Pre = Pre { kind: 0, at: 0, to: 0, used: true };
static mut S: Sched = Sched {
    n: 0,
    state: [DONE; MAX],
    waddr: [0; MAX],
    seed: 0,
    steps: 0,
    syncs: 0,
    statics: 0,
    new_shared: 0,
    new_any: 0,
    switches: 0,
    preempts: 0,
    blocks: 0,
    digest: 0,
    plan: [NOPRE; 32],
    nplan: 0,
    max_steps: 0,
    slice: 0,
    text: (0, 0),
    data: (0, 0),
    fatal: 0,
};
/// The thread holding the baton; CTRL is the controller.
static CUR: AtomicU32 = AtomicU32::new(CTRL);
const CTRL: u32 = 1000;
const SLICE: u64 = 20_000;

/// A managed thread gives way (sched_yield, sleeping).
pub fn yield_now() {
    NOPREEMPT.with(|n| n.set(n.get() + 1));
    let sc = s();
    let me = ME.with(|m| m.get());
    sc.steps += 1;
    sc.syncs += 1;
    if sc.steps > sc.max_steps {
        fatal(2);
    }
    if let Some(t) = choose(me, mix(&[sc.seed, sc.switches, 11])) {
        switch(me, t);
    }
    NOPREEMPT.with(|n| n.set(n.get() - 1));
}

thread_local! {
    static ME: Cell<u32> = const { Cell::new(CTRL) };
    static MANAGED: Cell<bool> = const { Cell::new(false) };
}

pub fn managed() -> bool {
    MANAGED.with(|m| m.get())
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut S }
}

fn fwait(v: u32) {
    unsafe {
        crate::seams::raw_syscall(libc::SYS_futex, &CUR as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
fn fwake() {
    unsafe {
        crate::seams::raw_syscall(libc::SYS_futex, &CUR as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}

fn hand_to(t: u32) {
    CUR.store(t, SeqCst);
    fwake();
}
fn wait_for_baton(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        fwait(c);
    }
}

fn log(a: u64, b: u64) {
    let sc = s();
    sc.digest = mix(&[sc.digest, a, b, sc.syncs, sc.steps]);
}

/// The k-th ready thread other than `me`, if any.
fn choose(me: u32, k: u64) -> Option<u32> {
    let sc = s();
    let mut c = [0u32; MAX];
    let mut n = 0;
    for i in 0..sc.n {
        if i as u32 != me && sc.state[i] == READY {
            c[n] = i as u32;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else {
        Some(c[(k % n as u64) as usize])
    }
}

/// Parks the caller forever after a fatal outcome (deadlock, livelock).
fn fatal(kind: u8) -> ! {
    s().fatal = kind;
    hand_to(CTRL);
    loop {
        let c = CUR.load(SeqCst);
        fwait(c);
        if CUR.load(SeqCst) == CTRL + 1 {
            unsafe { libc::_exit(99) }
        }
    }
}

fn switch(me: u32, to: u32) {
    s().switches += 1;
    s().slice = 0;
    log(me as u64, to as u64);
    hand_to(to);
    wait_for_baton(me);
}

const SEEN: usize = 1 << 17;
static mut SEEN_AT: [u32; SEEN] = [0; SEEN];

/// Whether this thread executes this instruction for the first time in the run.
fn first_time(me: u32, at: usize) -> bool {
    let key = ((at as u32) << 3 | (me & 7)) + 1;
    let mut h = key.wrapping_mul(0x9E37_79B1) as usize >> 15;
    for _ in 0..64 {
        let e = unsafe { &mut *std::ptr::addr_of_mut!(SEEN_AT[h % SEEN]) };
        if *e == key {
            return false;
        }
        if *e == 0 {
            *e = key;
            return true;
        }
        h += 1;
    }
    false
}

/// Called at every point where the plan may preempt.
fn point(sync: bool, touch: bool, rip: usize) {
    let sc = s();
    let me = ME.with(|m| m.get());
    sc.steps += 1;
    sc.slice += 1;
    if sc.slice > SLICE {
        sc.slice = 0;
        if let Some(t) = choose(me, mix(&[sc.seed, sc.switches, 9])) {
            switch(me, t);
            return;
        }
    }
    sc.syncs += sync as u64;
    sc.statics += touch as u64;
    let new = first_time(me, rip.wrapping_sub(sc.text.0));
    sc.new_any += new as u64;
    sc.new_shared += (new && (sync || touch)) as u64;
    if sc.steps > sc.max_steps {
        fatal(2);
    }
    for i in 0..sc.nplan {
        let p = sc.plan[i];
        if !p.used && ((p.kind == 0 && sc.steps >= p.at) || (p.kind == 1 && sync && sc.syncs >= p.at)
            || (p.kind == 2 && touch && sc.statics >= p.at)
            || (p.kind == 3 && new && (sync || touch) && sc.new_shared >= p.at)
            || (p.kind == 4 && new && sc.new_any >= p.at)) {
            sc.plan[i].used = true;
            if let Some(t) = choose(me, p.to) {
                sc.preempts += 1;
                switch(me, t);
                return;
            }
        }
    }
}

fn is_sync(rip: usize) -> bool {
    let b = unsafe { std::slice::from_raw_parts(rip as *const u8, 15) };
    let mut i = 0;
    while i < 6 {
        match b[i] {
            0xF0 => return true,
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x40..=0x4F => i += 1,
            0x86 | 0x87 => return b[i + 1] >> 6 != 3,
            _ => return false,
        }
    }
    false
}

/// Whether the instruction reads, writes or takes the address of writable static data.
/// (An immediate after a rip-relative operand is not accounted for: a few bytes' slack.)
fn touches_static(g: &[i64], rip: usize) -> bool {
    let b = unsafe { std::slice::from_raw_parts(rip as *const u8, 16) };
    let (lo, hi) = s().data;
    let inside = |a: usize| a >= lo && a < hi;
    let reg = |n: usize| {
        use libc::*;
        g[[REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15][n] as usize] as usize
    };
    let (mut i, mut rex) = (0, 0u8);
    while i < 6 {
        match b[i] {
            0x64 | 0x65 => return false,
            0x66 | 0x67 | 0xF0 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => i += 1,
            _ => break,
        }
    }
    if b[i] & 0xF0 == 0x40 {
        rex = b[i];
        i += 1;
    }
    let modrm = match b[i] {
        0xC5 => {
            i += 3;
            true
        }
        0xC4 => {
            // The extension bits are stored inverted.
            rex = (!b[i + 1] >> 5) & 3;
            i += 4;
            true
        }
        0x0F => {
            let o = b[i + 1];
            i += if o == 0x38 || o == 0x3A { 3 } else { 2 };
            !matches!(o, 0x05 | 0x0B | 0x1F | 0x31 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF)
        }
        0xA4 | 0xA5 | 0xAA | 0xAB => return inside(reg(7)) || (b[i] < 0xA6 && inside(reg(6))),
        o => {
            i += 1;
            matches!(o, 0x63 | 0x69 | 0x6B | 0x80..=0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xF6 | 0xF7 | 0xFE | 0xFF) || (o < 0x40 && o & 7 < 4)
        }
    };
    if !modrm {
        return false;
    }
    let m = b[i];
    let (md, rm) = (m >> 6, m & 7);
    i += 1;
    if md == 3 {
        return false;
    }
    let d32 = |i: usize| i32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as isize as usize;
    if md == 0 && rm == 5 {
        return inside(rip.wrapping_add(i + 4).wrapping_add(d32(i)));
    }
    let mut a = 0usize;
    if rm == 4 {
        let sib = b[i];
        i += 1;
        let (sc, ix, base) = (sib >> 6, ((sib >> 3) & 7) as usize | ((rex as usize & 2) << 2), (sib & 7) as usize | ((rex as usize & 1) << 3));
        if ix != 4 {
            a = reg(ix) << sc;
        }
        if md == 0 && sib & 7 == 5 {
            return inside(a.wrapping_add(d32(i)));
        }
        a = a.wrapping_add(reg(base));
    } else {
        a = reg(rm as usize | ((rex as usize & 1) << 3));
    }
    a = a.wrapping_add(match md {
        1 => b[i] as i8 as isize as usize,
        2 => d32(i),
        _ => 0,
    });
    inside(a)
}

/// Entry points of third-party primitives (ciphers, hashes, curves): they touch no shared
/// state, so a thread runs through them at full speed and is stepped again on return.
static MEMS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
static SKIP: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
static mut SKIP_ON: bool = false;
thread_local! {
    static BACK: Cell<usize> = const { Cell::new(0) };
}

core::arch::global_asm!(".globl vsim_tramp", "vsim_tramp:", "int3", "ud2");

fn skip_list() -> Vec<usize> {
    const NAMES: &[&str] = &["Hacl_", "hacl_star", "blake2_rfc", "ed25519_dalek", "curve25519_dalek", "sha2", "rand_chacha", "rand_hc", "block_buffer", "__rust_alloc", "__rust_dealloc", "__rust_realloc"];
    let d = std::fs::read("/proc/self/exe").unwrap_or_default();
    let u = |o: usize, n: usize| -> usize { d.get(o..o + n).map_or(0, |b| b.iter().rev().fold(0, |a, x| a << 8 | *x as usize)) };
    let (shoff, shent, shnum) = (u(40, 8), u(58, 2), u(60, 2));
    let base = if u(16, 2) == 3 { unsafe { &__executable_start as *const u8 as usize } } else { 0 };
    let mut v = vec![];
    for i in 0..shnum {
        let h = shoff + i * shent;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(h + 24, 8), u(h + 32, 8), u(h + 40, 4));
        let str_off = u(shoff + link * shent + 24, 8);
        for s in (off..off + size).step_by(24) {
            let (name, info, val) = (str_off + u(s, 4), u(s + 4, 1), u(s + 8, 8));
            if info & 15 != 2 || val == 0 {
                continue;
            }
            let end = d[name..].iter().position(|b| *b == 0).unwrap_or(0);
            let n = std::str::from_utf8(&d[name..name + end]).unwrap_or("");
            if NAMES.iter().any(|x| n.contains(x)) && !["vsim", "stratumv2", "noiseexplorer"].iter().any(|x| n.contains(x)) {
                v.push(base + val);
            }
        }
    }
    let mut mems = vec![];
    for f in [c"memcpy", c"memmove", c"memset", c"memcmp", c"bcmp", c"strlen"] {
        let a = unsafe { libc::dlsym(libc::RTLD_DEFAULT, f.as_ptr()) } as usize;
        if a != 0 {
            v.push(a);
            mems.push(a);
        }
    }
    let _ = MEMS.set(mems);
    v.sort();
    v.dedup();
    v
}

/// At the entry of a skipped primitive: run it unstepped. True if so.
unsafe fn step_over(uc: *mut libc::c_void) -> bool {
    extern "C" {
        fn vsim_tramp();
    }
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let rip = g[libc::REG_RIP as usize] as usize;
    let tramp = vsim_tramp as *const () as usize;
    if rip == tramp + 1 {
        g[libc::REG_RIP as usize] = BACK.with(|b| b.replace(0)) as i64;
        g[libc::REG_EFL as usize] |= 0x100;
        return true;
    }
    if SKIP_ON && BACK.with(|b| b.get()) == 0 && SKIP.get().map_or(false, |v| v.binary_search(&rip).is_ok()) {
        let sp = g[libc::REG_RSP as usize] as *mut usize;
        BACK.with(|b| b.set(*sp));
        *sp = tramp;
        g[libc::REG_EFL as usize] &= !0x100;
        return true;
    }
    false
}

/// Runs primitives unstepped from the next `run` on (or not).
pub fn skip_primitives(on: bool) -> usize {
    unsafe { SKIP_ON = on };
    SKIP.get_or_init(skip_list).len()
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    if COUNTING.with(|c| c.get()) {
        return unsafe { count_one(uc) };
    }
    if managed() && unsafe { step_over(uc) } {
        return;
    }
    if !managed() || NOPREEMPT.with(|n| n.get()) > 0 {
        return;
    }
    let rip = unsafe { (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as usize };
    let t = s().text;
    if rip < t.0 || rip >= t.1 {
        return;
    }
    let touch = unsafe { touches_static(&(*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs, rip) };
    point(is_sync(rip), touch, rip);
}

thread_local! {
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    static WORK: Cell<u64> = const { Cell::new(0) };
}
/// Stops a count that would never come to an end.
const MAX_WORK: u64 = 60_000_000;

unsafe fn count_one(uc: *mut libc::c_void) {
    let g = &(*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let (rip, rdx) = (g[libc::REG_RIP as usize] as usize, g[libc::REG_RDX as usize] as u64);
    if step_over(uc) {
        // A primitive about to run whole: a call, and for the copying ones the bytes.
        let copies = MEMS.get().map_or(false, |m| m.contains(&rip));
        WORK.with(|w| w.set(w.get() + 20 + if copies { rdx / 32 } else { 0 }));
        return;
    }
    let t = s().text;
    if rip >= t.0 && rip < t.1 {
        let w = WORK.with(|w| {
            w.set(w.get() + 1);
            w.get()
        });
        if w > MAX_WORK {
            // Too long already; the rest need not be counted.
            (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
    }
}

/// The machine instructions of the program's own code `f` executes, with a fixed charge for each
/// call of a primitive and a charge by length for copying; no result if it panicked.
#[inline(never)]
pub fn work<R>(f: impl FnOnce() -> R) -> (Option<R>, u64) {
    install();
    skip_primitives(true);
    WORK.with(|w| w.set(0));
    COUNTING.with(|c| c.set(true));
    unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") }
    COUNTING.with(|c| c.set(false));
    skip_primitives(false);
    (r, WORK.with(|w| w.get()))
}

/// Time spent otherwise than on instructions counts as so many of them.
pub fn charge(n: u64) {
    if COUNTING.with(|c| c.get()) {
        WORK.with(|w| w.set(w.get().saturating_add(n)));
    }
}

fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        s().text = (&__executable_start as *const u8 as usize, &etext as *const u8 as usize);
    }
}

/// Simulated futex for a managed thread; returns a raw syscall result.
pub fn futex(addr: *const u32, op: i32, val: u32, _timeout: i64) -> i64 {
    NOPREEMPT.with(|n| n.set(n.get() + 1));
    let r = match op & 0x7f {
        0 | 9 => unsafe {
            if std::ptr::read_volatile(addr) != val {
                -(libc::EAGAIN as i64)
            } else {
                let me = ME.with(|m| m.get());
                let sc = s();
                sc.state[me as usize] = BLOCKED;
                sc.waddr[me as usize] = addr as usize;
                sc.blocks += 1;
                match choose(me, mix(&[sc.seed, sc.switches])) {
                    Some(t) => switch(me, t),
                    None => fatal(1),
                }
                0
            }
        },
        1 | 10 => {
            let sc = s();
            let mut woken = 0i64;
            while woken < val as i64 {
                let mut c = [0usize; MAX];
                let mut n = 0;
                for i in 0..sc.n {
                    if sc.state[i] == BLOCKED && sc.waddr[i] == addr as usize {
                        c[n] = i;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                let k = c[(mix(&[sc.seed, sc.switches, 7]) % n as u64) as usize];
                sc.state[k] = READY;
                woken += 1;
            }
            woken
        }
        _ => -(libc::ENOSYS as i64),
    };
    NOPREEMPT.with(|n| n.set(n.get() - 1));
    r
}

thread_local! {
    static OFF: Cell<bool> = const { Cell::new(false) };
}

/// Stops the single-stepping, if there is any, until `step_on`: no thread is preempted in
/// the allocator, and sorting out a large heap instruction by instruction takes minutes.
#[inline(never)]
pub fn step_off() {
    let f: u64;
    unsafe { core::arch::asm!("pushfq", "pop {}", out(reg) f) }
    if f & 0x100 != 0 && !COUNTING.with(|c| c.get()) {
        unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") }
        OFF.with(|o| o.set(true));
    }
}

#[inline(never)]
pub fn step_on() {
    if OFF.with(|o| o.replace(false)) {
        unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
}

/// Runs `f` single-stepped; None if it panicked. The caller must hold the baton.
#[inline(never)]
pub fn stepped<R>(f: impl FnOnce() -> R) -> Option<R> {
    if ME.with(|m| m.get()) == CTRL {
        // Not a scheduled thread: nothing to interleave with.
        return std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    }
    MANAGED.with(|m| m.set(true));
    point(true, false, 0);
    unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq") }
    point(true, false, 0);
    MANAGED.with(|m| m.set(false));
    r
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static mut data_start: u8;
    static _end: u8;
}

pub struct Report {
    pub steps: u64,
    pub syncs: u64,
    pub statics: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub digest: u64,
    /// 0: all threads finished, 1: deadlock, 2: no end within the step budget.
    pub fatal: u8,
}

/// Runs the bodies as threads under the plan and returns when all have finished, or at
/// a deadlock or when the step budget is used up (their threads are then left parked).
pub fn run(seed: u64, plan: &[Pre], max_steps: u64, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    install();
    let n = bodies.len();
    let sc = s();
    sc.n = n;
    sc.state = [DONE; MAX];
    sc.waddr = [0; MAX];
    for i in 0..n {
        sc.state[i] = READY;
    }
    sc.seed = seed;
    (sc.statics, sc.new_shared, sc.new_any) = (0, 0, 0);
    unsafe { std::ptr::addr_of_mut!(SEEN_AT).write_bytes(0, 1) };
    (sc.steps, sc.syncs, sc.switches, sc.preempts, sc.blocks, sc.digest, sc.fatal) = (0, 0, 0, 0, 0, seed, 0);
    sc.plan = [NOPRE; 32];
    sc.nplan = plan.len().min(32);
    for (i, p) in plan.iter().take(32).enumerate() {
        sc.plan[i] = *p;
    }
    sc.max_steps = max_steps;
    sc.slice = 0;
    unsafe {
        sc.data = (std::ptr::addr_of!(data_start) as usize, &_end as *const u8 as usize);
    }
    CUR.store(CTRL, SeqCst);
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(i as u32));
            wait_for_baton(i as u32);
            b();
            let sc = s();
            sc.state[i] = DONE;
            let next = choose(i as u32, mix(&[sc.seed, sc.switches, 3]));
            sc.switches += 1;
            log(100 + i as u64, next.unwrap_or(99) as u64);
            match next {
                Some(t) => hand_to(t),
                None => {
                    if (0..sc.n).any(|k| sc.state[k] == BLOCKED) {
                        sc.fatal = 1;
                    }
                    hand_to(CTRL)
                }
            }
        }));
    }
    hand_to((mix(&[seed, 5]) % n as u64) as u32);
    wait_for_baton(CTRL);
    let sc = s();
    if sc.fatal == 0 {
        for h in hs {
            let _ = h.join();
        }
    }
    Report {
        steps: sc.steps,
        syncs: sc.syncs,
        statics: sc.statics,
        switches: sc.switches,
        preempts: sc.preempts,
        blocks: sc.blocks,
        digest: sc.digest,
        fatal: sc.fatal,
    }
}
