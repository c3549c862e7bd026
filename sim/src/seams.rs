//! The operating-system seams. The code under test reaches OS entropy, the clock and
//! blocking only through libc symbols; this binary defines those symbols, so every
//! such call made on a simulated thread is answered by the simulator.
use crate::rng::mix;
use std::cell::Cell;

#[derive(Clone, Copy)]
pub struct Seam {
    pub active: bool,
    pub ent_seed: u64,
    pub ent_pos: u64,
    pub ent_calls: u64,
    /// Percent of entropy reads that are interrupted / cut short.
    pub ent_eintr: u64,
    pub ent_short: u64,
    /// Flip this bit of the entropy stream (-1: none).
    pub ent_flip: i64,
    /// Every entropy byte has this fixed value (-1: random bytes).
    pub ent_stuck: i64,
    /// The entropy source is out of order: every read fails.
    pub ent_out: bool,
    pub n_eintr: u64,
    pub n_short: u64,
    pub n_out: u64,
    pub clock_reads: u64,
    /// Wall clock of the simulated machine.
    pub secs: i64,
    pub nanos: i64,
    /// Seconds added to the wall clock by each read (a running clock).
    pub tick_nanos: i64,
    /// Simulated time spent sleeping, in nanoseconds.
    pub slept: i64,
}
pub const OFF: Seam = Seam {
    active: false,
    ent_seed: 0,
    ent_pos: 0,
    ent_calls: 0,
    ent_eintr: 0,
    ent_short: 0,
    ent_flip: -1,
    ent_stuck: -1,
    ent_out: false,
    n_eintr: 0,
    n_short: 0,
    n_out: 0,
    clock_reads: 0,
    secs: 0,
    nanos: 0,
    tick_nanos: 0,
    slept: 0,
};

thread_local! {
    pub static SEAM: Cell<Seam> = const { Cell::new(OFF) };
}

pub fn with<R>(f: impl FnOnce(&mut Seam) -> R) -> R {
    SEAM.with(|c| {
        let mut s = c.get();
        let r = f(&mut s);
        c.set(s);
        r
    })
}

pub fn set_clock(secs: i64, nanos: i64) {
    with(|s| {
        s.secs = secs;
        s.nanos = nanos;
    })
}

unsafe fn raw(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn raw_syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    raw(num, a, b, c, d, e, f)
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// One simulated entropy read.
unsafe fn entropy(buf: *mut u8, len: usize) -> i64 {
    with(|s| {
        s.ent_calls += 1;
        let d = mix(&[s.ent_seed ^ 0xE17, s.ent_calls]);
        let mut len = len;
        if s.ent_out {
            s.n_out += 1;
            return -(libc::EIO as i64);
        }
        if len > 0 && s.ent_eintr > 0 && d % 100 < s.ent_eintr {
            s.n_eintr += 1;
            return -(libc::EINTR as i64);
        }
        if len > 1 && s.ent_short > 0 && (d >> 20) % 100 < s.ent_short {
            s.n_short += 1;
            len = 1 + ((d >> 40) as usize) % (len - 1);
        }
        for i in 0..len {
            let p = s.ent_pos + i as u64;
            let w = mix(&[s.ent_seed, p / 8]);
            let mut b = (w >> (8 * (p % 8))) as u8;
            if s.ent_stuck >= 0 {
                b = s.ent_stuck as u8;
            }
            if s.ent_flip >= 0 && s.ent_flip as u64 / 8 == p {
                b ^= 1 << (s.ent_flip % 8);
            }
            *buf.add(i) = b;
        }
        s.ent_pos += len as u64;
        len as i64
    })
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == libc::SYS_getrandom && SEAM.with(|s| s.get().active) {
        return ret(entropy(a as *mut u8, b as usize));
    }
    if num == libc::SYS_futex && crate::sched::managed() {
        return ret(crate::sched::futex(a as *const u32, b as i32, c as u32, d));
    }
    ret(raw(num, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if SEAM.with(|s| s.get().active) {
        return ret(entropy(buf, len)) as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if SEAM.with(|s| s.get().active) {
        with(|s| {
            s.clock_reads += 1;
            (*ts).tv_sec = s.secs;
            (*ts).tv_nsec = s.nanos;
            s.nanos += s.tick_nanos;
            while s.nanos >= 1_000_000_000 {
                s.nanos -= 1_000_000_000;
                s.secs += 1;
            }
        });
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::sched::managed() {
        crate::sched::yield_now();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

/// Sleeping takes no real time: the simulated clock moves on.
unsafe fn sleep_for(t: *const libc::timespec, until: bool) {
    with(|s| {
        let now = s.secs.saturating_mul(1_000_000_000).saturating_add(s.nanos);
        let t = (*t).tv_sec.saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec);
        let d = if until { t.saturating_sub(now) } else { t }.max(0);
        let end = now.saturating_add(d);
        s.secs = end.div_euclid(1_000_000_000);
        s.nanos = end.rem_euclid(1_000_000_000);
        s.slept = s.slept.saturating_add(d);
        crate::sched::charge(d as u64 / 100);
    })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if crate::sched::managed() {
        crate::sched::yield_now();
        return 0;
    }
    if SEAM.with(|s| s.get().active) {
        sleep_for(a, false);
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if crate::sched::managed() {
        crate::sched::yield_now();
        return 0;
    }
    if SEAM.with(|s| s.get().active) {
        sleep_for(a, f & 1 != 0);
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, c as i64, f as i64, a as i64, b as i64, 0, 0) as i32
}

/// Real monotonic time, whatever the thread's simulated clock says.
pub fn real_now() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut t as *mut _ as i64, 0, 0, 0, 0);
    }
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// Makes the one-time initialisation in the random number crates happen before any
/// simulated run, so that a run does not depend on being the first of its process.
pub fn warm_up() {
    std::thread::spawn(|| {
        let _ = noiseexplorer_nx::types::Keypair::default();
        let _ = stratumv2::network::new_channel_id();
        let _ = stratumv2::noise::generate_authority_keypair();
    })
    .join()
    .unwrap();
}

/// What a run may be shown of its surroundings: 0: all of it (not watched), 1 and 2: two
/// made-up environments. In the latter, everything that reaches outside is recorded and
/// answered by the simulator: nothing is written, opened, started or changed.
#[derive(Clone, Copy)]
pub struct Watch {
    pub world: u8,
    pub reached: Option<&'static str>,
    pub env_reads: u64,
    pub salt: u64,
}
thread_local! {
    pub static WATCH: Cell<Watch> = const { Cell::new(Watch { world: 0, reached: None, env_reads: 0, salt: 0 }) };
}
/// Not watched: None. Watched: noted, and the world.
fn reach(what: &'static str) -> Option<u8> {
    WATCH.with(|c| {
        let mut w = c.get();
        if w.world == 0 {
            return None;
        }
        w.reached = w.reached.or(Some(what));
        c.set(w);
        Some(w.world)
    })
}
unsafe fn refuse(e: i32) -> i32 {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if reach(if fd < 3 { "writes to the standard output or error" } else { "writes to a file" }).is_some() {
        return n as isize;
    }
    ret(raw(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if reach(if fd < 3 { "writes to the standard output or error" } else { "writes to a file" }).is_some() {
        return (0..n.max(0) as usize).map(|i| (*v.add(i)).iov_len as isize).sum();
    }
    ret(raw(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
/// The entropy device is no business of this watch.
unsafe fn entropy_device(p: *const libc::c_char) -> bool {
    let p = std::ffi::CStr::from_ptr(p).to_bytes();
    p == b"/dev/urandom" || p == b"/dev/random"
}
unsafe fn open_at(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if !entropy_device(p) && reach("opens a file").is_some() {
        return refuse(libc::ENOENT);
    }
    ret(raw(libc::SYS_openat, dir as i64, p as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)] // the third argument is passed the same way
pub unsafe extern "C" fn open(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open_at(d, p, flags, mode)
}
macro_rules! watched {
    ($($name:ident($($a:ident: $t:ty),*) -> $num:ident, $what:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if reach($what).is_some() {
                return refuse(libc::EPERM);
            }
            watched!(@call $num, $($a),*)
        }
    )* };
    (@call $num:ident, $a:ident) => { ret(raw(libc::$num, $a as i64, 0, 0, 0, 0, 0)) as i32 };
    (@call $num:ident, $a:ident, $b:ident) => { ret(raw(libc::$num, $a as i64, $b as i64, 0, 0, 0, 0)) as i32 };
    (@call $num:ident, $a:ident, $b:ident, $c:ident) => { ret(raw(libc::$num, $a as i64, $b as i64, $c as i64, 0, 0, 0)) as i32 };
    (@call $num:ident, $a:ident, $b:ident, $c:ident, $d:ident) => { ret(raw(libc::$num, $a as i64, $b as i64, $c as i64, $d as i64, 0, 0)) as i32 };
}
watched! {
    socket(a: i32, b: i32, c: i32) -> SYS_socket, "opens a socket";
    unlink(a: *const libc::c_char) -> SYS_unlink, "removes a file";
    mkdir(a: *const libc::c_char, b: u32) -> SYS_mkdir, "makes a directory";
    rmdir(a: *const libc::c_char) -> SYS_rmdir, "removes a directory";
    rename(a: *const libc::c_char, b: *const libc::c_char) -> SYS_rename, "renames a file";
    chdir(a: *const libc::c_char) -> SYS_chdir, "changes the working directory";
    kill(a: i32, b: i32) -> SYS_kill, "sends a signal";
}
/// The C library's own, for what has to be done by it.
unsafe fn next(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(a: *mut libc::pthread_t, b: *const libc::pthread_attr_t, c: *mut libc::c_void, d: *mut libc::c_void) -> i32 {
    if reach("starts a thread").is_some() {
        return libc::EAGAIN;
    }
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, *mut libc::c_void, *mut libc::c_void) -> i32;
    std::mem::transmute::<_, F>(next(c"pthread_create"))(a, b, c, d)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(a: *const libc::c_char, b: *const libc::c_char, c: i32) -> i32 {
    if reach("changes the environment").is_some() {
        return refuse(libc::ENOMEM);
    }
    type F = unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, i32) -> i32;
    std::mem::transmute::<_, F>(next(c"setenv"))(a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    match WATCH.with(|w| w.get().world) {
        0 => raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32,
        w => 100 + 7777 * w as i32,
    }
}
/// The first made-up environment is empty; in the second every variable exists.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    match WATCH.with(|w| w.get().world) {
        0 => {
            let mut p = environ;
            while !p.is_null() && !(*p).is_null() {
                let e = std::ffi::CStr::from_ptr(*p).to_bytes();
                if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
                    return (*p).add(n.len() + 1);
                }
                p = p.add(1);
            }
            std::ptr::null_mut()
        }
        w => {
            WATCH.with(|c| {
                let mut s = c.get();
                s.env_reads += 1;
                c.set(s)
            });
            if w == 1 {
                return std::ptr::null_mut();
            }
            let all = [c"1", c"0", c"true", c"/tmp", c"64", c"off", c"debug", c"", c"100000"];
            let salt = WATCH.with(|w| w.get().salt);
            all[(mix(&[salt, crate::rng::mix_str(&String::from_utf8_lossy(n))]) % all.len() as u64) as usize].as_ptr() as *mut _
        }
    }
}
