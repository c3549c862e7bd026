//! Keys and channel ids are fresh, from OS entropy, on every session and restart.
use crate::crypto::{hex, x25519_pub};
use crate::nz::keypair;
use crate::rng::{mix, Rng};
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Step};
use crate::seams::{self, Seam};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::Keypair;
use std::collections::{HashMap, HashSet};
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder};

pub const PROP: Prop = Prop {
    id: "C15",
    gen,
    exec,
    quick: 10_000,
    thorough: 500_000,
    rule: "Machines with a simulated entropy source and clock generate authority, static, connection and session keys and channel ids on several threads, with refused calls in between, clocks frozen, stepped and turned back, short, interrupted and failing entropy reads, process restarts and forks; the same history is repeated with other entropy, every key ever seen must be new, no private key bit may be stuck, and ids must fill the 32-bit range.",
    real: "stratumv2 and nx-noise key generation, the rand crate's generators",
    stub: "OS entropy, the clock",
    assumptions: &["two independent 256-bit keys do not collide by chance", "a private key is located in memory as the 32 bytes whose X25519 public key is the object's public key; where none is found the stuck-bit test is skipped (probe private_keys_inspected)"],
};

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C15", 0);
    if r.chance(1, 160) {
        s.push("mass", &[r.below(4) as i64, 12_000]);
        return s;
    }
    if r.chance(1, 80) {
        s.push("restart", &[*r.pick(&[0, 1_700_000_000, 5])]);
        return s;
    }
    if r.chance(1, 60) {
        s.push("fork", &[r.below(32) as i64, r.range(1, 4), r.below(32) as i64, r.range(0, 40)]);
        return s;
    }
    for _ in 0..r.range(2, 12) {
        let th = r.chance(1, 3) as i64;
        match r.below(9) {
            0 => s.push("auth", &[th]),
            1 => s.push("static", &[th]),
            2..=4 => s.push("session", &[th, r.below(16) as i64, r.below(3) as i64]),
            5 => s.push("conn", &[th, r.below(2) as i64]),
            6 => s.push("ids", &[th, r.range(4, 12)]),
            7 if r.chance(1, 3) => s.push("outage", &[0, r.chance(2, 3) as i64]),
            7 => s.push("clock", &[*r.pick(&[0, 1, 1_600_000_000, 1_700_000_000, 1_700_000_001, 0xffff_ffff])]),
            _ => s.push("reseed", &[r.tag()]),
        }
    }
    if r.chance(1, 50) {
        s.push("spread", &[r.below(2) as i64]);
    }
    if r.chance(1, 40) {
        s.push("bits", &[r.below(4) as i64]);
    }
    s
}

/// A public value, its kind, and the private key if it could be located.
type Key = (&'static str, [u8; 32], Option<[u8; 32]>);

/// `hint`: where the last object of this kind had it.
pub fn find_private<T>(obj: &T, public: &[u8; 32], hint: &mut Option<usize>) -> Option<[u8; 32]> {
    let b = unsafe { std::slice::from_raw_parts(obj as *const T as *const u8, std::mem::size_of::<T>()) };
    let at = |i: usize| -> [u8; 32] { b[i..i + 32].try_into().unwrap() };
    let all = hint.iter().copied().chain(0..b.len().saturating_sub(31));
    let i = all.into_iter().find(|i| at(*i) != [0; 32] && x25519_pub(&at(*i)) == *public)?;
    *hint = Some(i);
    Some(at(i))
}

fn session(mask: i64, how: i64, out: &mut Vec<Key>) -> Outcome {
    let mk = |init: bool| -> Result<NoiseSession, crate::scenario::Violation> {
        Ok(match how {
            0 if init => new_noise_initiator(),
            0 => new_noise_responder(None),
            1 => NoiseSession::init_session(init, &[], Keypair::default()),
            // Long-lived static keys: only the ephemeral ones are new.
            _ => NoiseSession::init_session(init, &[], keypair([7; 32])?),
        })
    };
    let (mut i, mut r) = (mk(true)?, mk(false)?);
    for b in 0..2 {
        if mask >> b & 1 == 1 {
            let _ = i.send_message(&mut [0u8; 12]);
            let _ = i.send_message(&mut [0u8; 20]);
            let _ = i.recv_message(&mut [1u8; 96]);
            let _ = r.send_message(&mut [0u8; 96]);
        }
    }
    let mut a = vec![0u8; 64];
    if let Err(e) = i.send_message(&mut a) {
        return viol("handshake setup", e.to_string());
    }
    out.push(("initiator ephemeral", a[..32].try_into().unwrap(), None));
    if let Err(e) = r.recv_message(&mut a) {
        return viol("handshake setup", e.to_string());
    }
    if mask >> 2 & 1 == 1 {
        let _ = r.send_message(&mut [0u8; 40]);
        let _ = r.send_message(&mut [0u8; 90]);
    }
    let mut b = vec![0u8; 128];
    if let Err(e) = r.send_message(&mut b) {
        return viol("handshake setup", e.to_string());
    }
    out.push(("responder ephemeral", b[..32].try_into().unwrap(), None));
    if let Err(e) = i.recv_message(&mut b) {
        return viol("handshake setup", e.to_string());
    }
    if how < 2 {
        if let Some(k) = i.get_remote_static_public_key() {
            out.push(("default static", k.as_bytes(), None));
        }
    }
    Ok(())
}

/// Performs one generating step, appending what it made.
fn make(st: &Step, keys: &mut Vec<Key>, ids: &mut Vec<u32>) -> Outcome {
    match st.op.as_str() {
        "auth" => keys.push(("authority", generate_authority_keypair().public.to_bytes(), None)),
        "static" => keys.push(("static", Keypair::default().get_public_key().as_bytes(), None)),
        "session" => session(st.arg(1), st.arg(2).rem_euclid(3), keys)?,
        "conn" => {
            let mut i = ConnectionEncryptor::new_outbound();
            let mut r = ConnectionEncryptor::new_inbound(None);
            let Ok(mut a) = i.init_handshake() else { return viol("handshake setup", "init") };
            keys.push(("connection ephemeral", a[..32].try_into().unwrap(), None));
            let mut b = match r.recv_handshake(&mut a) {
                Ok(b) => b,
                Err(e) => return viol("handshake setup", e.to_string()),
            };
            keys.push(("connection ephemeral", b[..32].try_into().unwrap(), None));
            if let Err(e) = i.recv_handshake(&mut b) {
                return viol("handshake setup", e.to_string());
            }
            if let Some(k) = i.get_remote_pubkey() {
                keys.push(("connection static", k.as_bytes(), None));
            }
        }
        "outage" => seams::with(|s| s.ent_out = st.arg(1) == 1),
        "ids" => {
            for _ in 0..st.arg(1).clamp(1, 100_000) {
                ids.push(new_channel_id());
            }
        }
        _ => {}
    }
    Ok(())
}

/// Runs `f` on a thread of the same machine (one entropy source, one clock).
fn on_thread<R: Send>(seam: &mut Seam, f: impl FnOnce() -> R + Send) -> R {
    let s0 = *seam;
    let (r, s1) = std::thread::scope(|sc| {
        sc.spawn(move || {
            seams::with(|s| *s = s0);
            let r = f();
            let s1 = seams::with(|s| {
                let c = *s;
                *s = seams::OFF;
                c
            });
            (r, s1)
        })
        .join()
        .map_err(|e| std::panic::resume_unwind(e))
        .unwrap()
    });
    *seam = s1;
    r
}

/// One machine's whole history under the given entropy.
fn history(steps: &[Step], mut seam: Seam, ctx: &mut Ctx) -> Result<(Vec<Key>, Vec<u32>, Seam), crate::scenario::Violation> {
    let (mut keys, mut ids) = (vec![], vec![]);
    let base = seam.ent_seed;
    // Steps without a thread of their own run in groups on one thread.
    let mut i = 0;
    while i < steps.len() {
        let mut j = i + 1;
        let own = |s: &Step| s.op == "clock" || s.op == "reseed" || s.arg(0) == 1;
        if !own(&steps[i]) {
            while j < steps.len() && !own(&steps[j]) {
                j += 1;
            }
        }
        match steps[i].op.as_str() {
            "clock" => {
                ctx.fault("clock_set");
                seam.secs = steps[i].arg(0);
            }
            "reseed" => {
                ctx.fault("entropy_source_restarted");
                seam.ent_seed = mix(&[base, steps[i].arg(0) as u64]);
                seam.ent_pos = 0;
            }
            _ => {
                let part = &steps[i..j];
                let (k, d, r) = on_thread(&mut seam, || {
                    let (mut k, mut d) = (vec![], vec![]);
                    let mut r = Ok(());
                    for st in part {
                        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make(st, &mut k, &mut d)));
                        r = match x {
                            // Without entropy there may be no key: refusing is right, and so is giving up.
                            _ if seams::with(|s| s.ent_out) => match x {
                                Err(_) => {
                                    crate::runner::take_panic();
                                    Ok(())
                                }
                                Ok(r) if r.is_err() => Ok(()),
                                Ok(r) => r,
                            },
                            Ok(r) => r,
                            Err(p) => std::panic::resume_unwind(p),
                        };
                        if r.is_err() {
                            break;
                        }
                    }
                    (k, d, r)
                });
                r?;
                keys.extend(k);
                ids.extend(d);
            }
        }
        i = j;
    }
    Ok((keys, ids, seam))
}

fn distinct(all: &[&[Key]]) -> Outcome {
    let mut seen: HashMap<[u8; 32], (usize, &str)> = HashMap::new();
    for (h, ks) in all.iter().enumerate() {
        for k in ks.iter() {
            if let Some((h0, w)) = seen.insert(k.1, (h, k.0)) {
                let c = if h0 == h { "a key was used again" } else { "the same key under different OS entropy" };
                return viol(c, format!("{} and {}: {}", w, k.0, hex(&k.1)));
            }
        }
    }
    Ok(())
}

fn spread(v: &[u32]) -> Outcome {
    let n = v.len();
    let set: HashSet<u32> = v.iter().copied().collect();
    if n - set.len() > 8 {
        return viol("channel ids repeat", format!("{} of {} ids are repeats", n - set.len(), n));
    }
    for (what, f) in [("high", (|x: u32| x >> 26) as fn(u32) -> u32), ("low", |x: u32| x & 63), ("middle", |x: u32| x >> 13 & 63)] {
        let mut c = [0usize; 64];
        for x in v {
            c[f(*x) as usize] += 1;
        }
        // 312 expected per bucket of 20000 ids.
        if let Some(b) = c.iter().position(|k| *k < n / 64 / 4) {
            return viol("channel ids are not spread", format!("only {} of {} ids have {} six bits {}", c[b], n, what, b));
        }
    }
    Ok(())
}

fn bits(kind: i64, privs: &[[u8; 32]]) -> Outcome {
    let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
    for p in privs {
        for i in 0..32 {
            ones[i] |= p[i];
            zeros[i] |= !p[i];
        }
        if p.windows(8).any(|w| w.iter().all(|b| *b == w[0])) {
            return viol("a private key is not fully random", hex(p));
        }
    }
    // Bits an X25519 key may fix by definition.
    for i in 0..32 {
        let m = match i {
            0 if kind != 0 => 0xf8,
            31 if kind != 0 => 0x3f,
            _ => 0xff,
        };
        if ones[i] & m != m || zeros[i] & m != m {
            return viol("private key bits are stuck", format!("byte {} of {} keys: ever one {:02x}, ever zero {:02x}", i, privs.len(), ones[i], zeros[i]));
        }
    }
    Ok(())
}

/// What a freshly started process prints for `vsim keys`.
pub fn child(ent: u64, clock: i64) {
    crate::runner::arm_seams(ent);
    seams::set_clock(clock, 0);
    let (mut keys, mut ids) = (vec![], vec![]);
    let st = |op: &str, a: &[i64]| Step { op: op.into(), a: a.to_vec() };
    let mut r = Ok(());
    for s in [st("auth", &[]), st("session", &[0, 0, 0]), st("static", &[]), st("conn", &[]), st("ids", &[0, 8]), st("session", &[0, 15, 2])] {
        if r.is_ok() {
            r = make(&s, &mut keys, &mut ids);
        }
    }
    seams::with(|s| s.active = false);
    if let Err(v) = r {
        println!("error {}", v.detail);
    }
    for k in keys {
        println!("key {}", hex(&k.1));
    }
    println!("ids {:?}", ids);
}

fn restart(ent: u64, clock: i64) -> (Vec<String>, String) {
    let out = std::process::Command::new(std::env::current_exe().expect("exe")).args(["keys", &ent.to_string(), &clock.to_string()]).output().expect("child");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    if !t.contains("ids ") {
        eprintln!("internal error: restarted process printed {:?} {}", t, String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    (t.lines().filter(|l| l.starts_with("key ")).map(|l| l.to_string()).collect(), t.lines().find(|l| l.starts_with("ids ")).unwrap_or("").to_string())
}

/// Generates every kind of thing the mask selects.
fn batch(mask: i64, ids: i64) -> Result<(Vec<[u8; 32]>, Vec<u32>), String> {
    let (mut keys, mut out) = (vec![], vec![]);
    let st = |op: &str, a: &[i64]| Step { op: op.into(), a: a.to_vec() };
    for (b, s) in [st("static", &[]), st("session", &[0, 0, 0]), st("auth", &[]), st("conn", &[]), st("session", &[0, 15, 2])].iter().enumerate() {
        if mask >> b & 1 == 1 {
            make(s, &mut keys, &mut out).map_err(|v| v.detail)?;
        }
    }
    if ids > 0 {
        make(&st("ids", &[0, ids]), &mut keys, &mut out).map_err(|v| v.detail)?;
    }
    Ok((keys.iter().map(|k| k.1).collect(), out))
}

/// What each of the processes (this one last) makes after a fork.
fn forked(warm: i64, children: i64, mask: i64, ids: i64) -> Result<(Vec<[u8; 32]>, Vec<(Vec<[u8; 32]>, Vec<u32>)>), String> {
    let first = batch(warm, ids)?.0;
    let mut all = vec![];
    for n in 0..children {
        let mut fd = [0i32; 2];
        if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 {
            eprintln!("internal error: pipe");
            std::process::exit(2);
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            // The operating system gives another process other bytes.
            seams::with(|s| s.ent_seed = mix(&[s.ent_seed, n as u64, 0xF02C]));
            let r = std::panic::catch_unwind(|| batch(mask, ids));
            seams::with(|s| s.active = false);
            let mut b = vec![];
            match r {
                Ok(Ok((k, i))) => {
                    b.push(1);
                    b.push(k.len() as u8);
                    k.iter().for_each(|k| b.extend_from_slice(k));
                    i.iter().for_each(|i| b.extend_from_slice(&i.to_le_bytes()));
                }
                Ok(Err(e)) => {
                    b.push(0);
                    b.extend_from_slice(e.as_bytes());
                }
                Err(_) => b.extend_from_slice(b"\0panic"),
            }
            unsafe {
                seams::raw_syscall(libc::SYS_write, fd[1] as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0);
                libc::_exit(0)
            }
        }
        unsafe { libc::close(fd[1]) };
        let mut b = vec![];
        let mut part = [0u8; 4096];
        loop {
            let k = unsafe { seams::raw_syscall(libc::SYS_read, fd[0] as i64, part.as_mut_ptr() as i64, 4096, 0, 0, 0) };
            if k == -(libc::EINTR as i64) {
                continue;
            }
            if k <= 0 {
                break;
            }
            b.extend_from_slice(&part[..k as usize]);
        }
        unsafe {
            libc::close(fd[0]);
            libc::waitpid(pid, std::ptr::null_mut(), 0);
        }
        match b.split_first() {
            Some((1, b)) => {
                let (k, i) = b[1..].split_at(32 * b[0] as usize);
                all.push((k.chunks(32).map(|c| c.try_into().unwrap()).collect(), i.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()));
            }
            Some((_, e)) => return Err(String::from_utf8_lossy(e).to_string()),
            None => return Err("the child died".into()),
        }
    }
    all.push(batch(mask, ids)?);
    Ok((first, all))
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let seam = seams::with(|s| *s);
    let main: Vec<Step> = s.steps.iter().filter(|t| ["auth", "static", "session", "conn", "ids", "clock", "reseed", "outage"].contains(&t.op.as_str())).cloned().collect();
    let (k1, i1, s1) = history(&main, seam, ctx)?;
    // The same history with the same clock, other entropy.
    let mut other = seam;
    other.ent_seed = mix(&[seam.ent_seed, 0xD1FF]);
    let (k2, i2, s2) = history(&main, other, ctx)?;
    seams::with(|s| {
        s.n_eintr += s1.n_eintr + s2.n_eintr;
        s.n_short += s1.n_short + s2.n_short;
        s.n_out += s1.n_out + s2.n_out;
    });
    for k in &k1 {
        ctx.ev_bytes(1, &k.1);
    }
    for i in &i1 {
        ctx.ev(&[2, *i as u64]);
    }
    if !main.is_empty() {
        ctx.fault("history_with_other_entropy");
    }
    distinct(&[&k1, &k2])?;
    if k1.len() != k2.len() {
        return viol("key generation depends on more than entropy", format!("{} and {} keys", k1.len(), k2.len()));
    }
    if i1.len() >= 4 && i1 == i2 {
        return viol("the same channel ids under different OS entropy", format!("{:?}", i1));
    }
    for w in i1.windows(4) {
        if w.iter().all(|x| *x == w[0]) {
            return viol("channel ids repeat", format!("{:?}", w));
        }
    }
    for st in &s.steps {
        match st.op.as_str() {
            "spread" => {
                let mut v = vec![];
                let mut sm = seam;
                sm.ent_seed ^= 77;
                if st.arg(0) == 0 {
                    v = on_thread(&mut sm, || (0..20_000).map(|_| new_channel_id()).collect());
                } else {
                    // A few on each of many threads, as connections come and go.
                    for _ in 0..400 {
                        let part: Vec<u32> = on_thread(&mut sm, || (0..50).map(|_| new_channel_id()).collect());
                        v.extend(part);
                    }
                }
                ctx.probe("id_spread_tests");
                ctx.ev(&[3, v[0] as u64, v[19_999] as u64]);
                spread(&v)?;
            }
            "bits" => {
                let kind = st.arg(0).rem_euclid(4);
                let mut sm = seam;
                sm.ent_seed ^= 79;
                let privs: Vec<[u8; 32]> = on_thread(&mut sm, || {
                    let mut v = vec![];
                    let mut hint = None;
                    for _ in 0..64 {
                        match kind {
                            0 => v.push(generate_authority_keypair().secret.to_bytes()),
                            1 => {
                                let k = Keypair::default();
                                v.extend(find_private(&k, &k.get_public_key().as_bytes(), &mut hint));
                            }
                            2 => {
                                let mut i = NoiseSession::init_session(true, &[], keypair([7; 32]).ok().unwrap());
                                let mut a = [0u8; 32];
                                if i.send_message(&mut a).is_ok() && v.len() < 40 {
                                    v.extend(find_private(&i, &a, &mut hint));
                                }
                            }
                            _ => {
                                let i = new_noise_initiator();
                                // Its static key pair: the private key is the window whose
                                // public key is also in the session.
                                let b = unsafe { std::slice::from_raw_parts(&i as *const _ as *const u8, std::mem::size_of::<NoiseSession>()) };
                                let test = |o: usize| -> Option<[u8; 32]> {
                                    let w: [u8; 32] = b[o..o + 32].try_into().unwrap();
                                    let p = x25519_pub(&w);
                                    (w != [0; 32] && b.windows(32).any(|x| x == p)).then_some(w)
                                };
                                let all = hint.iter().copied().chain(0..b.len() - 31);
                                if let Some(o) = all.into_iter().find(|o| test(*o).is_some()) {
                                    hint = Some(o);
                                    v.extend(test(o));
                                } else {
                                    break;
                                }
                            }
                        }
                    }
                    v
                });
                if privs.len() >= 40 {
                    ctx.probe("private_keys_inspected");
                    ctx.ev_bytes(4, &privs[0]);
                    bits(kind, &privs)?;
                }
            }
            "mass" => {
                let n = st.arg(1).clamp(1, 50_000);
                let mut sm = seam;
                sm.ent_seed ^= 81;
                let kind = st.arg(0).rem_euclid(4);
                let v: Vec<[u8; 32]> = on_thread(&mut sm, || {
                    (0..n)
                        .map(|_| match kind {
                            0 => generate_authority_keypair().public.to_bytes(),
                            1 => Keypair::default().get_public_key().as_bytes(),
                            2 => {
                                let mut i = NoiseSession::init_session(true, &[], keypair([7; 32]).ok().unwrap());
                                let mut a = [0u8; 32];
                                let _ = i.send_message(&mut a);
                                a
                            }
                            _ => {
                                let mut r = NoiseSession::init_session(false, &[], keypair([7; 32]).ok().unwrap());
                                let mut a = [9u8; 32];
                                let _ = r.recv_message(&mut a);
                                let mut b = [0u8; 96];
                                let _ = r.send_message(&mut b);
                                b[..32].try_into().unwrap()
                            }
                        })
                        .collect()
                });
                ctx.faults("sessions_in_one_process", v.len() as u64);
                ctx.ev_bytes(5, &v[v.len() - 1]);
                let set: HashSet<[u8; 32]> = v.iter().copied().collect();
                if set.len() != v.len() {
                    return viol("a key was used again", format!("{} of {} keys of kind {} are repeats", v.len() - set.len(), v.len(), kind));
                }
            }
            "fork" => {
                let mut sm = seam;
                sm.ent_seed ^= 85;
                let (mask, ids) = (st.arg(2) & 31, st.arg(3).clamp(0, 100));
                let n = st.arg(1).clamp(1, 6);
                ctx.faults("process_fork", n as u64);
                let (first, all) = match on_thread(&mut sm, || forked(st.arg(0) & 31, n, mask, ids)) {
                    Ok(v) => v,
                    Err(e) => return viol("key generation failed after a fork", e),
                };
                let mut set: HashSet<[u8; 32]> = first.into_iter().collect();
                for (p, (keys, _)) in all.iter().enumerate() {
                    for k in keys {
                        ctx.ev_bytes(7, k);
                        if !set.insert(*k) {
                            return viol("the same key in two processes after a fork", format!("process {}: {}", p, hex(k)));
                        }
                    }
                }
                // Ids are 32-bit: one coincidence among these is a matter of 1 in 10^6 or so.
                let mut seen = HashSet::new();
                let again = all.iter().flat_map(|(_, i)| i).filter(|i| !seen.insert(**i)).count();
                if again > 2 {
                    return viol("the same channel ids in two processes after a fork", format!("{} repeats", again));
                }
                ctx.probe("forks");
            }
            "restart" => {
                ctx.fault("process_restart");
                let (a, ai) = restart(mix(&[s.seed, 1]), st.arg(0));
                let (b, bi) = restart(mix(&[s.seed, 2]), st.arg(0));
                ctx.ev(&[6, a.len() as u64]);
                for l in a.iter().chain([&ai]) {
                    ctx.ev_bytes(6, l.as_bytes());
                }
                let mut set = HashSet::new();
                for k in a.iter().chain(b.iter()) {
                    if !set.insert(k) {
                        return viol("the same key after a restart", k.clone());
                    }
                }
                if ai == bi {
                    return viol("the same channel ids after a restart", ai);
                }
                ctx.probe("restarts");
            }
            _ => {}
        }
    }
    Ok(())
}
