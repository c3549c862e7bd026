//! No keystream is ever used twice and exhausted keys refuse to encrypt.
use crate::crypto;
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C09",
    gen,
    exec,
    quick: 16_000,
    thorough: 500_000,
    rule: "Several sessions with one static key encrypt known plaintexts in both directions, interleaved with refused and failed calls, rekeys, and message numbers fast-forwarded to 2^8, 2^16, 2^32, 2^63 and the last number; every keystream block seen on the wire goes into one set.",
    real: "nx-noise sessions and primitives",
    stub: "the network; message numbers are fast-forwarded through the guarded hook",
    assumptions: &["two equal 32-byte keystream prefixes mean a reused keystream", "fast-forward sets both ends as if that many messages had passed"],
};

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Scenario {
    let mut s = Scenario::new("C09", 0);
    if idx % 2000 == 5 {
        // A long session: past 2^16 messages in one direction for real.
        s.push("burst", &[0, r.below(2) as i64, if thorough && idx % 32000 == 5 { 2_000_000 } else { 70_000 }]);
        s.push("msg", &[0, 0, 48]);
        return s;
    }
    let mode = r.below(3);
    if mode == 0 {
        // Known keys, message numbers near the boundaries.
        for _ in 0..r.range(1, 3) {
            let base: i128 = *r.pick(&[255i128, 256, 65535, 65536, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, 0x1_0001_0000, i64::MAX as i128, u64::MAX as i128, u64::MAX as i128, u64::MAX as i128]);
            let n = (base - r.range(0, 4) as i128).clamp(0, u64::MAX as i128) as u64;
            s.push("warp", &[r.below(2) as i64, n as i64]);
            for _ in 0..r.range(1, 9) {
                match r.below(8) {
                    0 => s.push("wfail", &[r.below(2) as i64, r.below(4) as i64]),
                    1 => s.push("wrekey", &[r.below(2) as i64]),
                    _ => s.push("wmsg", &[r.below(2) as i64, 32 + r.below(40) as i64]),
                }
            }
        }
        return s;
    }
    let n = r.range(5, 60);
    for _ in 0..n {
        let k = r.below(3) as i64;
        let d = r.below(2) as i64;
        match r.below(12) {
            0..=6 => s.push("msg", &[k, d, 48 + r.below(60) as i64]),
            7 => s.push("fail", &[k, d, r.below(5) as i64]),
            8 => s.push("rekey", &[k, d]),
            9 => s.push("badsend", &[k, d, nz::bad_size(r, 16) as i64]),
            10 => s.push("lost", &[k, d]),
            _ => s.push("restart", &[k]),
        }
    }
    s
}

struct Seen(BTreeMap<[u8; 16], String>);
impl Seen {
    fn add(&mut self, ks: &[u8], what: String) -> Outcome {
        let mut k = [0; 16];
        k.copy_from_slice(&ks[..16]);
        if let Some(o) = self.0.insert(k, what.clone()) {
            return viol("keystream reused", format!("{} uses the keystream of {}", what, o));
        }
        Ok(())
    }
}

struct Link {
    i: NoiseSession,
    r: NoiseSession,
}

fn open_link(seed: u64, n: u64, seen: &mut Seen, ctx: &mut Ctx) -> Result<Link, crate::scenario::Violation> {
    // Same static key in every session.
    let rs = secret(&[seed, 2]);
    let mut i = NoiseSession::init_session(true, &[], keypair(secret(&[seed, 3]))?);
    let mut r = NoiseSession::init_session(false, &[], keypair(rs)?);
    let mut m = vec![0u8; 40];
    let mut b = vec![0u8; 32 + 48 + 48 + 16];
    let e = |w: &str, r: Result<(), noiseexplorer_nx::error::NoiseError>| r.map_err(|e| crate::scenario::Violation { class: "handshake setup".into(), detail: format!("{}: {}", w, e) });
    e("send A", i.send_message(&mut m))?;
    e("recv A", r.recv_message(&mut m))?;
    e("send B", r.send_message(&mut b))?;
    let s_pub = crypto::x25519_pub(&rs);
    let ks: Vec<u8> = b[32..64].iter().zip(&s_pub).map(|(x, y)| x ^ y).collect();
    seen.add(&ks, format!("session {} static key encryption", n))?;
    seen.add(&b[80..96], format!("session {} handshake payload", n))?;
    seen.add(&b[96..112], format!("session {} handshake payload, second block", n))?;
    ctx.ev_bytes(1, &b);
    e("recv B", i.recv_message(&mut b))?;
    Ok(Link { i, r })
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut seen = Seen(BTreeMap::new());
    let mut links: Vec<Link> = vec![];
    let mut count = 0u64;
    let mut warp: Option<Warp> = None;
    for (n, t) in s.steps.iter().enumerate() {
        let k = t.arg(0).rem_euclid(3) as usize;
        let d = t.arg(1) & 1;
        if matches!(t.op.as_str(), "msg" | "fail" | "rekey" | "badsend" | "lost" | "restart" | "burst") {
            while links.len() <= k {
                count += 1;
                links.push(open_link(s.seed, count, &mut seen, ctx)?);
            }
        }
        match t.op.as_str() {
            "msg" | "lost" => {
                let len = t.arg(2).clamp(48, 65535) as usize;
                let l = &mut links[k];
                let (a, b) = if d == 0 { (&mut l.i, &mut l.r) } else { (&mut l.r, &mut l.i) };
                let mut m = vec![0u8; len];
                if let Err(e) = a.send_message(&mut m) {
                    return viol("send refused", format!("{}", e));
                }
                ctx.ev_bytes(d as u64, &m);
                seen.add(&m, format!("session {} direction {} (step {})", k, d, n))?;
                if len >= 48 {
                    seen.add(&m[16..32], format!("session {} direction {} (step {}), second block", k, d, n))?;
                }
                if t.op == "lost" {
                    ctx.fault("lost");
                } else {
                    let _ = b.recv_message(&mut m);
                }
            }
            "burst" => {
                let l = &mut links[k];
                let total = t.arg(2).clamp(0, 4_000_000) as u64;
                let (a, b) = if d == 0 { (&mut l.i, &mut l.r) } else { (&mut l.r, &mut l.i) };
                let mut m = [0u8; 48];
                for x in 0..total {
                    m = [0; 48];
                    if let Err(e) = a.send_message(&mut m) {
                        return viol("send refused", format!("message {}: {}", x, e));
                    }
                    seen.add(&m, format!("message {} of a long session", x))?;
                    if x % 1000 == 999 {
                        let mut z = m;
                        z[0] ^= 1;
                        let _ = b.recv_message(&mut z);
                        ctx.fault("failed_receive");
                    }
                    if let Err(e) = b.recv_message(&mut m) {
                        return viol("genuine message refused", format!("message {}: {}", x, e));
                    }
                }
                ctx.max("longest_session", total);
                ctx.ev_bytes(3, &m);
            }
            "fail" => {
                let l = &mut links[k];
                let a = if d == 0 { &mut l.r } else { &mut l.i };
                let mut m = match t.arg(2) {
                    0 => vec![0; 16],
                    1 => vec![0; 100],
                    2 => vec![0xff; 64],
                    3 => vec![0; 15],
                    _ => Rng::from(&[s.seed, n as u64]).bytes(80),
                };
                if a.recv_message(&mut m).is_ok() {
                    return viol("forgery accepted", format!("{} bytes", m.len()));
                }
                ctx.fault("failed_receive");
            }
            "badsend" => {
                let l = &mut links[k];
                let a = if d == 0 { &mut l.i } else { &mut l.r };
                let len = t.arg(2).clamp(0, 200_000) as usize;
                if !(16..=65535).contains(&len) {
                    let mut m = vec![0; len];
                    let _ = a.send_message(&mut m);
                    ctx.fault("refused_send");
                    // Whatever a refused call left in the caller's buffer is out of the session too.
                    for (b, c) in m.chunks_exact(16).take(2).enumerate() {
                        if c.iter().any(|x| *x != 0) {
                            seen.add(c, format!("session {} direction {} (step {}), a refused send, block {}", k, d, n, b))?;
                        }
                    }
                }
            }
            "rekey" => {
                let l = &mut links[k];
                if d == 0 {
                    l.i.rekey_local_cipherstate();
                    l.r.rekey_local_cipherstate();
                } else {
                    l.i.rekey_remote_cipherstate();
                    l.r.rekey_remote_cipherstate();
                }
                ctx.fault("rekey");
                ctx.ev(&[9, d as u64]);
            }
            "restart" => {
                count += 1;
                links[k] = open_link(s.seed, count, &mut seen, ctx)?;
                ctx.fault("restart");
            }
            "warp" | "wmsg" | "wfail" | "wrekey" => {
                if warp.is_none() {
                    let (p, keys, _) = nz::known_handshake(&[], secret(&[s.seed, 20]), secret(&[s.seed, 21]), secret(&[s.seed, 22]))?;
                    warp = Some(Warp { i: p.i, r: p.r, dirs: [keys.ir, keys.ri] });
                }
                if let Some(w) = warp.as_mut() {
                    w.step(&t.op, t.arg(0), t.arg(1), n, s.seed, &mut seen, ctx)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// A session whose keys the reference knows.
struct Warp {
    i: NoiseSession,
    r: NoiseSession,
    dirs: [crypto::RefDir; 2],
}
impl Warp {
    fn step(&mut self, op: &str, x: i64, y: i64, n: usize, seed: u64, seen: &mut Seen, ctx: &mut Ctx) -> Outcome {
        let d = (x & 1) as usize;
        match op {
            "warp" => {
                #[cfg(verif_sim)]
                {
                    let to = y as u64;
                    // Message numbers only ever move forward.
                    if to > self.dirs[d].n {
                        self.dirs[d].n = to;
                        let (a, b) = (self.dirs[0].n, self.dirs[1].n);
                        self.i.verif_set_message_numbers(a, b);
                        self.r.verif_set_message_numbers(a, b);
                        ctx.fault("fast_forward");
                    }
                }
                #[cfg(not(verif_sim))]
                let _ = y;
            }
            "wrekey" => {
                if d == 0 {
                    self.i.rekey_local_cipherstate();
                    self.r.rekey_local_cipherstate();
                } else {
                    self.i.rekey_remote_cipherstate();
                    self.r.rekey_remote_cipherstate();
                }
                self.dirs[d].rekey();
                ctx.fault("rekey");
            }
            "wfail" => {
                let b = if d == 0 { &mut self.r } else { &mut self.i };
                let len = [16, 64, 15, 200][(y & 3) as usize];
                if b.recv_message(&mut Rng::from(&[seed, n as u64]).bytes(len)).is_ok() {
                    return viol("forgery accepted", "");
                }
                ctx.fault("failed_receive");
            }
            _ => {
                let len = y.clamp(16, 60000) as usize;
                let (a, b) = if d == 0 { (&mut self.i, &mut self.r) } else { (&mut self.r, &mut self.i) };
                let num = self.dirs[d].n;
                let mut m = vec![0u8; len + 16];
                let ok = a.send_message(&mut m).is_ok();
                ctx.ev(&[num, ok as u64, d as u64]);
                if num == u64::MAX {
                    ctx.fault("exhausted");
                    if ok {
                        return viol("sent with an exhausted key", format!("direction {}", d));
                    }
                    if m[..16].iter().any(|x| *x != 0) {
                        seen.add(&m, format!("direction {} a refused send with an exhausted key (step {})", d, n))?;
                    }
                    // A peer that ignores the limit is not accepted either.
                    for z in [u64::MAX, 0, 1] {
                        let mut f = crypto::seal(&self.dirs[d].key, z, &[], &vec![0; len]);
                        if b.recv_message(&mut f).is_ok() {
                            return viol("accepted with an exhausted key", format!("direction {} number {}", d, z));
                        }
                    }
                    ctx.probe("exhaustion_refused");
                    return Ok(());
                }
                if !ok {
                    return viol("send refused", format!("message number {}", num));
                }
                seen.add(&m, format!("direction {} message number {}", d, num))?;
                if m != crypto::seal(&self.dirs[d].key, num, &[], &vec![0; len]) {
                    return viol("wrong message number used", format!("direction {} message number {}", d, num));
                }
                if let Err(e) = b.recv_message(&mut m) {
                    return viol("genuine message refused", format!("message number {}: {}", num, e));
                }
                self.dirs[d].n += 1;
                ctx.probe("warped_message");
            }
        }
        Ok(())
    }
}
