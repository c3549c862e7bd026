//! Session memory keeps no secret that would expose past traffic.
use crate::alloc;
use crate::crypto::{self, RefKeys, RefResponder};
use crate::nz::{self, keypair, secret};
use crate::props::c15::find_private;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Violation};
use noiseexplorer_nx::noisesession::NoiseSession;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

pub const PROP: Prop = Prop {
    id: "C16",
    gen,
    exec,
    quick: 40_000,
    thorough: 1_200_000,
    rule: "Two sessions with secrets known to the simulator complete a handshake (after refused calls) and then exchange, refuse, rekey and clear in any order; after completion and after every later step a crash image of each session (its own memory and every heap block it still holds) is searched for each secret that must be gone, in 8-byte pieces so that partial erasure is seen. Connections with keys from OS entropy are imaged too: the ephemeral private key is located before completion and must be gone after.",
    real: "nx-noise sessions and primitives; stratumv2 ConnectionEncryptor",
    stub: "the network; the memory image stands for a crash dump",
    assumptions: &["only memory owned by the session is imaged: copies left on the stack or in freed heap blocks are out of reach of the claim"],
};

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C16", 0);
    if r.chance(1, 60) {
        s.push("real", &[r.below(4) as i64]);
        return s;
    }
    s.push("shake", &[r.below(8) as i64, nz::msg_size(r, 32, false) as i64, nz::msg_size(r, 96, false) as i64, r.below(2) as i64]);
    for _ in 0..r.range(0, 14) {
        let d = r.below(2) as i64;
        let side = r.below(2) as i64;
        match r.below(9) {
            0..=2 => s.push("msg", &[d, nz::msg_size(r, 16, false) as i64]),
            3 => s.push("junk", &[side, nz::msg_size(r, 16, false) as i64]),
            4 => s.push("badlen", &[side, nz::bad_size(r, 16) as i64]),
            5 | 6 => s.push("rekey", &[side, d]),
            7 => s.push("both", &[d]),
            _ => s.push("clear", &[side, d]),
        }
    }
    s
}

fn image<T>(t: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }
}

struct Search {
    /// First 8 bytes of every piece, and what it belongs to.
    pieces: Vec<([u8; 8], String)>,
}
impl Search {
    fn new() -> Search {
        Search { pieces: vec![] }
    }
    fn add(&mut self, what: &str, k: &[u8; 32]) {
        let mut clamped = *k;
        clamped[0] &= 248;
        clamped[31] = (clamped[31] & 127) | 64;
        for (o, src) in [(0, k), (8, k), (16, k), (24, k), (0, &clamped), (24, &clamped)] {
            let p: [u8; 8] = src[o..o + 8].try_into().unwrap();
            if p != [0; 8] {
                self.pieces.push((p, what.to_string()));
            }
        }
    }
    fn find(&self, b: &[u8]) -> Option<&str> {
        if b.len() < 8 {
            return None;
        }
        for w in b.windows(8) {
            if w[0] == 0 && w[1] == 0 {
                // Cheap way over cleared memory; a piece starting with two zero bytes is
                // found through its neighbours.
                continue;
            }
            if let Some(p) = self.pieces.iter().find(|p| p.0 == w) {
                return Some(&p.1);
            }
        }
        None
    }
}

fn look<T>(s: &Search, o: &T, when: &str, ctx: &mut Ctx) -> Outcome {
    ctx.probe("images_searched");
    if let Some(w) = s.find(image(o)) {
        return viol("a secret is still in the session's memory", format!("{}: {}", when, w));
    }
    let mut hit = None;
    alloc::each_tracked(|b| {
        if hit.is_none() {
            hit = s.find(b).map(|x| x.to_string());
        }
    });
    if let Some(w) = hit {
        return viol("a secret is still in memory the session holds", format!("{}: {}", when, w));
    }
    Ok(())
}

fn real(kind: i64, seed: u64, ctx: &mut Ctx) -> Outcome {
    let mut i = ConnectionEncryptor::new_outbound();
    let given = secret(&[seed, 31]);
    let mut r = ConnectionEncryptor::new_inbound(if kind & 2 == 2 { Some(keypair(given)?) } else { None });
    let a = match i.init_handshake() {
        Ok(a) => a,
        Err(e) => return viol("handshake setup", e.to_string()),
    };
    let epub: [u8; 32] = a[..32].try_into().unwrap();
    let mut hint = None;
    let e = find_private(&i, &epub, &mut hint);
    ctx.fault("crash_image");
    let mut s = Search::new();
    if kind & 2 == 2 {
        s.add("the responder's static private key", &given);
    }
    if let Some(e) = e {
        ctx.probe("ephemeral_located");
        s.add("the initiator's ephemeral private key", &e);
    }
    let b = match r.recv_handshake(&mut a.clone()) {
        Ok(b) => b,
        Err(e) => return viol("handshake setup", e.to_string()),
    };
    let bpub: [u8; 32] = b[..32].try_into().unwrap();
    if kind == 1 && find_private(&r, &bpub, &mut None).is_some() {
        return viol("a secret is still in the session's memory", "the responder's ephemeral private key, on completion");
    }
    if let Err(e) = i.recv_handshake(&mut b.clone()) {
        return viol("handshake setup", e.to_string());
    }
    if let Some(k) = i.get_remote_pubkey() {
        if kind == 0 && find_private(&r, &k.as_bytes(), &mut None).is_some() {
            return viol("a secret is still in the session's memory", "the responder's static private key, on completion");
        }
    }
    ctx.ev_bytes(9, &epub);
    look(&s, &r, "on completion, the responder's connection", ctx)?;
    look(&s, &i, "on completion", ctx)
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    alloc::forget_tracked();
    let r = run(s, ctx);
    alloc::forget_tracked();
    r
}

fn run(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    if let Some(t) = s.steps.iter().find(|t| t.op == "real") {
        return real(t.arg(0), s.seed, ctx);
    }
    let sh = s.steps.iter().find(|t| t.op == "shake").cloned();
    let g = |i: usize, d: i64| sh.as_ref().map_or(d, |t| t.arg(i));
    let mut rng = Rng::from(&[s.seed, 1]);
    let (ie, re, is, rs) = (secret(&[s.seed, 2]), secret(&[s.seed, 3]), secret(&[s.seed, 4]), secret(&[s.seed, 5]));
    let fail = |w: &str, e: noiseexplorer_nx::error::NoiseError| -> Violation { Violation { class: "handshake setup".into(), detail: format!("{}: {}", w, e) } };
    let (mut i, mut r) = alloc::tracked(|| -> Result<_, Violation> {
        let mut i = NoiseSession::init_session(true, &[], keypair(is)?);
        let mut r = NoiseSession::init_session(false, &[], keypair(rs)?);
        i.set_ephemeral_keypair(keypair(ie)?);
        r.set_ephemeral_keypair(keypair(re)?);
        Ok((i, r))
    })?;
    let pokes = g(0, 0);
    let mut poke = |x: &mut NoiseSession, bit: i64, ctx: &mut Ctx| {
        if pokes >> bit & 1 == 1 {
            ctx.fault("refused_call_in_handshake");
            let mut b = rng.bytes(20);
            let _ = alloc::tracked(|| x.send_message(&mut b[..9]));
            let _ = alloc::tracked(|| x.recv_message(&mut b));
        }
    };
    poke(&mut i, 0, ctx);
    poke(&mut r, 0, ctx);
    let mut a = vec![3u8; g(1, 64).clamp(32, 4000) as usize];
    alloc::tracked(|| i.send_message(&mut a)).map_err(|e| fail("send A", e))?;
    poke(&mut i, 1, ctx);
    let mut aa = a.clone();
    alloc::tracked(|| r.recv_message(&mut aa)).map_err(|e| fail("recv A", e))?;
    poke(&mut r, 2, ctx);
    let mut b = vec![5u8; g(2, 128).clamp(96, 4000) as usize];
    let pb = b[80..b.len() - 16].to_vec();
    alloc::tracked(|| r.send_message(&mut b)).map_err(|e| fail("send B", e))?;
    // What the specification derives from these secrets.
    let mut rr = RefResponder::new(&[], rs, re);
    rr.read_a(&a);
    let (rb, keys) = rr.write_b(&pb);
    let known = rb == b;
    if !known {
        ctx.probe("derived_keys_unknown");
    }
    let keys: RefKeys = keys;
    let mut trail = rr.sym.trail.clone();
    trail.push(rr.sym.ck);
    let base = |who: usize| {
        let mut x = Search::new();
        let (e, st) = if who == 0 { (&ie, &is) } else { (&re, &rs) };
        x.add("its ephemeral private key", e);
        x.add("its static private key", st);
        for (n, t) in trail.iter().enumerate().filter(|_| known) {
            x.add(if n % 2 == 0 { "a handshake chaining key" } else { "a handshake encryption key" }, t);
        }
        x
    };
    let mut gone = [base(0), base(1)];
    if g(3, 0) == 1 {
        // The responder dies before its reply is delivered.
        ctx.fault("crash_image");
        look(&gone[1], &r, "responder, reply just sent", ctx)?;
    }
    alloc::tracked(|| i.recv_message(&mut b)).map_err(|e| fail("recv B", e))?;
    if !i.is_transport() || !r.is_transport() {
        return viol("handshake setup", "not complete");
    }
    let mut key = [[keys.ir.key, keys.ri.key]; 2];
    let mut dead = [[false; 2]; 2];
    let mut ss = [i, r];
    for w in 0..2 {
        look(&gone[w], &ss[w], if w == 0 { "initiator, on completion" } else { "responder, on completion" }, ctx)?;
    }
    for (n, st) in s.steps.iter().enumerate().filter(|t| t.1.op != "shake") {
        let side = (st.arg(0) & 1) as usize;
        let mut rk = |ss: &mut [NoiseSession; 2], side: usize, d: usize| {
            alloc::tracked(|| if d == 0 { ss[side].rekey_local_cipherstate() } else { ss[side].rekey_remote_cipherstate() });
            if !dead[side][d] {
                let old = key[side][d];
                gone[side].add("a key from before a rekey", &old);
                key[side][d] = crypto::rekey(&old);
            }
        };
        match st.op.as_str() {
            "msg" => {
                let d = side;
                let mut m = vec![n as u8; st.arg(1).clamp(16, 4000) as usize];
                if alloc::tracked(|| ss[d].send_message(&mut m)).is_ok() {
                    let _ = alloc::tracked(|| ss[1 - d].recv_message(&mut m));
                }
            }
            "junk" => {
                ctx.fault("forged_message");
                let mut m = vec![n as u8; st.arg(1).clamp(16, 4000) as usize];
                let _ = alloc::tracked(|| ss[side].recv_message(&mut m));
            }
            "badlen" => {
                ctx.fault("refused_length");
                let mut m = vec![n as u8; st.arg(1).clamp(0, 100_000) as usize];
                let _ = alloc::tracked(|| ss[side].send_message(&mut m));
            }
            "rekey" => {
                ctx.fault("rekey_one_end");
                rk(&mut ss, side, (st.arg(1) & 1) as usize);
            }
            "both" => {
                ctx.fault("rekey");
                rk(&mut ss, 0, side);
                rk(&mut ss, 1, side);
            }
            "clear" => {
                ctx.fault("clear");
                let d = (st.arg(1) & 1) as usize;
                alloc::tracked(|| if d == 0 { ss[side].clear_local_cipherstate() } else { ss[side].clear_remote_cipherstate() });
                if !dead[side][d] {
                    gone[side].add("the key of a cleared direction", &key[side][d]);
                    dead[side][d] = true;
                }
            }
            _ => {}
        }
        ctx.ev(&[n as u64, side as u64, st.arg(1) as u64]);
        ctx.fault("crash_image");
        for w in 0..2 {
            look(&gone[w], &ss[w], &format!("{}, after step {} ({})", if w == 0 { "initiator" } else { "responder" }, n, st.op), ctx)?;
        }
    }
    ctx.ev_bytes(3, &keys.hash);
    Ok(())
}
