//! Memory stays bounded over a long life and is given back.
use crate::alloc;
use crate::glue;
use crate::nz::{self, secret};
use crate::rng::{mix, Rng};
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Step};
use crate::streams::{FaultyWriter, W};
use crate::wire;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};
use std::collections::VecDeque;
use stratumv2::bitcoin::util::base58;
use stratumv2::codec::Message;
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{generate_authority_keypair, AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticKeyPair};
use stratumv2::types::MessageType;

pub const PROP: Prop = Prop {
    id: "C19",
    gen,
    exec,
    quick: 1_500,
    thorough: 150_000,
    rule: "A node with long-lived sessions, connections and a queue repeats a random program of traffic, refused and tampered input, rekeys, handshakes completed and abandoned, certificate checks, encoding to failing streams, decoding of junk, queueing and draining, hundreds to thousands of times with fresh contents; the bytes it holds must not grow with the number of repetitions, a queue must hold memory proportional to what is in it, one call must need memory proportional to its input, and dropping everything must give all memory back.",
    real: "stratumv2 and nx-noise, std collections, the rand crates",
    stub: "the allocator (counting), streams, OS entropy and clock",
    assumptions: &["memory allocated by C code is not counted (the linked primitives allocate none)"],
};

/// Far above bookkeeping noise (which is zero), far below one leaked word per repetition.
const SLACK: i64 = 2048;
pub(crate) const WARM: u64 = 10;

const OPS: &[&str] = &["traffic", "traffic", "refuse", "refuse", "turn", "rekey", "hs", "hs", "conn", "conn", "code", "junk", "wfail", "cert", "cert", "queue", "keys", "look"];

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C19", 0);
    let n = r.range(1, 4);
    let mut slow = false;
    for _ in 0..n {
        let op = *r.pick(OPS);
        slow |= matches!(op, "hs" | "conn" | "cert" | "keys" | "rekey" | "look");
        let a = match op {
            "traffic" => vec![r.below(2) as i64, nz::msg_size(r, 16, false) as i64],
            "refuse" => vec![r.below(2) as i64, nz::msg_size(r, 16, false) as i64, r.below(5) as i64],
            "turn" => vec![r.below(2) as i64, r.below(300) as i64, r.below(2) as i64],
            "rekey" => vec![r.below(2) as i64],
            "hs" => vec![nz::msg_size(r, 32, false) as i64, nz::msg_size(r, 96, false) as i64, r.below(7) as i64, r.tag()],
            "conn" => vec![r.below(7) as i64, r.below(300) as i64],
            "code" => vec![r.below(wire::ALL.len() as u64) as i64],
            "junk" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(200) as i64],
            "wfail" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(60) as i64],
            "cert" => vec![r.below(6) as i64],
            "queue" => vec![r.range(1, 40), r.below(200) as i64],
            _ => vec![r.below(4) as i64],
        };
        s.push(op, &a);
    }
    s.push("times", &[if slow { r.range(120, 260) } else { r.range(300, 2500) }]);
    s
}

pub(crate) struct World {
    link: [NoiseSession; 2],
    conn: [ConnectionEncryptor; 2],
    peer: Peer<ConnectionEncryptor>,
}

pub(crate) fn mk(k: [u8; 32]) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(k)).expect("a private key")
}

pub(crate) fn world(seed: u64, pool: &StaticKeyPair) -> Result<World, crate::scenario::Violation> {
    let p = nz::handshake(b"", secret(&[seed, 1]), secret(&[seed, 2]), 64, 128, &mut Rng::from(&[seed, 3]))?;
    let mut o = ConnectionEncryptor::new_outbound();
    let mut i = ConnectionEncryptor::new_inbound(Some(pool.clone()));
    let r = o.init_handshake().and_then(|mut a| i.recv_handshake(&mut a)).and_then(|mut b| o.recv_handshake(&mut b));
    if let Err(e) = r {
        return viol("handshake setup", e.to_string());
    }
    Ok(World { link: [p.i, p.r], conn: [o, i], peer: Peer::new(ConnectionEncryptor::new_inbound(Some(pool.clone()))) })
}

thread_local! {
    /// A running digest of everything calls returned, where somebody asked for it.
    pub(crate) static RECORD: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
fn rec(b: &[u8]) {
    if let Some(h) = RECORD.get() {
        let f = b.chunks(8).fold(mix(&[h, b.len() as u64]), |h, c| {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)
        });
        RECORD.set(Some(f));
    }
}
fn said<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, E> {
    if RECORD.get().is_some() {
        match &r {
            Ok(_) => rec(b"ok"),
            Err(e) => rec(e.to_string().as_bytes()),
        }
    }
    r
}

/// One operation; everything it makes is dropped before it returns. The error is the
/// name of a call that did not do what it had to.
pub(crate) fn op(w: &mut World, t: &Step, pool: &StaticKeyPair, auth: &AuthorityKeyPair, auth58: &str, r: &mut Rng) -> Result<(), &'static str> {
    match t.op.as_str() {
        "traffic" => {
            let d = t.arg(0) as usize & 1;
            let mut m = r.bytes(t.arg(1).clamp(16, 65535) as usize);
            w.link[d].send_message(&mut m).map_err(|_| "send")?;
            rec(&m);
            w.link[1 - d].recv_message(&mut m).map_err(|_| "receive")?;
            rec(&m);
        }
        "refuse" => {
            let d = t.arg(0) as usize & 1;
            let mut m = r.bytes(t.arg(1).clamp(16, 65535) as usize);
            match t.arg(2) {
                0 => {}
                1 => m.truncate((r.below(16)) as usize),
                2 => m.resize(65536 + r.below(40) as usize, 1),
                _ => {
                    // A genuine message modified on the way, then delivered properly.
                    w.link[1 - d].send_message(&mut m).map_err(|_| "send")?;
                    rec(&m);
                    let mut bad = m.clone();
                    let at = r.below(bad.len() as u64) as usize;
                    bad[at] ^= 1 << r.below(8);
                    if said(w.link[d].recv_message(&mut bad)).is_ok() {
                        return Err("refusal of a modified message");
                    }
                    w.link[d].recv_message(&mut m).map_err(|_| "receive")?;
                    return Ok(());
                }
            }
            if t.arg(2) == 2 && r.chance(1, 2) {
                if said(w.link[d].send_message(&mut m)).is_ok() {
                    return Err("refusal of an oversized message");
                }
            } else if said(w.link[d].recv_message(&mut m)).is_ok() {
                return Err("refusal of junk");
            }
        }
        "turn" => {
            // A finished connection is asked to shake hands again.
            let c = &mut w.conn[t.arg(0) as usize & 1];
            let mut m = r.bytes(t.arg(1).max(0) as usize);
            if t.arg(2) == 0 {
                let _ = said(c.init_handshake()).map(|m| rec(&m));
            } else {
                let _ = said(c.recv_handshake(&mut m)).map(|m| rec(&m));
            }
        }
        "rekey" => {
            for l in w.link.iter_mut() {
                if t.arg(0) == 0 {
                    l.rekey_local_cipherstate()
                } else {
                    l.rekey_remote_cipherstate()
                }
            }
        }
        "hs" => {
            let pl = r.below(80) as usize;
            let mut a = r.bytes(t.arg(0).clamp(32, 65535) as usize);
            let mut b = r.bytes(t.arg(1).clamp(96, 65535) as usize);
            let pro = r.bytes(pl);
            let mut i = NoiseSession::init_session(true, &pro, mk(secret(&[r.u64()])));
            let mut s = NoiseSession::init_session(false, &pro, pool.clone());
            let stage = t.arg(2);
            if stage == 0 {
                return Ok(());
            }
            i.send_message(&mut a).map_err(|_| "send A")?;
            rec(&a);
            if stage == 1 {
                return Ok(());
            }
            if stage == 2 {
                let _ = said(s.recv_message(&mut a[..20]));
            }
            s.recv_message(&mut a).map_err(|_| "receive A")?;
            if stage == 3 {
                return Ok(());
            }
            s.send_message(&mut b).map_err(|_| "send B")?;
            rec(&b);
            if stage == 4 {
                let at = r.below(b.len() as u64) as usize;
                b[at] ^= 1;
                let _ = said(i.recv_message(&mut b));
                return Ok(());
            }
            i.recv_message(&mut b).map_err(|_| "receive B")?;
            let mut m = r.bytes(40);
            i.send_message(&mut m).map_err(|_| "send")?;
            rec(&m);
            s.recv_message(&mut m).map_err(|_| "receive")?;
            if stage == 5 {
                i.clear_local_cipherstate();
                s.clear_remote_cipherstate();
            }
        }
        "conn" => {
            let mut o = ConnectionEncryptor::new_outbound();
            let mut i = ConnectionEncryptor::new_inbound(if t.arg(0) == 6 { None } else { Some(pool.clone()) });
            if t.arg(0) == 0 {
                return Ok(());
            }
            let mut a = o.init_handshake().map_err(|_| "first message")?;
            rec(&a);
            if t.arg(0) == 1 {
                return Ok(());
            }
            if t.arg(0) == 2 {
                let mut j = r.bytes(t.arg(1).clamp(0, 31) as usize);
                if said(i.recv_handshake(&mut j)).is_ok() {
                    return Err("refusal of a short handshake message");
                }
            }
            let mut b = i.recv_handshake(&mut a).map_err(|_| "second message")?;
            rec(&b);
            if t.arg(0) == 3 {
                let n = b.len();
                b[n - 1] ^= 1;
                let _ = said(o.recv_handshake(&mut b));
                return Ok(());
            }
            o.recv_handshake(&mut b).map_err(|_| "completion")?;
            match o.get_remote_pubkey() {
                None => return Err("the remote key"),
                Some(k) => rec(&k.as_bytes()),
            }
            let p = Peer::new(o);
            p.pending_msg_buffer.lock().unwrap().push(Message::new(MessageType::SetupConnection, b));
        }
        "code" => {
            let k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
            let v = wire::gen(k, r, false);
            let m = glue::build(k, &v).map_err(|_| "construction")?;
            let mut out = vec![];
            glue::encode(&m, &mut out).map_err(|_| "encoding")?;
            rec(&out);
            if wire::decodable(k) {
                glue::decode(k, &out).map_err(|_| "decoding")?;
            }
            if wire::FRAMED.contains(&k) {
                let f = glue::to_frame(&m).map_err(|_| "framing")?;
                let mut out = vec![];
                glue::encode_message(&f, &mut out).map_err(|_| "framing")?;
                rec(&out);
                let g = glue::decode_message(&out).map_err(|_| "deframing")?;
                glue::from_frame(k, &g).map_err(|_| "unframing")?;
            }
        }
        "junk" => {
            let k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
            let n = t.arg(1).max(0) as usize;
            let b = r.bytes(n);
            if wire::decodable(k) {
                let _ = said(glue::decode(k, &b));
                // A real message, cut.
                let v = wire::gen(k, r, false);
                let e = wire::encode(k, &v);
                let cut = r.below(e.len() as u64 + 1) as usize;
                let _ = said(glue::decode(k, &e[..cut]));
            }
            let _ = said(glue::decode_message(&b));
        }
        "wfail" => {
            let k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
            let v = wire::gen(k, r, false);
            let m = glue::build(k, &v).map_err(|_| "construction")?;
            let mut q = VecDeque::new();
            for _ in 0..r.below(6) {
                q.push_back(W::Short(1 + r.below(9) as usize));
            }
            q.push_back(W::Fail(r.below(3) as u8));
            let cap = t.arg(1).clamp(1, 60) as usize;
            let mut w = FaultyWriter::new(q.clone(), cap);
            let _ = said(glue::encode(&m, &mut w));
            rec(&w.delivered);
            if wire::FRAMED.contains(&k) {
                let f = glue::to_frame(&m).map_err(|_| "framing")?;
                let mut w = FaultyWriter::new(q.clone(), cap);
                let _ = said(glue::encode_message(&f, &mut w));
                rec(&w.delivered);
                // The plain interface, a stream that fails part way through the header or the payload.
                let mut w = FaultyWriter::new(q.clone(), cap);
                let _ = said(stratumv2::codec::Serializable::serialize(&f, &mut w));
                rec(&w.delivered);
            }
            let c = SignatureNoiseMessage { version: 0, valid_from: 1, not_valid_after: 2, signature: ed25519_dalek::Signer::sign(auth, b"x") };
            let _ = said(stratumv2::codec::Serializable::serialize(&c, &mut FaultyWriter::new(q, cap)));
        }
        "cert" => {
            let now = crate::seams::with(|s| s.secs) as u32;
            let (f, u) = (now - 1 - r.below(50_000) as u32, now + 1 + r.below(50_000) as u32);
            let k = mk(secret(&[r.u64()])).get_public_key();
            let c = SignedCertificate::new(r.below(3) as u16, f, u, &k).map_err(|_| "a certificate")?;
            let mut m = SignatureNoiseMessage::from_auth_key(auth, &c).map_err(|_| "signing")?;
            let good = match t.arg(0) {
                0 => {
                    m.version ^= 1;
                    false
                }
                1 => {
                    m.valid_from -= 1;
                    false
                }
                2 => {
                    m.not_valid_after = m.valid_from + 1;
                    false
                }
                _ => true,
            };
            let mut bytes = vec![];
            stratumv2::codec::Serializable::serialize(&m, &mut bytes).map_err(|_| "encoding")?;
            let m: SignatureNoiseMessage = stratumv2::codec::deserialize(&bytes).map_err(|_| "decoding")?;
            if t.arg(0) == 5 {
                let _ = CertificateFormat::new(&auth58[1..], &k, &m).and_then(|c| c.verify());
            } else if CertificateFormat::new(auth58, &k, &m).and_then(|c| c.verify()).is_ok() != good {
                return Err("the certificate verdict");
            }
        }
        "queue" => {
            let (k, n) = (t.arg(0).clamp(1, 1000), t.arg(1).clamp(0, 5000) as usize);
            let before = alloc::live();
            for _ in 0..k {
                w.peer.pending_msg_buffer.lock().unwrap().push(Message::new(MessageType::SetupConnection, r.bytes(n)));
            }
            let held = alloc::live() - before;
            // A vector may have twice the room it needs.
            let size = std::mem::size_of::<Message>() as i64 + n as i64;
            if held > 4 * k * (size + 32) + SLACK {
                return Err("queueing in memory proportional to the queue");
            }
            let got = w.peer.get_pending_msgs();
            if got.len() as i64 != k {
                return Err("draining");
            }
            for m in &got {
                rec(&m.payload);
            }
        }
        "keys" => {
            let (k, a, c) = (Keypair::default(), generate_authority_keypair(), new_channel_id());
            rec(&k.get_public_key().as_bytes());
            rec(&a.to_bytes());
            rec(&c.to_le_bytes());
        }
        _ => {
            for l in &w.link {
                let k = (l.get_handshake_hash(), l.get_remote_static_public_key(), l.get_message_count(), l.is_transport());
                rec(&k.0.unwrap_or([1; 32]));
                rec(&k.1.map_or([1; 32], |k| k.as_bytes()));
                rec(&k.2.to_le_bytes());
                rec(&[k.3 as u8]);
            }
            let k = (w.conn[0].get_remote_pubkey(), w.conn[1].is_handshake_complete(), w.peer.get_pending_msgs());
            rec(&k.0.map_or([1; 32], |k| k.as_bytes()));
            rec(&[k.1 as u8, k.2.len() as u8]);
        }
    }
    Ok(())
}

struct Pass {
    /// Growth while alive, per slot of the program, and what is left after the drop.
    grown: i64,
    left: i64,
    peak: (i64, usize),
    failed: Option<(&'static str, usize, u64)>,
}

fn life(s: &Scenario, prog: &[Step], times: u64, pool: &StaticKeyPair, auth: &AuthorityKeyPair, auth58: &str) -> Result<Pass, crate::scenario::Violation> {
    let before = alloc::live();
    let mut w = world(s.seed, pool)?;
    let mut p = Pass { grown: 0, left: 0, peak: (0, 0), failed: None };
    let mut settled = None;
    'all: for it in 0..times {
        if it == WARM {
            settled = Some(alloc::live());
        }
        for (k, t) in prog.iter().enumerate() {
            let mut r = Rng::from(&[s.seed, it, k as u64]);
            let (res, peak) = alloc::peak_of(|| op(&mut w, t, pool, auth, auth58, &mut r));
            if peak > p.peak.0 {
                p.peak = (peak, k);
            }
            if let Err(e) = res {
                p.failed = Some((e, k, it));
                break 'all;
            }
        }
    }
    // Nothing to compare unless the program was repeated after settling.
    p.grown = settled.map_or(0, |s| alloc::live() - s);
    drop(w);
    p.left = alloc::live() - before;
    Ok(p)
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let times = s.steps.iter().find(|t| t.op == "times").map_or(0, |t| t.arg(0).clamp(0, 20_000)) as u64 + WARM;
    let prog: Vec<Step> = s.steps.iter().filter(|t| t.op != "times").cloned().collect();
    let pool = nz::keypair(secret(&[s.seed, 9]))?;
    let auth = AuthorityKeyPair::from_bytes(&{
        let sk = ed25519_dalek::SecretKey::from_bytes(&secret(&[s.seed, 10])).expect("a secret key");
        let pk = ed25519_dalek::PublicKey::from(&sk);
        let mut b = [0; 64];
        b[..32].copy_from_slice(&sk.to_bytes());
        b[32..].copy_from_slice(&pk.to_bytes());
        b
    })
    .expect("a key pair");
    let auth58 = base58::encode_slice(&auth.public.to_bytes());
    crate::seams::set_clock(1_600_000_000, 0);
    // A first, short life lets everything that is set up once per thread be set up.
    life(s, &prog, WARM + 2, &pool, &auth, &auth58)?;
    let p = life(s, &prog, times, &pool, &auth, &auth58)?;
    if let Some((e, k, it)) = p.failed {
        return viol("an operation failed", format!("{} in step {} at repetition {}", e, k, it));
    }
    for t in &prog {
        ctx.probe(match t.op.as_str() {
            "traffic" => "traffic",
            "refuse" => "refused_messages",
            "turn" => "out_of_turn",
            "rekey" => "rekeys",
            "hs" => "handshakes",
            "conn" => "connections",
            "code" => "codec",
            "junk" => "junk_decoded",
            "wfail" => "failed_streams",
            "cert" => "certificates",
            "queue" => "queue",
            _ => "other",
        });
        match (t.op.as_str(), t.arg(2)) {
            ("refuse", 3..=4) => ctx.faults("tampered_message", times),
            ("refuse", _) => ctx.faults("junk_message", times),
            ("turn", _) => ctx.faults("out_of_turn_call", times),
            ("hs", 0..=3) => ctx.faults("abandoned_handshake", times),
            ("hs", 4) => ctx.faults("tampered_handshake", times),
            ("junk", _) => ctx.faults("junk_decode", times),
            ("wfail", _) => ctx.faults("failed_write", times),
            _ => {}
        }
        ctx.ev(&[t.arg(0) as u64, t.arg(1) as u64, t.arg(2) as u64]);
    }
    ctx.ev(&[times, p.grown as u64, p.left as u64, p.peak.0 as u64]);
    ctx.max("longest_life_repetitions", times);
    ctx.max("largest_peak_bytes", p.peak.0.max(0) as u64);
    if p.grown > SLACK {
        return viol("memory grows with use", format!("{} bytes more after {} repetitions", p.grown, times - WARM));
    }
    if p.left > SLACK {
        return viol("memory is not given back", format!("{} bytes still held after dropping everything", p.left));
    }
    let t = &prog.get(p.peak.1);
    let input: i64 = t.map_or(0, |t| match t.op.as_str() {
        "queue" => t.arg(0) * (t.arg(1) + 64),
        "hs" => t.arg(0) + t.arg(1),
        "refuse" => t.arg(1).max(66_000),
        _ => t.arg(1),
    });
    if p.peak.0 > 16 * input + 400_000 {
        return viol("memory out of proportion", format!("step {} needed {} bytes", p.peak.1, p.peak.0));
    }
    Ok(())
}
