//! Connections, sessions and encoders used on different threads do not affect each other.
use crate::crypto;
use crate::glue;
use crate::nz::{self, keypair, secret};
use crate::rng::{mix, Rng};
use crate::runner::{take_panic, Prop};
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::sched::{self, Pre};
use crate::seams;
use crate::wire;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::Keypair;
use std::sync::{Arc, Mutex};
use stratumv2::bitcoin::util::base58;
use stratumv2::codec::Message;
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{generate_authority_keypair, AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticKeyPair, StaticPublicKey};
use stratumv2::types::MessageType;

pub const PROP: Prop = Prop {
    id: "C18",
    gen,
    exec,
    quick: 2_000,
    thorough: 40_000,
    rule: "Two to four threads, each with its own sessions, connection, queue and messages and sharing only immutable keys and certificates, run random programs (handshakes, transport, refused input, rekeys, encoding, decoding, certificate signing and verification, queueing, key and id generation) while a scheduler preempts them at chosen machine instructions and synchronisation points; every result must equal that of the same program run alone afterwards, every generated key must be new, and no state without a runnable thread may be reached.",
    real: "stratumv2 and nx-noise, std and the rand crates, single-stepped; third-party primitives (HACL*, BLAKE2, dalek) run unpreempted",
    stub: "the thread scheduler and futex, OS entropy and clock per thread",
    assumptions: &["sequential consistency: exactly one thread executes at a time, so weak-memory reorderings are not explored", "third-party primitives share no mutable state"],
};

const OPS: &[&str] = &["hs", "msg", "msg", "msg", "bad", "rekey", "code", "code", "frame", "sign", "verify", "verify", "queue", "key", "conn", "clear"];

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C18", 0);
    let threads = r.range(2, 4);
    // A few kinds of call, so that threads meet in the same code.
    let kinds: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(OPS)).collect();
    let n = r.range(threads, 10);
    for i in 0..n {
        let t = if i < threads { i } else { r.below(threads as u64) as i64 };
        let op = if r.chance(1, 6) { *r.pick(OPS) } else { *r.pick(&kinds) };
        // Small tags make different threads do the same thing now and then.
        let tag = if r.chance(1, 3) { r.below(3) as i64 } else { r.tag() };
        s.push(op, &[t, tag, nz::msg_size(r, 16, false) as i64]);
    }
    let span = [200, 1500, 6000, 13_000][r.below(4) as usize];
    // Mostly one kind of preemption point, or a mixture.
    let focus = r.below(4);
    for _ in 0..r.range(1, 14) {
        let (op, most) = match (focus, r.below(9)) {
            (0, _) | (2, 0..=1) => ("at_new", [4, 4 + n * 2, 4 + n * 8][r.below(3) as usize]),
            (1, _) | (2, 2..=3) => ("at_static", [4, 2 + n * 2, 4 + n * 16][r.below(3) as usize]),
            (_, 4..=5) => ("at_fresh", [500, 2000, 6000][r.below(3) as usize]),
            (_, 6) => ("at_sync", 2 + n * 6),
            _ => ("at_instr", span * n),
        };
        s.push(op, &[r.range(1, most), r.below(8) as i64]);
    }
    s
}

/// Immutable things every thread may use.
struct Shared {
    authority: Vec<AuthorityKeyPair>,
    authority58: Vec<String>,
    /// Static key, certificate, whether it is good, authority.
    certs: Vec<(StaticPublicKey, SignatureNoiseMessage, bool, usize)>,
    pool: StaticKeyPair,
}

struct Mine {
    id: u64,
    seed: u64,
    link: Option<[NoiseSession; 2]>,
    peer: Peer<ConnectionEncryptor>,
    made: u64,
}

#[derive(Clone, Default)]
struct Rec {
    /// What each call gave.
    out: Vec<(String, u64)>,
    keys: Vec<[u8; 32]>,
    bad: Option<(String, String)>,
}

fn dig(parts: &[&[u8]]) -> u64 {
    let mut a = vec![];
    for p in parts {
        a.push(p.len() as u64);
        for c in p.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            a.push(u64::from_le_bytes(w));
        }
    }
    mix(&a)
}

type Step = (String, i64, i64);

/// One call and what it gave; Err: wrong in itself.
fn run_op(m: &mut Mine, sh: &Shared, st: &Step, rec: &mut Rec) -> Result<u64, (String, String)> {
    let bad = |c: &str, d: String| Err((c.to_string(), d));
    let tag = st.1 as u64;
    // Prepared outside the stepped part.
    let key = |k: u64| secret(&[m.seed, m.id, tag, k]);
    let panicked = || Err(("panic".to_string(), take_panic().unwrap_or_default().1));
    macro_rules! step {
        ($e:expr) => {
            match sched::stepped(|| $e) {
                Some(v) => v,
                None => return panicked(),
            }
        };
    }
    let need_link = matches!(st.0.as_str(), "hs" | "msg" | "bad" | "rekey" | "clear");
    let mut extra = 0;
    if need_link && (m.link.is_none() || st.0 == "hs") {
        m.made += 1;
        let (is, ie, re) = (key(m.made * 10), key(m.made * 10 + 1), key(m.made * 10 + 2));
        let pro = Rng::from(&[m.seed, m.id, tag, 4]).bytes((tag % 50) as usize);
        let alen = 32 + (tag % 90) as usize;
        let blen = 96 + (tag / 7 % 90) as usize;
        let mut a = Rng::from(&[m.seed, m.id, tag, 5]).bytes(alen);
        let mut b = Rng::from(&[m.seed, m.id, tag, 6]).bytes(blen);
        let (pay_a, pay_b) = (a.clone(), b.clone());
        let pool = sh.pool.clone();
        let pub_pool = pool.get_public_key().as_bytes();
        let setup = || {
            let mk = |k| Keypair::from_private_key(noiseexplorer_nx::types::PrivateKey::from_bytes(k));
            (|| {
                let mut i = NoiseSession::init_session(true, &pro, mk(is)?);
                let mut r = NoiseSession::init_session(false, &pro, pool);
                i.set_ephemeral_keypair(mk(ie)?);
                r.set_ephemeral_keypair(mk(re)?);
                i.send_message(&mut a)?;
                let wa = a.clone();
                r.recv_message(&mut a)?;
                r.send_message(&mut b)?;
                let wb = b.clone();
                i.recv_message(&mut b)?;
                Ok::<_, noiseexplorer_nx::error::NoiseError>((i, r, wa, wb))
            })()
        };
        // Only a call for a handshake is preempted in it.
        let r = if st.0 == "hs" {
            step!(setup())
        } else {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(setup)) {
                Ok(r) => r,
                Err(_) => return panicked(),
            }
        };
        let (i, r, wa, wb) = match r {
            Ok(x) => x,
            Err(e) => return bad("handshake failed", format!("thread {}: {}", m.id, e)),
        };
        let h = i.get_handshake_hash();
        if h.is_none() || h != r.get_handshake_hash() || i.get_remote_static_public_key().map(|k| k.as_bytes()) != Some(pub_pool) {
            return bad("handshake ends disagree", format!("thread {}", m.id));
        }
        if a[32..] != pay_a[32..] || b[80..blen - 16] != pay_b[80..blen - 16] {
            return bad("handshake payload changed", format!("thread {}", m.id));
        }
        extra = dig(&[&wa, &wb, &h.unwrap()]);
        m.link = Some([i, r]);
    }
    let d = (tag & 1) as usize;
    let r = match st.0.as_str() {
        "hs" => 0,
        "msg" => {
            let len = st.2.clamp(16, 4000) as usize;
            let mut b = Rng::from(&[m.seed, m.id, tag, 7]).bytes(len);
            let pt = b[..len - 16].to_vec();
            let l = m.link.as_mut().unwrap();
            let r = step!({
                let s = l[d].send_message(&mut b).is_ok();
                let w = b.clone();
                let r = s && l[1 - d].recv_message(&mut b).is_ok();
                (s, r, w)
            });
            if r.1 && b[..len - 16] != pt[..] {
                return bad("plaintext changed", format!("thread {}", m.id));
            }
            dig(&[&[r.0 as u8, r.1 as u8], &r.2])
        }
        "bad" => {
            let mut b = Rng::from(&[m.seed, m.id, tag, 8]).bytes(st.2.clamp(0, 300) as usize);
            let l = m.link.as_mut().unwrap();
            if step!(l[d].recv_message(&mut b).is_ok()) {
                return bad("forgery accepted", format!("thread {}", m.id));
            }
            0
        }
        "rekey" | "clear" => {
            let clear = st.0 == "clear";
            let l = m.link.as_mut().unwrap();
            step!(match (clear, d) {
                (false, 0) => {
                    l[0].rekey_local_cipherstate();
                    l[1].rekey_local_cipherstate()
                }
                (false, _) => {
                    l[0].rekey_remote_cipherstate();
                    l[1].rekey_remote_cipherstate()
                }
                (true, 0) => l[0].clear_local_cipherstate(),
                (true, _) => l[1].clear_remote_cipherstate(),
            });
            d as u64
        }
        "code" | "frame" => {
            let mut r = Rng::from(&[m.seed, m.id, tag, 9]);
            let framed = st.0 == "frame";
            let k = if framed { *r.pick(wire::FRAMED) } else { *r.pick(wire::ALL) };
            let v = wire::gen(k, &mut r, false);
            let want = if framed { wire::encode_framed(k, &v) } else { wire::encode(k, &v) };
            let got = step!((|| {
                let x = glue::build(k, &v)?;
                let mut w = vec![];
                let n = if framed { glue::encode_message(&glue::to_frame(&x)?, &mut w)? } else { glue::encode(&x, &mut w)? };
                let back = if framed {
                    Some(glue::from_frame(k, &glue::decode_message(&w)?)?)
                } else if wire::decodable(k) {
                    Some(glue::decode(k, &w)?)
                } else {
                    None
                };
                Ok::<_, stratumv2::error::Error>((n, w, back))
            })());
            let (n, w, back) = match got {
                Ok(x) => x,
                Err(e) => return bad("encoding failed", format!("thread {}: {:?}: {}", m.id, k, e)),
            };
            if w != want || n != want.len() {
                return bad("bytes differ", format!("thread {}: {:?}", m.id, k));
            }
            if let Some(b) = back {
                if glue::values(&b) != v {
                    return bad("values differ", format!("thread {}: {:?}", m.id, k));
                }
            }
            dig(&[&w])
        }
        "sign" => {
            let from = 1000 + (tag % 100_000) as u32;
            let pk = sh.pool.get_public_key();
            let sig = step!((|| {
                let c = SignedCertificate::new(tag as u16, from, from + 500, &pk)?;
                SignatureNoiseMessage::from_auth_key(&sh.authority[tag as usize / 2 % 2], &c)
            })());
            match sig {
                Ok(s) => dig(&[&s.signature.to_bytes()]),
                Err(e) => return bad("signing failed", format!("thread {}: {}", m.id, e)),
            }
        }
        "verify" => {
            let (pk, c, good, au) = &sh.certs[tag as usize % sh.certs.len()];
            // Each thread's machine has its own clock.
            let inside = tag / 16 % 3 != 0;
            let now = if inside { c.valid_from as i64 + (tag / 64 % 400) as i64 } else { c.not_valid_after as i64 + (tag / 64 % 50) as i64 };
            seams::set_clock(now, 5);
            let ok = step!((|| CertificateFormat::new(&sh.authority58[*au], pk, c)?.verify())().is_ok());
            if ok != (*good && inside) {
                return bad("certificate verdict", format!("thread {}: certificate {} at {}: {}", m.id, tag as usize % sh.certs.len(), now, ok));
            }
            ok as u64
        }
        "queue" => {
            let k = 1 + tag % 5;
            let msgs: Vec<Message> = (0..k).map(|i| Message::new(MessageType::SetupConnection, Rng::from(&[m.seed, m.id, tag, i]).bytes(9))).collect();
            let want = msgs.clone();
            let got = step!({
                for x in msgs {
                    m.peer.pending_msg_buffer.lock().unwrap().push(x);
                }
                m.peer.get_pending_msgs()
            });
            if got != want {
                return bad("queues mixed", format!("thread {}: {} queued, {} drained", m.id, want.len(), got.len()));
            }
            k
        }
        "key" => {
            let (k, a, _) = step!((Keypair::default(), generate_authority_keypair(), new_channel_id()));
            if k.get_public_key().as_bytes() == [0; 32] {
                return bad("empty key", format!("thread {}", m.id));
            }
            rec.keys.push(k.get_public_key().as_bytes());
            rec.keys.push(a.public.to_bytes());
            0
        }
        _ => {
            // A whole connection handshake with keys from OS entropy.
            let pool = sh.pool.clone();
            let want = pool.get_public_key().as_bytes();
            let r = step!((|| {
                let mut o = ConnectionEncryptor::new_outbound();
                let mut i = ConnectionEncryptor::new_inbound(Some(pool));
                let mut a = o.init_handshake()?;
                let e = a[..32].to_vec();
                let mut b = i.recv_handshake(&mut a)?;
                let f = b[..32].to_vec();
                o.recv_handshake(&mut b)?;
                Ok::<_, stratumv2::error::Error>((e, f, o.is_handshake_complete() && i.is_handshake_complete(), o.get_remote_pubkey().map(|k| k.as_bytes())))
            })());
            match r {
                Ok((e, f, true, k)) if k == Some(want) => {
                    for x in [e, f] {
                        let mut y = [0; 32];
                        y.copy_from_slice(&x);
                        rec.keys.push(y);
                    }
                    0
                }
                Ok(_) => return bad("handshake ends disagree", format!("connection on thread {}", m.id)),
                Err(e) => return bad("handshake failed", format!("connection on thread {}: {}", m.id, e)),
            }
        }
    };
    Ok(mix(&[r, extra]))
}

fn program(id: u64, seed: u64, entropy: u64, prog: &[Step], sh: &Shared, rec: &Mutex<Rec>) {
    let old = seams::SEAM.with(|s| s.get());
    seams::SEAM.with(|s| s.set(seams::Seam { active: true, ent_seed: mix(&[entropy, id]), secs: 1_600_000_000, ..seams::OFF }));
    let mut m = Mine { id, seed, link: None, peer: Peer::new(ConnectionEncryptor::new_inbound(Some(sh.pool.clone()))), made: 0 };
    for st in prog {
        let mut r = rec.lock().unwrap().clone();
        match run_op(&mut m, sh, st, &mut r) {
            Ok(v) => r.out.push((format!("{}({})", st.0, st.1), v)),
            Err(e) => r.bad = Some(e),
        }
        let stop = r.bad.is_some();
        *rec.lock().unwrap() = r;
        if stop {
            break;
        }
    }
    // Dropped by its own thread, as a connection would be.
    drop(m);
    seams::SEAM.with(|s| s.set(old));
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut progs: Vec<Vec<Step>> = vec![];
    let mut plan = vec![];
    for st in &s.steps {
        if st.op.starts_with("at_") {
            plan.push(Pre { kind: ["at_instr", "at_sync", "at_static", "at_new", "at_fresh"].iter().position(|x| *x == st.op).unwrap_or(0) as u8, at: st.arg(0).max(1) as u64, to: st.arg(1).unsigned_abs(), used: false });
        } else {
            let t = (st.arg(0).unsigned_abs() % 6) as usize;
            while progs.len() <= t {
                progs.push(vec![]);
            }
            progs[t].push((st.op.clone(), st.arg(1).saturating_abs(), st.arg(2)));
        }
    }
    if progs.is_empty() || s.steps.len() > 200 {
        return Ok(());
    }
    let authority: Vec<AuthorityKeyPair> = (0..2)
        .map(|a| {
            let sk = ed25519_dalek::SecretKey::from_bytes(&secret(&[s.seed, 1, a])).unwrap();
            let public = (&sk).into();
            AuthorityKeyPair { secret: sk, public }
        })
        .collect();
    let pool = keypair(secret(&[s.seed, 2]))?;
    let mut certs = vec![];
    for i in 0..6u32 {
        let pk = keypair(secret(&[s.seed, 3, i as u64 / 2]))?.get_public_key();
        let from = 1_500_000_000 + i * 1_000_000;
        let mut c = SignedCertificate::new(i as u16, from, from + 500_000, &pk)
            .and_then(|c| SignatureNoiseMessage::from_auth_key(&authority[i as usize % 2], &c))
            .map_err(|e| crate::scenario::Violation { class: "signing failed".into(), detail: e.to_string() })?;
        let good = i < 4;
        if !good {
            // Altered, or presented under the other authority.
            c.version ^= (i as u16 & 1) << 8;
        }
        certs.push((pk, c, good, if i == 4 { 1 } else { i as usize % 2 }));
    }
    let authority58 = authority.iter().map(|a| base58::encode_slice(&a.public.to_bytes())).collect();
    let sh = Arc::new(Shared { authority, authority58, certs, pool });
    let recs: Vec<Arc<Mutex<Rec>>> = progs.iter().map(|_| Arc::default()).collect();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, p) in progs.iter().enumerate() {
        let (p, sh, rec, seed) = (p.clone(), sh.clone(), recs[t].clone(), s.seed);
        bodies.push(Box::new(move || program(t as u64, seed, mix(&[seed, 50]), &p, &sh, &rec)));
    }
    sched::skip_primitives(true);
    let rep = sched::run(s.seed, &plan, 60_000_000, bodies);
    sched::skip_primitives(false);
    ctx.ev(&[rep.digest, rep.steps, rep.syncs]);
    ctx.faults("preemption", rep.preempts);
    ctx.faults("blocked_on_lock", rep.blocks);
    ctx.max("machine_steps", rep.steps);
    ctx.max("touches_of_static_data", rep.statics);
    ctx.sim_ns += rep.steps;
    match rep.fatal {
        1 => return viol("deadlock", format!("no thread can run after {} steps", rep.steps)),
        2 => return viol("no progress", format!("threads still running after {} steps", rep.steps)),
        _ => {}
    }
    let mut keys = std::collections::BTreeSet::new();
    for (t, p) in progs.iter().enumerate() {
        let got = recs[t].lock().unwrap().clone();
        if let Some((c, d)) = got.bad {
            return viol(&c, d);
        }
        for (n, v) in &got.out {
            ctx.note(|| format!("thread {}: {} -> {:016x}", t, n, v));
            ctx.ev(&[t as u64, *v]);
        }
        for k in &got.keys {
            if !keys.insert(*k) {
                return viol("key generated twice", format!("thread {}: {}", t, crypto::hex(k)));
            }
        }
        // The same program alone, with other entropy.
        let (p2, sh2, rec, seed) = (p.clone(), sh.clone(), Arc::new(Mutex::new(Rec::default())), s.seed);
        let rec2 = rec.clone();
        let b: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(move || program(t as u64, seed, mix(&[seed, 51]), &p2, &sh2, &rec2))];
        // Unstepped: one thread needs no scheduling.
        for f in b {
            let _ = std::thread::spawn(f).join();
        }
        let alone = rec.lock().unwrap().clone();
        if let Some((c, d)) = alone.bad {
            return viol(&format!("{} (alone)", c), d);
        }
        if let Some(k) = (0..got.out.len().max(alone.out.len())).find(|k| got.out.get(*k) != alone.out.get(*k)) {
            return viol("differs from the same calls made alone", format!("thread {} call {}: {:?} and alone {:?}", t, k, got.out.get(k), alone.out.get(k)));
        }
        ctx.probe("programs_compared");
    }
    Ok(())
}
