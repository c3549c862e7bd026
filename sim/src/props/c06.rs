//! A completed handshake means both ends agree and the peer key is genuine.
use crate::crypto::{self, Es, RefResponder};
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;

pub const PROP: Prop = Prop {
    id: "C06",
    gen,
    exec,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "Several initiators and responders (sharing or not sharing static keys and prologues) run handshakes through an active attacker that delivers, replays, reflects, tampers, truncates, extends and mixes their messages in any order, and impersonates responders without their static key.",
    real: "nx-noise sessions, handshake and primitives on both sides",
    stub: "the network and the attacker (reference Noise implementation)",
    assumptions: &["BLAKE2s, ChaCha20-Poly1305 and X25519 are not broken by chance"],
};

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C06", 0);
    let ni = r.range(1, 3);
    let nr = r.range(1, 3);
    s.push("world", &[ni, nr, r.range(1, 2), r.range(1, 2)]);
    let big = r.chance(1, 12);
    let n = r.range(2, 18);
    for i in 0..ni {
        if r.chance(9, 10) {
            s.push("isend", &[i, nz::msg_size(r, 32, big) as i64]);
        }
    }
    for _ in 0..n {
        let i = r.range(0, ni - 1);
        let j = r.range(0, nr - 1);
        // Message references: A of initiator x is 2x, B of responder y is 2y+1.
        let any = r.range(0, 7);
        match r.below(20) {
            0..=2 => s.push("rrecv", &[j, 2 * i]),
            3..=5 => s.push("rsend", &[j, nz::msg_size(r, 96, big) as i64]),
            6..=7 => s.push("irecv", &[i, 2 * j + 1]),
            8..=9 => {
                // A whole honest exchange.
                s.push("rrecv", &[j, 2 * i]);
                s.push("rsend", &[j, nz::msg_size(r, 96, big) as i64]);
                s.push("irecv", &[i, 2 * j + 1]);
            }
            10 => s.push("rrecv", &[j, any]),
            11 => s.push("irecv", &[i, any]),
            12 => s.push("iflip", &[i, 2 * j + 1, r.tag()]),
            13 => s.push("rflip", &[j, 2 * i, r.tag()]),
            14 => s.push("itrunc", &[i, 2 * j + 1, r.range(1, 40)]),
            15 => s.push("iext", &[i, 2 * j + 1, r.range(1, 40)]),
            16 => s.push("imix", &[i, r.range(0, 7), r.range(0, 7), r.range(0, 7), r.below(3) as i64]),
            17 => s.push("rtrunc", &[j, 2 * i, r.range(1, 40)]),
            18 => s.push("wrong", &[i, r.below(12) as i64, r.range(0, 60)]),
            _ => s.push("impostor", &[i, j, r.below(6) as i64, r.range(0, 60)]),
        }
    }
    s
}

struct Init {
    s: NoiseSession,
    pro: usize,
    a: Option<Vec<u8>>,
    done: bool,
}
struct Resp {
    s: NoiseSession,
    pro: usize,
    took: Option<Vec<u8>>,
    b: Option<Vec<u8>>,
    key: [u8; 32],
}
/// A reference responder that answered an initiator honestly under its own key.
struct Honest {
    pro: usize,
    took: Vec<u8>,
    b: Vec<u8>,
    key: [u8; 32],
    hash: [u8; 32],
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let w = s.steps.iter().find(|t| t.op == "world");
    let g = |i: usize| w.map_or(1, |t| t.arg(i).clamp(1, 4)) as usize;
    let (ni, nr, nk, np) = (g(0), g(1), g(2), g(3));
    // Two prologues, different or nearly the same.
    let mut pr = Rng::from(&[s.seed, 10]);
    let l = match pr.below(4) {
        0 => 0,
        1 => pr.range(1, 70),
        2 => pr.range(60, 400),
        _ => pr.range(1, 6) * 64,
    } as usize;
    let p0 = pr.bytes(l);
    let mut p1 = p0.clone();
    match pr.below(5) {
        0 if l > 0 => *p1.last_mut().unwrap() ^= 1 << pr.below(8),
        1 if l > 0 => {
            let k = pr.below(l as u64) as usize;
            p1[k] ^= 1 << pr.below(8)
        }
        2 if l > 0 => {
            p1.pop();
        }
        3 => p1.push(0),
        _ => p1.extend(pr.bytes(1 + l / 2)),
    }
    let pros: Vec<Vec<u8>> = vec![p0, p1];
    let sk = |k: usize| secret(&[s.seed, 100 + k as u64]);
    let mut is: Vec<Init> = vec![];
    for i in 0..ni {
        let pro = if i == ni - 1 { np - 1 } else { 0 };
        is.push(Init { s: NoiseSession::init_session(true, &pros[pro], keypair(secret(&[s.seed, 50 + i as u64]))?), pro, a: None, done: false });
    }
    let mut rs: Vec<Resp> = vec![];
    for j in 0..nr {
        let pro = if np > 1 && j % 2 == 1 { 1 } else { 0 };
        rs.push(Resp { s: NoiseSession::init_session(false, &pros[pro], keypair(sk(j % nk))?), pro, took: None, b: None, key: crypto::x25519_pub(&sk(j % nk)) });
    }
    let mut honest: Vec<Honest> = vec![];
    let mut bag: Vec<Vec<u8>> = vec![];
    for (n, t) in s.steps.iter().enumerate() {
        let refm = |is: &Vec<Init>, rs: &Vec<Resp>, k: i64| -> Option<Vec<u8>> {
            let x = (k.max(0) / 2) as usize;
            if k & 1 == 0 {
                is[x % ni].a.clone()
            } else {
                rs[x % nr].b.clone()
            }
        };
        let mut to_i: Option<(usize, Vec<u8>)> = None;
        let mut to_r: Option<(usize, Vec<u8>)> = None;
        let i = t.arg(0).unsigned_abs() as usize % ni;
        let j = t.arg(0).unsigned_abs() as usize % nr;
        match t.op.as_str() {
            "isend" => {
                let mut m = Rng::from(&[s.seed, n as u64, 3]).bytes(t.arg(1).clamp(0, 70000) as usize);
                if !is[i].done && is[i].s.send_message(&mut m).is_ok() && is[i].a.is_none() {
                    is[i].a = Some(m);
                }
            }
            "rsend" => {
                let mut m = Rng::from(&[s.seed, n as u64, 4]).bytes(t.arg(1).clamp(0, 70000) as usize);
                if rs[j].b.is_none() && rs[j].s.send_message(&mut m).is_ok() {
                    if rs[j].took.is_none() {
                        return viol("answered nothing", "a responder sent its message before receiving one");
                    }
                    rs[j].b = Some(m.clone());
                    bag.push(m);
                }
            }
            "rrecv" => {
                if let Some(m) = refm(&is, &rs, t.arg(1)) {
                    if t.arg(1) & 1 == 1 || t.arg(1) / 2 >= ni as i64 {
                        ctx.fault("reflected_or_crossed");
                    }
                    to_r = Some((j, m));
                }
            }
            "irecv" => {
                if let Some(m) = refm(&is, &rs, t.arg(1)) {
                    if t.arg(1) & 1 == 0 {
                        ctx.fault("reflected");
                    } else if rs[(t.arg(1) / 2) as usize % nr].took != is[i].a {
                        ctx.fault("crossed_sessions");
                    }
                    to_i = Some((i, m));
                }
            }
            "iflip" | "rflip" => {
                if let Some(mut m) = refm(&is, &rs, t.arg(1)) {
                    let p = t.arg(2).unsigned_abs() as usize % (m.len() * 8);
                    m[p / 8] ^= 1 << (p % 8);
                    ctx.fault("bit_flip");
                    if t.op == "iflip" {
                        to_i = Some((i, m))
                    } else {
                        to_r = Some((j, m))
                    }
                }
            }
            "itrunc" | "rtrunc" => {
                if let Some(mut m) = refm(&is, &rs, t.arg(1)) {
                    let l = m.len().saturating_sub(t.arg(2).max(1) as usize);
                    m.truncate(l);
                    ctx.fault("truncated");
                    if t.op == "itrunc" {
                        to_i = Some((i, m))
                    } else {
                        to_r = Some((j, m))
                    }
                }
            }
            "iext" => {
                if let Some(mut m) = refm(&is, &rs, t.arg(1)) {
                    let x = Rng::from(&[s.seed, n as u64]).bytes(t.arg(2).clamp(1, 1000) as usize);
                    m.extend_from_slice(&x);
                    ctx.fault("extended");
                    to_i = Some((i, m));
                }
            }
            "imix" => {
                // e, encrypted s and payload each from some session's second message.
                let p = |k: i64| bag.get(k.unsigned_abs() as usize % bag.len().max(1)).cloned();
                if let (Some(x), Some(y), Some(z)) = (p(t.arg(1)), p(t.arg(2)), p(t.arg(3))) {
                    let mut m = x[..32].to_vec();
                    m.extend_from_slice(&y[32..80]);
                    m.extend_from_slice(&z[80..]);
                    if t.arg(4) == 1 {
                        // The initiator's own ephemeral as the responder's.
                        if let Some(a) = &is[i].a {
                            m[..32].copy_from_slice(&a[..32]);
                        }
                    }
                    ctx.fault("mixed_message");
                    to_i = Some((i, m));
                }
            }
            "wrong" => {
                // A peer with a key of its own that breaks the protocol in one point.
                if let Some(a) = is[i].a.clone() {
                    let how = t.arg(1).unsigned_abs() % 12;
                    let mut p = pros[is[i].pro].clone();
                    match how {
                        10 if !p.is_empty() => p.clear(),
                        10 | 11 => p.push(1),
                        _ => {}
                    }
                    let mut peer = RefResponder::new(&p, secret(&[s.seed, n as u64, 7]), secret(&[s.seed, n as u64, 6]));
                    if how == 11 {
                        peer = RefResponder::new(&pros[is[i].pro], peer.s, peer.e);
                        peer.re = a[..32].try_into().unwrap();
                        // The payload of message A is left out of the hash.
                        peer.sym.mix_hash(&a[..32]);
                        peer.sym.mix_hash(&a[..0]);
                    } else {
                        peer.read_a(&a);
                    }
                    if how != 11 || a.len() > 32 {
                        let m = peer.write_b_wrong(&vec![7; t.arg(2).clamp(0, 2000) as usize], how);
                        ctx.fault("peer_breaks_protocol");
                        to_i = Some((i, m));
                    }
                }
            }
            "impostor" => {
                if let Some(a) = is[i].a.clone() {
                    let e = secret(&[s.seed, n as u64, 6]);
                    let own = secret(&[s.seed, n as u64, 7]);
                    let victim = rs[t.arg(1).unsigned_abs() as usize % nr].key;
                    let mut imp = RefResponder::new(&pros[is[i].pro], own, e);
                    imp.read_a(&a);
                    let pay = vec![7; t.arg(3).clamp(0, 2000) as usize];
                    let epub = crypto::x25519_pub(&e);
                    let (m, keys) = match t.arg(2) {
                        0 => imp.write_b(&pay),
                        1 => imp.write_b_as(&pay, &victim, &epub, Es::Honest),
                        2 => imp.write_b_as(&pay, &victim, &epub, Es::EeAgain),
                        3 => imp.write_b_as(&pay, &victim, &epub, Es::Zero),
                        4 => imp.write_b_as(&pay, &victim, &epub, Es::Skip),
                        _ => imp.write_b_as(&pay, &victim, &epub, Es::EphemeralAsStatic),
                    };
                    if t.arg(2) == 0 {
                        honest.push(Honest { pro: is[i].pro, took: a, b: m.clone(), key: crypto::x25519_pub(&own), hash: keys.hash });
                        ctx.fault("peer_under_own_key");
                    } else {
                        ctx.fault("impostor_without_key");
                    }
                    to_i = Some((i, m));
                }
            }
            _ => {}
        }
        if let Some((j, m)) = to_r {
            let done = rs[j].b.is_some();
            let mut b = m.clone();
            let ok = rs[j].s.recv_message(&mut b).is_ok();
            ctx.ev(&[n as u64, 1, j as u64, ok as u64]);
            ctx.note(|| format!("responder {} takes {} bytes: {}", j, m.len(), ok));
            if ok && done {
                return viol("forged transport message accepted", "a handshake message was accepted as traffic");
            }
            if ok {
                rs[j].took = Some(m);
            }
        }
        if let Some((i, m)) = to_i {
            let was = is[i].done;
            let mut b = m.clone();
            let ok = is[i].s.recv_message(&mut b).is_ok();
            ctx.ev(&[n as u64, 2, i as u64, ok as u64]);
            ctx.note(|| format!("initiator {} takes {} bytes: {}", i, m.len(), ok));
            if ok && was {
                return viol("forged transport message accepted", "a handshake message was accepted as traffic");
            }
            if is[i].s.is_transport() && !was {
                is[i].done = true;
                let hash = is[i].s.get_handshake_hash();
                let key = is[i].s.get_remote_static_public_key().map(|k| k.as_bytes());
                let a = is[i].a.clone();
                let partner = rs.iter().find(|r| r.took.is_some() && r.took == a && r.b.as_ref() == Some(&m) && r.pro == is[i].pro && r.s.is_transport());
                let (want_key, want_hash) = match partner {
                    Some(r) => {
                        ctx.probe("completed_with_library_peer");
                        (r.key, r.s.get_handshake_hash())
                    }
                    None => match honest.iter().find(|h| Some(&h.took) == a.as_ref() && h.b == m && h.pro == is[i].pro) {
                        Some(h) => {
                            ctx.probe("completed_with_reference_peer");
                            (h.key, Some(h.hash))
                        }
                        None => return viol("completed without a matching peer", format!("initiator {} completed on {} bytes no responder produced for its message", i, m.len())),
                    },
                };
                if hash.is_none() || hash != want_hash {
                    return viol("hashes differ", format!("initiator {} and its peer report different handshake hashes", i));
                }
                if key != Some(want_key) {
                    return viol("wrong peer key", format!("initiator {} reports {:?}, the peer's key is {}", i, key.map(|k| crypto::hex(&k)), crypto::hex(&want_key)));
                }
            }
        }
        for x in &is {
            if !x.s.is_transport() && (x.s.get_handshake_hash().is_some() || x.s.get_remote_static_public_key().is_some()) {
                return viol("reported before completion", "initiator");
            }
        }
        for x in &rs {
            if x.s.is_transport() != x.b.is_some() {
                return viol("responder completion", format!("complete: {}, answered: {}", x.s.is_transport(), x.b.is_some()));
            }
            if !x.s.is_transport() && (x.s.get_handshake_hash().is_some() || x.s.get_remote_static_public_key().is_some()) {
                return viol("reported before completion", "responder");
            }
        }
    }
    Ok(())
}
