//! What sessions and connections say about themselves is exact, and refused calls leave no trace.
use crate::nz::{self, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

pub const PROP: Prop = Prop {
    id: "C24",
    gen,
    exec,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "Several sessions and connections go through handshakes and traffic while messages are lost, repeated, altered, cut, extended, exchanged between sessions and made up, calls are made out of turn and with impossible sizes, directions are rekeyed, cleared and exhausted; after every step every session and connection is asked for all it reports and compared with a count of the calls that succeeded and with what it reported when it completed; the buffers of refused calls are compared with what was handed in.",
    real: "stratumv2 connections, nx-noise sessions and primitives",
    stub: "the network, OS entropy",
    assumptions: &["a 128-bit authenticator is not forged by chance"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C24", 0);
    let pairs = r.range(1, 3);
    s.push("pairs", &[pairs]);
    let mut stage = vec![0; pairs as usize];
    let n = if idx % 50 == 0 { 400 } else { r.range(4, 50) };
    let far = r.chance(1, 6);
    for _ in 0..n {
        let p = r.below(pairs as u64) as i64;
        let st = &mut stage[p as usize];
        if *st < 4 && r.chance(1, 2) {
            // The next step of the handshake.
            let side = [0, 1, 1, 0][*st];
            if *st % 2 == 0 {
                let min = if *st == 0 { 32 } else { 96 };
                s.push("send", &[p, side, nz::msg_size(r, min, false) as i64]);
            } else {
                s.push("recv", &[p, side, 0, r.tag()]);
            }
            *st += 1;
            continue;
        }
        let side = r.below(2) as i64;
        match r.below(16) {
            0..=2 => s.push("send", &[p, side, if r.chance(1, 4) { nz::bad_size(r, 16) } else { nz::msg_size(r, 16, false) } as i64]),
            3..=7 => s.push("recv", &[p, side, if r.chance(1, 2) { 0 } else { r.below(8) as i64 }, r.tag()]),
            8 => s.push("rekey", &[p, side, r.below(2) as i64]),
            9 => s.push("clear", &[p, side, r.below(2) as i64]),
            10 if far => s.push("jump", &[p, r.below(6) as i64]),
            11 => s.push("cinit", &[p, side]),
            12..=13 => s.push("crecv", &[p, side, if r.chance(2, 3) { 0 } else { r.below(8) as i64 }, r.tag()]),
            _ => s.push("pass", &[p, side, nz::msg_size(r, 16, false) as i64]),
        }
    }
    s
}

struct Sess {
    s: NoiseSession,
    /// Calls that succeeded.
    count: u128,
    /// Handshake hash and remote key as reported on completion.
    done: Option<([u8; 32], [u8; 32])>,
}

struct Conn {
    c: ConnectionEncryptor,
    done: Option<[u8; 32]>,
}

#[derive(Default)]
struct Queue {
    waiting: std::collections::VecDeque<Vec<u8>>,
    last: Option<Vec<u8>>,
}

struct Pair {
    s: [Sess; 2],
    q: [Queue; 2],
    c: [Conn; 2],
    cq: [Queue; 2],
}

/// What the receiving end `side` of a pair is given: genuine, repeated, altered, or made up.
fn delivery(ps: &mut [Pair], p: usize, side: usize, how: i64, conn: bool, r: &mut Rng, ctx: &mut Ctx) -> Vec<u8> {
    let np = ps.len();
    let q = if conn { &mut ps[p].cq[1 - side] } else { &mut ps[p].q[1 - side] };
    let mut m = match how {
        1 => {
            ctx.fault("duplicate");
            q.last.clone().unwrap_or_default()
        }
        0 => {
            let m = q.waiting.pop_front();
            if m.is_some() {
                q.last = m.clone();
            }
            m.unwrap_or_default()
        }
        _ => q.waiting.front().cloned().unwrap_or_default(),
    };
    match how {
        2 => {
            ctx.fault("bit_flip");
            if !m.is_empty() {
                let at = r.below(m.len() as u64) as usize;
                m[at] ^= 1 << r.below(8);
            }
        }
        3 => {
            ctx.fault("made_up");
            let n = nz::msg_size(r, 16, false);
            m = r.bytes(n);
        }
        4 => {
            ctx.fault("cut");
            let n = r.below(m.len() as u64 + 1) as usize;
            m.truncate(n);
        }
        5 => {
            ctx.fault("extended");
            let n = m.len() + 1 + r.below(40) as usize;
            m.resize(n, 7);
        }
        6 => {
            ctx.fault("from_another_session");
            let o = &ps[r.below(np as u64) as usize];
            let q = if conn { &o.cq } else { &o.q };
            m = q[r.below(2) as usize].waiting.front().cloned().unwrap_or(m);
        }
        7 => {
            ctx.fault("lost");
            let q = if conn { &mut ps[p].cq[1 - side] } else { &mut ps[p].q[1 - side] };
            q.waiting.pop_front();
            m = vec![];
        }
        _ => {}
    }
    m
}

fn send(x: &mut Sess, len: usize, r: &mut Rng, ctx: &mut Ctx) -> Result<Option<Vec<u8>>, crate::scenario::Violation> {
    let mut m = r.bytes(len);
    let before = m.clone();
    let ok = x.s.send_message(&mut m).is_ok();
    ctx.ev(&[1, len as u64, ok as u64]);
    if ok {
        completed(x)?;
        return Ok(Some(m));
    }
    ctx.probe("send_refused");
    if m != before {
        return viol("a refused send changed the caller's buffer", format!("{} bytes, call {} of the session", len, x.count));
    }
    Ok(None)
}

/// Counts a call that succeeded.
fn completed(x: &mut Sess) -> Outcome {
    x.count += 1;
    if x.count == 2 {
        match (x.s.get_handshake_hash(), x.s.get_remote_static_public_key()) {
            (Some(h), Some(k)) => x.done = Some((h, k.as_bytes())),
            (h, k) => return viol("a complete session does not say so", format!("hash {} key {}", h.is_some(), k.is_some())),
        }
    }
    Ok(())
}

fn recv(x: &mut Sess, side: usize, mut m: Vec<u8>, ctx: &mut Ctx) -> Result<bool, crate::scenario::Violation> {
    let before = m.clone();
    let ok = x.s.recv_message(&mut m).is_ok();
    ctx.ev(&[2, m.len() as u64, ok as u64]);
    if ok {
        completed(x)?;
        ctx.probe("received");
        return Ok(true);
    }
    ctx.probe("receive_refused");
    // A handshake message in its turn and of a possible size may be worked on before it is refused.
    let working = (side == 1 && x.count == 0 && m.len() >= 32) || (side == 0 && x.count == 1 && m.len() >= 96);
    if m != before && !working {
        return viol("a refused receive changed the caller's buffer", format!("{} bytes, call {} of the session", m.len(), x.count));
    }
    if m != before && m.len() != before.len() {
        return viol("a refused receive changed the caller's buffer", "its length".to_string());
    }
    Ok(false)
}

fn look(ps: &[Pair]) -> Outcome {
    for (p, pair) in ps.iter().enumerate() {
        for (side, x) in pair.s.iter().enumerate() {
            let who = || format!("session {} side {} after {} successful calls", p, side, x.count);
            if x.s.is_transport() != x.done.is_some() {
                return viol("completion misreported", format!("{}: {}", who(), x.s.is_transport()));
            }
            if x.s.get_message_count() as u128 != x.count {
                return viol("message count misreported", format!("{}: {}", who(), x.s.get_message_count()));
            }
            if x.s.get_handshake_hash() != x.done.map(|d| d.0) {
                return viol("handshake hash misreported", who());
            }
            if x.s.get_remote_static_public_key().map(|k| k.as_bytes()) != x.done.map(|d| d.1) {
                return viol("remote key misreported", who());
            }
        }
        for (side, c) in pair.c.iter().enumerate() {
            if c.c.is_handshake_complete() != c.done.is_some() || c.c.get_remote_pubkey().map(|k| k.as_bytes()) != c.done {
                return viol("connection misreported", format!("connection {} side {} complete {}", p, side, c.c.is_handshake_complete()));
            }
        }
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let np = s.steps.iter().find(|t| t.op == "pairs").map_or(1, |t| t.arg(0).clamp(1, 4)) as u64;
    let mut ps: Vec<Pair> = vec![];
    for p in 0..np {
        let key = nz::keypair(secret(&[s.seed, p, 1]))?;
        let sess = |init: bool| -> Result<Sess, crate::scenario::Violation> {
            let k = nz::keypair(secret(&[s.seed, p, 2 + init as u64]))?;
            Ok(Sess { s: NoiseSession::init_session(init, b"", k), count: 0, done: None })
        };
        ps.push(Pair {
            s: [sess(true)?, sess(false)?],
            q: Default::default(),
            c: [Conn { c: ConnectionEncryptor::new_outbound(), done: None }, Conn { c: ConnectionEncryptor::new_inbound(Some(key)), done: None }],
            cq: Default::default(),
        });
    }
    look(&ps)?;
    for (n, t) in s.steps.iter().enumerate() {
        let p = (t.arg(0).unsigned_abs() % np) as usize;
        let side = t.arg(1) as usize & 1;
        let r = &mut Rng::from(&[s.seed, n as u64, t.arg(3) as u64]);
        match t.op.as_str() {
            "send" => {
                let m = send(&mut ps[p].s[side], t.arg(2).clamp(0, 70_000) as usize, r, ctx)?;
                if let Some(m) = m {
                    ps[p].q[side].waiting.push_back(m);
                }
            }
            "pass" => {
                // A message that arrives at once; whether it can depends on what happened before.
                if let Some(m) = send(&mut ps[p].s[side], t.arg(2).clamp(16, 65535) as usize, r, ctx)? {
                    recv(&mut ps[p].s[1 - side], 1 - side, m, ctx)?;
                }
            }
            "recv" => {
                let m = delivery(&mut ps, p, side, t.arg(2), false, r, ctx);
                recv(&mut ps[p].s[side], side, m, ctx)?;
            }
            "rekey" | "clear" => {
                let x = &mut ps[p].s[side].s;
                match (t.op == "rekey", t.arg(2) & 1) {
                    (true, 0) => x.rekey_local_cipherstate(),
                    (true, _) => x.rekey_remote_cipherstate(),
                    (false, 0) => x.clear_local_cipherstate(),
                    (false, _) => x.clear_remote_cipherstate(),
                }
                ctx.fault(if t.op == "rekey" { "rekeyed" } else { "cleared" });
                ctx.ev(&[3, side as u64, t.arg(2) as u64]);
            }
            #[cfg(verif_sim)]
            "jump" => {
                // Both ends have lived long already.
                if ps[p].s.iter().all(|x| x.done.is_some()) {
                    let to = [200, 65_530, u32::MAX as u64 - 3, 1 << 33, (1 << 63) - 2, u64::MAX - 3][t.arg(1).unsigned_abs() as usize % 6];
                    for x in ps[p].s.iter_mut() {
                        x.s.verif_set_message_numbers(to, to);
                        x.count = 2 + 2 * to as u128;
                    }
                    ps[p].q = Default::default();
                    ctx.fault("fast_forward");
                }
            }
            "cinit" => {
                let c = &mut ps[p].c[side];
                if let Ok(m) = c.c.init_handshake() {
                    ctx.ev(&[4, m.len() as u64]);
                    if c.done.is_none() {
                        ps[p].cq[side].waiting.push_back(m);
                    }
                } else {
                    ctx.probe("connection_refused");
                }
            }
            "crecv" => {
                let mut m = delivery(&mut ps, p, side, t.arg(2), true, r, ctx);
                let c = &mut ps[p].c[side];
                let ok = c.c.recv_handshake(&mut m);
                ctx.ev(&[5, ok.is_ok() as u64]);
                match ok {
                    Ok(b) => {
                        if c.done.is_none() {
                            match c.c.get_remote_pubkey() {
                                Some(k) => c.done = Some(k.as_bytes()),
                                None => return viol("connection misreported", "complete, but without a remote key".to_string()),
                            }
                            ctx.probe("connections_completed");
                        }
                        ps[p].cq[side].waiting.push_back(b);
                    }
                    Err(_) => ctx.probe("connection_refused"),
                }
            }
            _ => {}
        }
        look(&ps)?;
    }
    for pair in &ps {
        for x in &pair.s {
            ctx.probe(if x.done.is_some() { "sessions_completed" } else { "sessions_not_completed" });
        }
    }
    Ok(())
}
