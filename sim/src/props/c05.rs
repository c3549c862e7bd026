//! Handshake refuses bad or out-of-turn input without crashing or derailing.
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

pub const PROP: Prop = Prop {
    id: "C05",
    gen,
    exec,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "An initiator and a responder (plain sessions or connection encryptors) receive a random sequence of handshake calls: sends of any length, genuine, tampered, truncated, extended, repeated, reflected and random messages in any order; a role state machine predicts every outcome, and at the end the genuine handshake is driven to completion whenever nothing authentic was consumed by an attack.",
    real: "nx-noise session, handshake and primitives; stratumv2 ConnectionEncryptor",
    stub: "the network",
    assumptions: &["an initiator that was fed a well-sized forged second message may be unable to recover (Noise sessions are single-use); only length and turn refusals must be harmless"],
};

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C05", 0);
    s.push("kind", &[r.below(2) as i64, r.range(0, 40)]);
    // Most attacks are only reached if the handshake gets going.
    let n = r.range(1, 14);
    for _ in 0..n {
        let side = r.below(2) as i64;
        if r.chance(1, 3000) {
            // Calls and messages that are refused, over and over.
            let kind = *r.pick(&["junk", "zeros", "send"]);
            let bad = r.chance(1, 2);
            for _ in 0..nz::long(r, 60) {
                let n = if bad { r.below(16) as i64 } else { 16 + r.below(110) as i64 };
                s.push(kind, &[side, n, r.tag()]);
            }
        }
        match r.below(14) {
            0 | 1 => s.push("send", &[side, nz::bad_size(r, 110) as i64]),
            2 => s.push("send", &[0, nz::msg_size(r, 32, true) as i64]),
            3 => s.push("send", &[1, nz::msg_size(r, 96, true) as i64]),
            4 => s.push("junk", &[side, nz::bad_size(r, 110) as i64, r.tag()]),
            5 => s.push("junk", &[side, nz::msg_size(r, 16, true) as i64, r.tag()]),
            6 | 7 => s.push("give", &[1, 0]),
            8 => s.push("give", &[0, 1]),
            9 => s.push("give", &[side, r.below(2) as i64]),
            10 => s.push("cut", &[side, r.below(2) as i64, r.below(120) as i64]),
            11 => s.push("pad", &[side, r.below(2) as i64, nz::bad_size(r, 1) as i64]),
            12 => s.push("flip", &[side, r.below(2) as i64, r.tag()]),
            _ => s.push("zeros", &[side, nz::bad_size(r, 110) as i64]),
        }
    }
    s
}

enum Side {
    S(NoiseSession),
    E(ConnectionEncryptor),
}
impl Side {
    fn done(&self) -> bool {
        match self {
            Side::S(s) => s.is_transport(),
            Side::E(e) => e.is_handshake_complete(),
        }
    }
    fn key(&self) -> Option<[u8; 32]> {
        match self {
            Side::S(s) => s.get_remote_static_public_key().map(|k| k.as_bytes()),
            Side::E(e) => e.get_remote_pubkey().map(|k| k.as_bytes()),
        }
    }
    fn hash(&self) -> Option<[u8; 32]> {
        match self {
            Side::S(s) => s.get_handshake_hash(),
            Side::E(_) => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Fresh,
    /// Initiator: A sent. Responder: A received.
    Half,
    Done,
    /// Fed something forged that it could only refuse by trying it.
    Spent,
}

struct W {
    side: [Side; 2],
    st: [St; 2],
    a: Option<Vec<u8>>,
    b: Option<Vec<u8>>,
    /// The responder answered exactly the initiator's A.
    genuine: bool,
    enc: bool,
    /// Calls that succeeded on each side.
    done: [u128; 2],
}

fn check_state(w: &W, ctx: &mut Ctx) -> Outcome {
    for i in 0..2 {
        let d = w.side[i].done();
        ctx.ev(&[i as u64, w.st[i] as u64, d as u64]);
        let who = ["initiator", "responder"][i];
        if d && w.st[i] != St::Done {
            return viol("complete too early", format!("{} reports complete in state {:?}", who, w.st[i]));
        }
        if !d && w.st[i] == St::Done {
            return viol("not complete", format!("{} exchanged both messages but is not complete", who));
        }
        if let Side::S(s) = &w.side[i] {
            if s.get_message_count() != w.done[i] {
                return viol("message count", format!("{} counts {} messages after {} successful calls", who, s.get_message_count(), w.done[i]));
            }
        }
        if !d && (w.side[i].key().is_some() || w.side[i].hash().is_some()) {
            return viol("reported before completion", format!("{} reports a remote key or handshake hash", who));
        }
    }
    Ok(())
}

/// The side sends; for an encryptor only the initiator has such a call.
fn do_send(w: &mut W, who: usize, len: usize, seed: u64, ctx: &mut Ctx) -> Outcome {
    let mut buf = Rng::from(&[seed, len as u64]).bytes(len);
    let (ok, out) = match &mut w.side[who] {
        Side::S(s) => (s.send_message(&mut buf).is_ok(), buf),
        Side::E(e) => match e.init_handshake() {
            Ok(v) => (true, v),
            Err(_) => (false, vec![]),
        },
    };
    w.done[who] += ok as u128;
    let len = if w.enc { out.len().max(32) } else { len };
    ctx.ev(&[10, who as u64, len as u64, ok as u64]);
    ctx.note(|| format!("{} send({}) in {:?} -> {}", who, len, w.st[who], ok));
    let st = w.st[who];
    if st == St::Done {
        if w.enc {
            return Ok(());
        }
        let want = (16..=nz::MAXM).contains(&len);
        if ok != want {
            return viol("send outcome", format!("transport send of {} bytes: {}", len, ok));
        }
        return Ok(());
    }
    if st == St::Spent {
        if ok {
            return viol("out of turn", "initiator sent a second handshake message");
        }
        return Ok(());
    }
    let turn = if who == 0 { st == St::Fresh } else { st == St::Half };
    let min = if who == 0 { nz::A_MIN } else { nz::B_MIN };
    let fits = (min..=nz::MAXM).contains(&len);
    if !turn || (!fits && !w.enc) {
        ctx.fault(if turn { "bad_length_send" } else { "out_of_turn_send" });
        if ok {
            return viol(if turn { "bad length accepted" } else { "out of turn" }, format!("{} send of {} bytes in state {:?}", who, len, st));
        }
        return Ok(());
    }
    if !ok {
        return viol("proper send refused", format!("{} send of {} bytes in state {:?}", who, len, st));
    }
    if who == 0 {
        w.a = Some(out);
        w.st[0] = St::Half;
    } else {
        w.b = Some(out);
        w.st[1] = St::Done;
    }
    ctx.probe("handshake_send");
    Ok(())
}

fn do_recv(w: &mut W, who: usize, msg: &[u8], ctx: &mut Ctx) -> Outcome {
    let mut buf = msg.to_vec();
    let (ok, reply) = match &mut w.side[who] {
        Side::S(s) => (s.recv_message(&mut buf).is_ok(), None),
        Side::E(e) => match e.recv_handshake(&mut buf) {
            Ok(v) => (true, Some(v)),
            Err(_) => (false, None),
        },
    };
    w.done[who] += ok as u128;
    ctx.ev(&[11, who as u64, msg.len() as u64, ok as u64]);
    ctx.note(|| format!("{} recv({} bytes) in {:?} -> {}", who, msg.len(), w.st[who], ok));
    let st = w.st[who];
    match (who, st) {
        (_, St::Done) => {
            // Nothing handed over here is a genuine transport message, except that an
            // encryptor's completing reply is one and is never delivered.
            if ok {
                return viol("forged transport message accepted", format!("{} bytes", msg.len()));
            }
            ctx.fault("message_after_completion");
        }
        (0, St::Fresh) | (1, St::Half) => {
            ctx.fault("out_of_turn_message");
            if ok {
                return viol("out of turn", format!("{} accepted {} bytes in state {:?}", who, msg.len(), st));
            }
        }
        (1, St::Fresh) => {
            let fits = (nz::A_MIN..=nz::MAXM).contains(&msg.len());
            if !fits {
                ctx.fault("bad_length_message");
                if ok {
                    return viol("bad length accepted", format!("first message of {} bytes", msg.len()));
                }
                return Ok(());
            }
            let mut e = [0; 32];
            e.copy_from_slice(&msg[..32]);
            if nz::is_low_order(&e) {
                ctx.fault("degenerate_key");
                if ok {
                    return viol("degenerate key accepted", "first message");
                }
                return Ok(());
            }
            if !ok {
                return viol("proper message refused", format!("first message of {} bytes", msg.len()));
            }
            w.genuine = w.a.as_deref() == Some(msg);
            if !w.genuine {
                ctx.fault("forged_first_message");
            }
            if let Some(rep) = reply {
                w.b = Some(rep);
                w.st[1] = St::Done;
            } else {
                w.st[1] = St::Half;
            }
            ctx.probe("first_message_taken");
        }
        (0, St::Half) => {
            let fits = (nz::B_MIN..=nz::MAXM).contains(&msg.len());
            if !fits {
                ctx.fault("bad_length_message");
                if ok {
                    return viol("bad length accepted", format!("second message of {} bytes", msg.len()));
                }
                return Ok(());
            }
            if w.genuine && w.b.as_deref() == Some(msg) {
                if !ok {
                    return viol("genuine message refused", format!("second message of {} bytes after refused calls only", msg.len()));
                }
                w.st[0] = St::Done;
                ctx.probe("completed");
            } else {
                ctx.fault("forged_second_message");
                if ok {
                    return viol("forged message accepted", format!("second message of {} bytes", msg.len()));
                }
                w.st[0] = St::Spent;
            }
        }
        (0, St::Spent) => {
            if ok {
                if !(w.genuine && w.b.as_deref() == Some(msg)) {
                    return viol("forged message accepted", format!("second message of {} bytes", msg.len()));
                }
                w.st[0] = St::Done;
            }
            ctx.fault("message_to_spent_session");
        }
        _ => {}
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let kind = s.steps.iter().find(|t| t.op == "kind");
    let enc = kind.map_or(false, |t| t.arg(0) == 1);
    let prologue = Rng::from(&[s.seed, 1]).bytes(kind.map_or(0, |t| t.arg(1).clamp(0, 4000)) as usize);
    let rs = secret(&[s.seed, 2]);
    let side = if enc {
        [Side::E(ConnectionEncryptor::new_outbound()), Side::E(ConnectionEncryptor::new_inbound(Some(keypair(rs)?)))]
    } else {
        [
            Side::S(NoiseSession::init_session(true, &prologue, keypair(secret(&[s.seed, 3]))?)),
            Side::S(NoiseSession::init_session(false, &prologue, keypair(rs)?)),
        ]
    };
    let mut w = W { side, st: [St::Fresh; 2], a: None, b: None, genuine: false, done: [0; 2], enc };
    check_state(&w, ctx)?;
    for (n, t) in s.steps.iter().enumerate() {
        let who = (t.arg(0) & 1) as usize;
        let pick = |w: &W, k: i64| if k & 1 == 0 { w.a.clone() } else { w.b.clone() };
        match t.op.as_str() {
            "send" => do_send(&mut w, who, t.arg(1).clamp(0, 200_000) as usize, s.seed ^ n as u64, ctx)?,
            "junk" => {
                let m = Rng::from(&[s.seed, t.arg(2) as u64]).bytes(t.arg(1).clamp(0, 200_000) as usize);
                do_recv(&mut w, who, &m, ctx)?
            }
            "zeros" => do_recv(&mut w, who, &vec![0; t.arg(1).clamp(0, 200_000) as usize], ctx)?,
            "give" => {
                if let Some(m) = pick(&w, t.arg(1)) {
                    do_recv(&mut w, who, &m, ctx)?
                }
            }
            "cut" => {
                if let Some(mut m) = pick(&w, t.arg(1)) {
                    m.truncate(t.arg(2).max(0) as usize);
                    do_recv(&mut w, who, &m, ctx)?
                }
            }
            "pad" => {
                if let Some(mut m) = pick(&w, t.arg(1)) {
                    let l = t.arg(2).clamp(0, 200_000) as usize;
                    let l = l.max(m.len() + 1);
                    m.resize(l, 0x5a);
                    do_recv(&mut w, who, &m, ctx)?
                }
            }
            "flip" => {
                if let Some(mut m) = pick(&w, t.arg(1)) {
                    let p = t.arg(2) as usize % (m.len() * 8);
                    m[p / 8] ^= 1 << (p % 8);
                    // The top bit of an ephemeral key is ignored by X25519 but is part
                    // of the transcript, so this is a forgery like any other.
                    do_recv(&mut w, who, &m, ctx)?
                }
            }
            _ => continue,
        }
        check_state(&w, ctx)?;
    }
    // Drive the genuine handshake home wherever the refusals must have been harmless.
    if w.st[0] == St::Spent || (w.st[1] != St::Fresh && !w.genuine) {
        return Ok(());
    }
    if w.st[0] == St::Fresh {
        do_send(&mut w, 0, 64, s.seed, ctx)?;
    }
    if w.st[1] == St::Fresh {
        let a = w.a.clone().unwrap_or_default();
        do_recv(&mut w, 1, &a, ctx)?;
    }
    if w.st[1] == St::Half {
        do_send(&mut w, 1, 128, s.seed, ctx)?;
    }
    if w.st[0] == St::Half {
        let b = w.b.clone().unwrap_or_default();
        do_recv(&mut w, 0, &b, ctx)?;
    }
    check_state(&w, ctx)?;
    if w.st != [St::Done; 2] {
        return viol("derailed", format!("states {:?} after the genuine messages", w.st));
    }
    let want = crate::crypto::x25519_pub(&rs);
    if w.side[0].key() != Some(want) {
        return viol("wrong peer key", "initiator reports another static key");
    }
    if w.side[0].hash() != w.side[1].hash() {
        return viol("hashes differ", "");
    }
    ctx.probe("driven_to_completion");
    // Sessions whose steps sent no transport message are still in step.
    let extra = s.steps.iter().filter(|t| t.op == "send").count();
    let [x, y] = w.side;
    if let (Side::S(mut i), Side::S(mut r)) = (x, y) {
        if extra == 0 {
            nz::pass(&mut i, &mut r, b"after the handshake", "first transport message")?;
            nz::pass(&mut r, &mut i, b"and back", "first transport reply")?;
        }
    }
    Ok(())
}
