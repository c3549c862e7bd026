//! Untampered handshakes complete in one round trip at every permitted size.
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use std::collections::VecDeque;
use stratumv2::network::{ConnectionEncryptor, Encryptor};
use stratumv2::noise::{new_noise_initiator, new_noise_responder};

pub const PROP: Prop = Prop {
    id: "C07",
    gen,
    exec,
    quick: 30_000,
    thorough: 1_000_000,
    rule: "A handshake with message sizes across the permitted range, preceded by refused calls and abandoned sessions, then an arbitrary interleaving of messages of permitted sizes queued in both directions with arbitrary delivery delays.",
    real: "nx-noise sessions, stratumv2 session constructors and ConnectionEncryptor",
    stub: "the network (in-order queues)",
    assumptions: &[],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C07", 0);
    let big = idx % 3 == 0;
    s.push("ctor", &[r.below(3) as i64, r.range(0, 80)]);
    for _ in 0..r.below(3) {
        s.push("abandon", &[r.below(4) as i64]);
    }
    for _ in 0..r.below(4) {
        s.push("refused", &[r.below(3) as i64, r.below(2) as i64, nz::bad_size(r, 32) as i64]);
    }
    if idx % 997 == 3 {
        // A long conversation.
        for _ in 0..2 {
            s.push("many", &[r.below(3) as i64, r.range(200, 70_000), r.range(1, 4)]);
        }
    }
    if idx % 25 == 4 {
        // Conversations that have gone on for longer than can be simulated.
        for _ in 0..r.range(1, 4) {
            let near = |r: &mut Rng| ((1i64 << r.range(8, 62)) - r.range(0, 60)).max(1);
            let (x, y) = (near(r), near(r));
            s.push("skip", &if r.chance(1, 3) { [x, x] } else { [x, y] });
            s.push("many", &[r.below(3) as i64, r.range(100, 500), r.range(1, 4)]);
        }
    }
    s.push("a", &[nz::msg_size(r, 32, big) as i64]);
    s.push("b", &[nz::msg_size(r, 96, big) as i64]);
    for _ in 0..r.below(20) {
        match r.below(8) {
            0..=2 => s.push("send", &[0, nz::msg_size(r, 16, big) as i64]),
            3..=5 => s.push("send", &[1, nz::msg_size(r, 16, big) as i64]),
            6 => s.push("deliver", &[0, r.range(1, 5)]),
            _ => s.push("deliver", &[1, r.range(1, 5)]),
        }
    }
    s
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let find = |op: &str| s.steps.iter().find(|t| t.op == op);
    let ctor = find("ctor").map_or(0, |t| t.arg(0).rem_euclid(3));
    let pro = Rng::from(&[s.seed, 1]).bytes(find("ctor").map_or(0, |t| t.arg(1).clamp(0, 5000)) as usize);
    let alen = find("a").map_or(64, |t| t.arg(0)).clamp(32, 65535) as usize;
    let blen = find("b").map_or(128, |t| t.arg(0)).clamp(96, 65535) as usize;
    let rs = secret(&[s.seed, 2]);
    // Abandoned sessions: created, perhaps half way through, and dropped or ended.
    for t in s.steps.iter().filter(|t| t.op == "abandon") {
        let mut x = new_noise_initiator();
        let mut y = new_noise_responder(Some(keypair(rs)?));
        let mut m = vec![0u8; 100];
        if t.arg(0) & 1 == 1 && x.send_message(&mut m).is_ok() {
            let _ = y.recv_message(&mut m);
        }
        if t.arg(0) & 2 == 2 {
            x.end_session();
            y.end_session();
        }
        ctx.fault("abandoned_session");
    }
    ctx.ev(&[ctor as u64, alen as u64, blen as u64]);
    if ctor == 2 {
        // The connection layer chooses its own sizes for the first message; the reply
        // it gives must fit whatever permitted first message arrived.
        let mut resp = ConnectionEncryptor::new_inbound(Some(keypair(rs)?));
        let use_own = s.seed % 2 == 0;
        let want = crate::crypto::x25519_pub(&rs);
        for t in s.steps.iter().filter(|t| t.op == "refused" && t.arg(0) == 0) {
            let _ = resp.recv_handshake(&mut vec![1; t.arg(2).clamp(0, 31) as usize]);
            ctx.fault("refused_call");
        }
        if use_own {
            let mut init = ConnectionEncryptor::new_outbound();
            for t in s.steps.iter().filter(|t| t.op == "refused" && t.arg(0) == 1) {
                let _ = init.recv_handshake(&mut vec![1; t.arg(2).clamp(0, 200) as usize]);
                ctx.fault("refused_call");
            }
            let mut a = match init.init_handshake() {
                Ok(a) => a,
                Err(e) => return viol("handshake failed", format!("init_handshake: {}", e)),
            };
            let mut b = match resp.recv_handshake(&mut a) {
                Ok(b) => b,
                Err(e) => return viol("handshake failed", format!("recv_handshake of A: {}", e)),
            };
            if !resp.is_handshake_complete() {
                return viol("not complete", "inbound connection after both messages");
            }
            if let Err(e) = init.recv_handshake(&mut b) {
                return viol("handshake failed", format!("recv_handshake of B: {}", e));
            }
            if !init.is_handshake_complete() || init.get_remote_pubkey().map(|k| k.as_bytes()) != Some(want) {
                return viol("not complete", "outbound connection after both messages");
            }
        } else {
            let mut init = new_noise_initiator();
            let mut a = Rng::from(&[s.seed, 5]).bytes(alen);
            if let Err(e) = init.send_message(&mut a) {
                return viol("handshake failed", format!("A of {} bytes: {}", alen, e));
            }
            let mut b = match resp.recv_handshake(&mut a) {
                Ok(b) => b,
                Err(e) => return viol("handshake failed", format!("recv_handshake of A with {} bytes: {}", alen, e)),
            };
            if b.len() > 65535 {
                return viol("reply too long", format!("{}", b.len()));
            }
            if let Err(e) = init.recv_message(&mut b) {
                return viol("handshake failed", format!("B of {} bytes: {}", b.len(), e));
            }
            if !init.is_transport() || !resp.is_handshake_complete() {
                return viol("not complete", "after both messages");
            }
        }
        ctx.probe("connection_completed");
        return Ok(());
    }
    let (mut i, mut r) = if ctor == 0 {
        (NoiseSession::init_session(true, &pro, keypair(secret(&[s.seed, 3]))?), NoiseSession::init_session(false, &pro, keypair(rs)?))
    } else {
        (new_noise_initiator(), new_noise_responder(Some(keypair(rs)?)))
    };
    // Refused calls at the three stages of the handshake.
    let refused = |stage: i64, i: &mut NoiseSession, r: &mut NoiseSession, ctx: &mut Ctx| {
        for t in s.steps.iter().filter(|t| t.op == "refused" && t.arg(0) == stage) {
            let mut b = vec![3u8; t.arg(2).clamp(0, 200_000) as usize];
            if b.len() >= 32 && b.len() <= 65535 {
                b.truncate(31);
            }
            let x = if t.arg(1) & 1 == 0 { &mut *i } else { &mut *r };
            let _ = x.send_message(&mut b);
            let _ = x.recv_message(&mut b);
            ctx.fault("refused_call");
        }
    };
    refused(0, &mut i, &mut r, ctx);
    let pay = Rng::from(&[s.seed, 5]).bytes(alen);
    let mut m = pay.clone();
    if let Err(e) = i.send_message(&mut m) {
        return viol("handshake failed", format!("A of {} bytes not sent: {}", alen, e));
    }
    refused(1, &mut i, &mut r, ctx);
    if let Err(e) = r.recv_message(&mut m) {
        return viol("handshake failed", format!("A of {} bytes refused: {}", alen, e));
    }
    if m[32..] != pay[32..] {
        return viol("content changed", format!("payload of A, {} bytes", alen));
    }
    if i.is_transport() || r.is_transport() {
        return viol("complete too early", "after the first message");
    }
    refused(2, &mut i, &mut r, ctx);
    let pay = Rng::from(&[s.seed, 6]).bytes(blen);
    let mut m = pay.clone();
    if let Err(e) = r.send_message(&mut m) {
        return viol("handshake failed", format!("B of {} bytes not sent: {}", blen, e));
    }
    if let Err(e) = i.recv_message(&mut m) {
        return viol("handshake failed", format!("B of {} bytes refused: {}", blen, e));
    }
    if m[80..blen - 16] != pay[80..blen - 16] {
        return viol("content changed", format!("payload of B, {} bytes", blen));
    }
    if !i.is_transport() || !r.is_transport() {
        return viol("not complete", "after both messages");
    }
    ctx.probe("handshake_completed");
    let told = |i: &NoiseSession, r: &NoiseSession| (i.get_handshake_hash(), r.get_handshake_hash(), i.get_remote_static_public_key().map(|k| k.as_bytes()));
    let first = told(&i, &r);
    if first.0.is_none() || first.0 != first.1 || first.2 != Some(crate::crypto::x25519_pub(&rs)) {
        return viol("ends disagree", "handshake hash or responder key after completion");
    }
    let mut passed = 2u128;
    ctx.max("largest_a", alen as u64);
    ctx.max("largest_b", blen as u64);
    // Transport.
    let mut q: [VecDeque<(Vec<u8>, Vec<u8>)>; 2] = [VecDeque::new(), VecDeque::new()];
    let mut ops: Vec<(bool, usize, usize)> = s
        .steps
        .iter()
        .filter_map(|t| match t.op.as_str() {
            "send" => Some((true, (t.arg(0) & 1) as usize, t.arg(1).clamp(16, 65535) as usize)),
            "deliver" => Some((false, (t.arg(0) & 1) as usize, t.arg(1).clamp(0, 100) as usize)),
            _ => None,
        })
        .collect();
    let mut sent = [0u64; 2];
    for t in s.steps.iter().filter(|t| t.op == "many" || t.op == "skip") {
        if t.op == "skip" {
            #[cfg(verif_sim)]
            {
                sent = [sent[0].max(t.arg(0).max(0) as u64), sent[1].max(t.arg(1).max(0) as u64)];
                i.verif_set_message_numbers(sent[0], sent[1]);
                r.verif_set_message_numbers(sent[0], sent[1]);
                passed = 2 + sent[0] as u128 + sent[1] as u128;
                ctx.fault("fast_forward");
            }
            continue;
        }
        // One way only, or crossing: both ends send some before either receives them.
        let dirs: &[usize] = match t.arg(0).rem_euclid(3) {
            0 => &[0],
            1 => &[1],
            _ => &[0, 1],
        };
        let window = t.arg(2).clamp(1, 8) as usize;
        let rounds = t.arg(1).clamp(0, 200_000) as usize / (dirs.len() * window);
        for round in 0..rounds {
            let mut wire = [[[0u8; 24]; 8]; 2];
            for &d in dirs {
                for (n, m) in wire[d].iter_mut().take(window).enumerate() {
                    let pt = ((round * 16 + d * 8 + n) as u64 ^ s.seed).to_le_bytes();
                    m[..8].copy_from_slice(&pt);
                    if let Err(e) = if d == 0 { i.send_message(m) } else { r.send_message(m) } {
                        return viol("message not sent", format!("24 bytes, after {} messages: {}", passed, e));
                    }
                }
            }
            for &d in dirs {
                for (n, m) in wire[d].iter_mut().take(window).enumerate() {
                    let pt = ((round * 16 + d * 8 + n) as u64 ^ s.seed).to_le_bytes();
                    if let Err(e) = if d == 0 { r.recv_message(m) } else { i.recv_message(m) } {
                        return viol("message refused", format!("24 bytes, after {} messages: {}", passed, e));
                    }
                    if m[..8] != pt {
                        return viol("content changed", format!("after {} messages", passed));
                    }
                    passed += 1;
                    sent[d] += 1;
                }
            }
        }
        ctx.max("longest_conversation", passed.min(u64::MAX as u128) as u64);
    }
    ops.push((false, 0, usize::MAX));
    ops.push((false, 1, usize::MAX));
    for (n, (send, dir, x)) in ops.into_iter().enumerate() {
        let (a, b) = if dir == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        if send {
            let mut m = Rng::from(&[s.seed, 9, n as u64]).bytes(x);
            let pt = m[..x - 16].to_vec();
            if let Err(e) = a.send_message(&mut m) {
                return viol("message not sent", format!("{} bytes: {}", x, e));
            }
            if x >= 48 && m[..x - 16] == pt[..] {
                return viol("sent in the clear", format!("{} bytes", x));
            }
            ctx.ev_bytes(dir as u64, &m[..m.len().min(64)]);
            q[dir].push_back((m, pt));
            if q[dir].len() > 1 {
                ctx.fault("delayed_delivery");
            }
        } else {
            for _ in 0..x {
                let Some((mut m, pt)) = q[dir].pop_front() else { break };
                if let Err(e) = b.recv_message(&mut m) {
                    return viol("message refused", format!("{} bytes: {}", m.len(), e));
                }
                if m[..pt.len()] != pt[..] {
                    return viol("content changed", format!("{} bytes", m.len()));
                }
                ctx.probe("transport_message");
                passed += 1;
            }
        }
    }
    if told(&i, &r) != first || !i.is_transport() || !r.is_transport() {
        return viol("ends disagree", "handshake hash or responder key changed during the conversation");
    }
    if (i.get_message_count(), r.get_message_count()) != (passed, passed) {
        return viol("message count", format!("{} and {} after {} messages", i.get_message_count(), r.get_message_count(), passed));
    }
    Ok(())
}
