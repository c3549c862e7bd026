//! The secure channel accepts only the genuine next message, exactly once.
use crate::nz::{self, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;

pub const PROP: Prop = Prop {
    id: "C08",
    gen,
    exec,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "Two sessions between the same parties exchange messages through an attacker that drops, duplicates, reorders, replays, reflects, crosses sessions, truncates, extends, flips and forges; a per-direction model decides each delivery.",
    real: "nx-noise sessions and primitives",
    stub: "the network and the attacker",
    assumptions: &["a 128-bit authenticator is not forged by chance"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C08", 0);
    let big = idx % 8 == 0;
    let n = if idx % 50 == 0 { 300 } else { r.range(3, 40) };
    for _ in 0..n {
        let ch = r.below(8) as i64; // session * 4 + direction (bit 0)
        let ch = if r.chance(3, 4) { ch & 1 } else { ch & 3 };
        if r.chance(1, 3000) {
            // An attacker that does not give up.
            let kind = *r.pick(&["forge", "forge", "flip", "trunc", "badsend", "replay", "reflect"]);
            for _ in 0..nz::long(r, 100) {
                match kind {
                    "forge" => s.push(kind, &[ch, 16 + r.below(50) as i64, r.tag()]),
                    "badsend" => s.push(kind, &[ch, r.below(16) as i64]),
                    "trunc" => s.push(kind, &[ch, r.range(1, 70)]),
                    _ => s.push(kind, &[ch, r.tag()]),
                }
            }
        }
        match r.below(20) {
            0..=5 => s.push("send", &[ch, nz::msg_size(r, 16, big) as i64]),
            6..=9 => s.push("next", &[ch]),
            10 => s.push("lose", &[ch]),
            11 => s.push("replay", &[ch, r.tag()]),
            12 => s.push("ahead", &[ch, r.range(1, 5)]),
            13 => s.push("reflect", &[ch, r.tag()]),
            14 => s.push("cross", &[ch, r.tag()]),
            15 => s.push("flip", &[ch, r.tag()]),
            16 => s.push("trunc", &[ch, r.range(1, 70)]),
            17 => s.push("extend", &[ch, r.range(1, 40)]),
            18 => s.push("forge", &[ch, nz::msg_size(r, 16, big) as i64, r.tag()]),
            _ => s.push("badsend", &[ch, nz::bad_size(r, 16) as i64]),
        }
    }
    s
}

#[derive(Default)]
struct Chan {
    /// All ciphertexts and plaintexts sent in this direction.
    log: Vec<(Vec<u8>, Vec<u8>)>,
    next: usize,
    /// Genuine messages the network destroyed: the channel can never move past one,
    /// except that the attacker kept a copy (the log) and may deliver it later.
    lost: usize,
}

fn leaks(buf: &[u8], pt: &[u8]) -> bool {
    pt.chunks_exact(16).enumerate().any(|(i, c)| buf.len() >= 16 * i + 16 && buf[16 * i..16 * i + 16] == *c)
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut r = Rng::from(&[s.seed, 1]);
    let rs = secret(&[s.seed, 2]);
    let mut ss: Vec<[NoiseSession; 2]> = vec![];
    for k in 0..2u64 {
        let p = nz::handshake(&[], secret(&[s.seed, 3 + k]), rs, 64, 128, &mut r)?;
        ss.push([p.i, p.r]);
    }
    let told = |p: &[NoiseSession; 2]| (p[0].get_handshake_hash(), p[1].get_handshake_hash(), p[0].get_remote_static_public_key().map(|k| k.as_bytes()));
    let before: Vec<_> = ss.iter().map(told).collect();
    let mut counts = [[2u128; 2]; 2];
    let mut ch: [Chan; 4] = Default::default();
    // A last genuine message in each direction shows the channels are still usable.
    let mut steps: Vec<(String, Vec<i64>)> = s.steps.iter().map(|t| (t.op.clone(), t.a.clone())).collect();
    for c in 0..4 {
        steps.push(("send".into(), vec![c, 40]));
        steps.push(("drain".into(), vec![c]));
    }
    for (n, (op, a)) in steps.iter().enumerate() {
        let arg = |i: usize| a.get(i).copied().unwrap_or(0);
        let c = (arg(0) & 3) as usize;
        let (sess, dir) = (c >> 1, c & 1);
        // dir 0: initiator to responder.
        let mut tries: Vec<(Vec<u8>, &'static str)> = vec![];
        match op.as_str() {
            "send" => {
                let len = arg(1).clamp(16, 65535) as usize;
                let mut m = Rng::from(&[s.seed, 7, n as u64]).bytes(len);
                let pt = m[..len - 16].to_vec();
                if let Err(e) = ss[sess][dir].send_message(&mut m) {
                    return viol("send refused", format!("{} bytes: {}", len, e));
                }
                counts[sess][dir] += 1;
                if leaks(&m, &pt) {
                    return viol("sent in the clear", format!("{} bytes", len));
                }
                ctx.ev_bytes(c as u64, &m[..m.len().min(48)]);
                ch[c].log.push((m, pt));
            }
            "badsend" => {
                let len = arg(1).clamp(0, 200_000) as usize;
                if (16..=65535).contains(&len) {
                    continue;
                }
                ctx.fault("refused_send");
                if ss[sess][dir].send_message(&mut vec![1; len]).is_ok() {
                    return viol("bad length sent", format!("{} bytes", len));
                }
                if ss[sess][1 - dir].recv_message(&mut vec![1; len]).is_ok() {
                    return viol("bad length accepted", format!("{} bytes", len));
                }
            }
            "next" => {
                if let Some((m, _)) = ch[c].log.get(ch[c].next) {
                    tries.push((m.clone(), "next"));
                }
            }
            "drain" => {
                for (m, _) in &ch[c].log[ch[c].next..] {
                    tries.push((m.clone(), "next"));
                }
            }
            "lose" => {
                // Lost on the way; what follows must be refused until it is delivered.
                ctx.fault("lost");
                if let Some((m, _)) = ch[c].log.get(ch[c].next + 1) {
                    tries.push((m.clone(), "after_loss"));
                }
            }
            "replay" => {
                if ch[c].next > 0 {
                    tries.push((ch[c].log[arg(1).unsigned_abs() as usize % ch[c].next].0.clone(), "replayed"));
                }
            }
            "ahead" => {
                if let Some((m, _)) = ch[c].log.get(ch[c].next + arg(1).clamp(1, 50) as usize) {
                    tries.push((m.clone(), "reordered"));
                }
            }
            "reflect" => {
                let o = &ch[c ^ 1].log;
                if !o.is_empty() {
                    tries.push((o[arg(1).unsigned_abs() as usize % o.len()].0.clone(), "reflected"));
                }
            }
            "cross" => {
                let o = &ch[c ^ 2].log;
                if !o.is_empty() {
                    tries.push((o[arg(1).unsigned_abs() as usize % o.len()].0.clone(), "cross_session"));
                }
            }
            "flip" => {
                if let Some((m, _)) = ch[c].log.get(ch[c].next) {
                    let mut m = m.clone();
                    let p = arg(1).unsigned_abs() as usize;
                    // Half of the flips hit the authenticator.
                    let bit = if p & 1 == 0 { (p / 2) % (m.len() * 8) } else { (m.len() - 16) * 8 + (p / 2) % 128 };
                    m[bit / 8] ^= 1 << (bit % 8);
                    tries.push((m, "bit_flip"));
                }
            }
            "trunc" => {
                if let Some((m, _)) = ch[c].log.get(ch[c].next) {
                    let mut m = m.clone();
                    let l = m.len().saturating_sub(arg(1).max(1) as usize);
                    m.truncate(l);
                    tries.push((m, "truncated"));
                }
            }
            "extend" => {
                if let Some((m, _)) = ch[c].log.get(ch[c].next) {
                    let mut m = m.clone();
                    let l = m.len() + arg(1).clamp(1, 4000) as usize;
                    m.resize(l, (n % 3) as u8);
                    tries.push((m, "extended"));
                }
            }
            "forge" => {
                let mut f = Rng::from(&[s.seed, 8, arg(2) as u64]).bytes(arg(1).clamp(16, 65535) as usize);
                if arg(2) & 1 == 0 {
                    f.iter_mut().for_each(|b| *b = 0);
                }
                tries.push((f, "forged"));
            }
            _ => {}
        }
        for (m, what) in tries {
            let genuine = ch[c].log.get(ch[c].next).map_or(false, |x| x.0 == m);
            let mut b = m.clone();
            let ok = ss[sess][1 - dir].recv_message(&mut b).is_ok();
            ctx.ev(&[c as u64, genuine as u64, ok as u64, m.len() as u64]);
            ctx.note(|| format!("channel {}: {} message of {} bytes: accepted={}", c, what, m.len(), ok));
            if what != "next" {
                ctx.fault(what);
            }
            if genuine {
                if !ok {
                    return viol("genuine next message refused", format!("channel {} message {}", c, ch[c].next));
                }
                let pt = &ch[c].log[ch[c].next].1;
                if b[..pt.len()] != pt[..] {
                    return viol("wrong plaintext", format!("channel {} message {}", c, ch[c].next));
                }
                ch[c].next += 1;
                counts[sess][1 - dir] += 1;
                ctx.probe("accepted");
            } else {
                if ok {
                    return viol("not the genuine next message, but accepted", format!("{} message of {} bytes on channel {}", what, m.len(), c));
                }
                for k in 0..4 {
                    let lo = ch[k].next.saturating_sub(3);
                    for (_, pt) in ch[k].log.iter().skip(lo).take(8) {
                        if leaks(&b, pt) {
                            return viol("plaintext revealed", format!("a refused {} message left plaintext in the buffer", what));
                        }
                    }
                }
                ctx.probe("refused");
            }
        }
    }
    for k in 0..2 {
        if told(&ss[k]) != before[k] || !ss[k].iter().all(|x| x.is_transport()) {
            return viol("session identity changed", format!("session {}: handshake hash, peer key or transport state", k));
        }
        for e in 0..2 {
            if ss[k][e].get_message_count() != counts[k][e] {
                return viol("a refused message was counted", format!("session {} end {}: {} instead of {}", k, e, ss[k][e].get_message_count(), counts[k][e]));
            }
        }
    }
    Ok(())
}
