//! Rekeying or clearing affects exactly one direction of a session.
use crate::crypto;
use crate::nz::{self, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Violation};
use noiseexplorer_nx::noisesession::NoiseSession;

pub const PROP: Prop = Prop {
    id: "C11",
    gen,
    exec,
    quick: 60_000,
    thorough: 2_500_000,
    rule: "Two connected sessions send, receive, rekey and clear in any order and at different moments on either end, over a network that delays, duplicates, reorders and loses messages; a model of each direction (rekeys applied at each end, next message number, cleared or not) decides every send and delivery, and at the end every direction that can be brought back in step must carry traffic.",
    real: "nx-noise sessions and primitives",
    stub: "the network",
    assumptions: &["a 128-bit authenticator is not forged by chance"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C11", 0);
    let n = if idx % 40 == 0 { 250 } else { r.range(2, 40) };
    let clears = r.chance(1, 3);
    if r.chance(1, 60) {
        // A session that rekeys for a long time.
        let d = r.below(2) as i64;
        let n = nz::long(r, 50) as i64;
        s.push("rekey", &[0, d, n]);
        s.push("rekey", &[1, d, n + *r.pick(&[0i64, 0, 1, -1])]);
        s.push("send", &[d, 40]);
        s.push("next", &[d]);
    }
    for _ in 0..n {
        let d = r.below(2) as i64;
        match r.below(16) {
            0..=4 => s.push("send", &[d, nz::msg_size(r, 16, false) as i64]),
            5..=8 => s.push("next", &[d]),
            // Both ends of one direction, at possibly different moments.
            9 | 10 => s.push("rekey", &[r.below(2) as i64, d, if r.chance(1, 12) { r.range(2, 40) } else { 1 }]),
            11 => s.push("both", &[d]),
            12 => s.push("any", &[d, r.tag()]),
            13 => s.push("other", &[d, r.tag()]),
            14 if clears => s.push("clear", &[r.below(2) as i64, d]),
            14 => s.push("next", &[d]),
            _ => s.push("forge", &[d, r.range(16, 80), r.tag()]),
        }
    }
    s
}

#[derive(Default)]
struct Dir {
    /// At each end (0: the initiator, 1: the responder).
    epoch: [u64; 2],
    dead: [bool; 2],
    /// Messages sent and accepted.
    sent: u64,
    next: u64,
    log: Vec<(Vec<u8>, Vec<u8>, u64, u64)>,
}

struct World {
    s: [NoiseSession; 2],
    d: [Dir; 2],
}

impl World {
    fn send(&mut self, d: usize, len: usize, fill: u64, ctx: &mut Ctx) -> Outcome {
        let mut m = Rng::from(&[fill, 5]).bytes(len);
        let pt = m[..len - 16].to_vec();
        let ok = self.s[d].send_message(&mut m).is_ok();
        ctx.ev(&[1, d as u64, ok as u64, len as u64]);
        let x = &mut self.d[d];
        if x.dead[d] {
            if ok {
                return viol("a cleared direction sent", format!("direction {}", d));
            }
            ctx.probe("cleared_send_refused");
            return Ok(());
        }
        if !ok {
            return viol("send refused", format!("direction {} message {} of {} bytes", d, x.sent, len));
        }
        x.log.push((m, pt, x.epoch[d], x.sent));
        x.sent += 1;
        Ok(())
    }

    /// Delivers raw bytes to the receiving end of direction d; `k`: the log entry they are.
    fn give(&mut self, d: usize, m: &[u8], k: Option<usize>, ctx: &mut Ctx) -> Result<bool, Violation> {
        let e = 1 - d;
        let x = &self.d[d];
        let want = match k {
            Some(k) => !x.dead[e] && x.log[k].2 == x.epoch[e] && x.log[k].3 == x.next,
            None => false,
        };
        let mut b = m.to_vec();
        let ok = self.s[e].recv_message(&mut b).is_ok();
        ctx.ev(&[2, d as u64, want as u64, ok as u64]);
        ctx.note(|| format!("direction {} delivery {:?}: accepted={} expected={}", d, k, ok, want));
        if ok && !want {
            let why = if self.d[d].dead[e] { "accepted in a cleared direction" } else { "accepted although the ends are out of step" };
            return viol(why, format!("direction {} entry {:?}, rekeys sender {} receiver {}", d, k, self.d[d].epoch[d], self.d[d].epoch[e]));
        }
        if !ok && want {
            return viol("refused although the ends are in step", format!("direction {} entry {:?}, rekeys {}", d, k, self.d[d].epoch[e]));
        }
        if ok {
            let pt = &self.d[d].log[k.unwrap()].1;
            if b[..pt.len()] != pt[..] {
                return viol("wrong plaintext", format!("direction {}", d));
            }
            self.d[d].next += 1;
            ctx.probe("accepted");
        } else {
            ctx.probe("refused");
            if let Some(k) = k {
                if self.d[d].log[k].3 == self.d[d].next && self.d[d].log[k].2 != self.d[d].epoch[e] {
                    ctx.fault("rekeys_out_of_step");
                }
            }
        }
        Ok(ok)
    }

    /// What an outsider can make: zeroes, or a message sealed under a key nobody agreed on.
    fn forge(&mut self, d: usize, len: usize, kind: u64, ctx: &mut Ctx) -> Outcome {
        let mut key = [if kind & 8 == 8 { 0xff } else { 0u8 }; 32];
        for _ in 0..(kind >> 4) & 3 {
            key = crypto::rekey(&key);
        }
        let x = &self.d[d];
        let n = [x.next, 0, x.sent, 1, x.next + 1][(kind >> 6) as usize % 5];
        let m = if kind & 7 == 0 { vec![0u8; len] } else { crypto::seal(&key, n, &[], &vec![0x5a; len - 16]) };
        self.give(d, &m, None, ctx).map(|_| ())
    }

    fn rekey(&mut self, side: usize, d: usize) {
        if d == 0 {
            self.s[side].rekey_local_cipherstate();
        } else {
            self.s[side].rekey_remote_cipherstate();
        }
        self.d[d].epoch[side] += 1;
    }
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut r = Rng::from(&[s.seed, 1]);
    let p = nz::handshake(&[], secret(&[s.seed, 3]), secret(&[s.seed, 2]), 64, 128, &mut r)?;
    let mut w = World { s: [p.i, p.r], d: Default::default() };
    for (n, st) in s.steps.iter().enumerate() {
        let d = (st.arg(if st.op == "rekey" || st.op == "clear" { 1 } else { 0 }) & 1) as usize;
        match st.op.as_str() {
            "send" => w.send(d, st.arg(1).clamp(16, 65535) as usize, s.seed ^ n as u64, ctx)?,
            "next" => {
                let k = w.d[d].log.iter().position(|x| x.3 == w.d[d].next);
                if let Some(k) = k {
                    let m = w.d[d].log[k].0.clone();
                    w.give(d, &m, Some(k), ctx)?;
                }
            }
            "any" => {
                let l = w.d[d].log.len();
                if l > 0 {
                    ctx.fault("reordered_or_replayed");
                    let k = st.arg(1).unsigned_abs() as usize % l;
                    let m = w.d[d].log[k].0.clone();
                    w.give(d, &m, Some(k), ctx)?;
                }
            }
            "other" => {
                // A message of the opposite direction, reflected to its sender.
                let l = w.d[1 - d].log.len();
                if l > 0 {
                    ctx.fault("reflected");
                    let m = w.d[1 - d].log[st.arg(1).unsigned_abs() as usize % l].0.clone();
                    w.give(d, &m, None, ctx)?;
                }
            }
            "forge" => {
                ctx.fault("forged");
                w.forge(d, st.arg(1).clamp(16, 65535) as usize, st.arg(2).unsigned_abs(), ctx)?;
            }
            "rekey" => {
                ctx.fault("rekey_one_end");
                for _ in 0..st.arg(2).clamp(1, 1000) {
                    w.rekey((st.arg(0) & 1) as usize, d);
                }
            }
            "both" => {
                w.rekey(0, d);
                w.rekey(1, d);
            }
            "clear" => {
                ctx.fault("clear");
                let side = (st.arg(0) & 1) as usize;
                if d == 0 {
                    w.s[side].clear_local_cipherstate();
                } else {
                    w.s[side].clear_remote_cipherstate();
                }
                w.d[d].dead[side] = true;
            }
            _ => {}
        }
    }
    // Bring the directions back in step and use them.
    for d in 0..2 {
        let e = 1 - d;
        if w.d[d].dead[e] {
            // No key may stand in for the cleared one.
            for i in 0..5u64 {
                for rk in 0..3u64 {
                    w.forge(d, 48, 1 | rk << 4 | i << 6, ctx)?;
                }
            }
        }
        loop {
            let next = w.d[d].next;
            let Some(k) = w.d[d].log.iter().position(|x| x.3 == next) else { break };
            let ep = w.d[d].log[k].2;
            while w.d[d].epoch[e] < ep {
                w.rekey(e, d);
            }
            let m = w.d[d].log[k].0.clone();
            if !w.give(d, &m, Some(k), ctx)? {
                break;
            }
        }
        while w.d[d].epoch[d] < w.d[d].epoch[e] {
            w.rekey(d, d);
        }
        while w.d[d].epoch[e] < w.d[d].epoch[d] {
            w.rekey(e, d);
        }
        for j in 0..2 {
            w.send(d, 40, s.seed ^ (1000 + j), ctx)?;
            if let Some(k) = w.d[d].log.len().checked_sub(1) {
                let m = w.d[d].log[k].0.clone();
                if w.give(d, &m, Some(k), ctx)? {
                    ctx.probe("back_in_step");
                }
            }
        }
    }
    Ok(())
}
