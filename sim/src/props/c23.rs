//! The work of a call does not grow with age, nor faster than its input.
use crate::glue;
use crate::nz::{self, secret};
use crate::props::c19::{mk, op, world, WARM};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Step};
use crate::sched;
use crate::streams::{FaultyWriter, W};
use crate::wire::{self, K, V};
use noiseexplorer_nx::noisesession::NoiseSession;
use std::collections::VecDeque;
use stratumv2::bitcoin::util::base58;
use stratumv2::codec::Message;
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::AuthorityKeyPair;
use stratumv2::types::MessageType;

pub const PROP: Prop = Prop {
    id: "C23",
    gen,
    exec,
    quick: 900,
    thorough: 200_000,
    rule: "A node repeats a random program of calls (traffic, refused and tampered input, rekeys, handshakes, certificates, codec calls, failing streams, queueing) up to thousands of times; the machine instructions each call takes, counted by single-stepping the library's code, must be the same at the end as at the beginning. Calls with random and hostile input of n and of 8n bytes must not differ by more than a linear cost explains.",
    real: "stratumv2 and nx-noise (every instruction counted), std; the hashing, cipher and curve primitives run whole at a fixed charge per call",
    stub: "streams, OS entropy and clock",
    assumptions: &["the work inside the third-party primitives is not counted, only their calls", "texts of keys are not covered: reading base58 is quadratic in the text's length"],
};

const OPS: &[&str] = &["traffic", "traffic", "refuse", "refuse", "turn", "rekey", "hs", "conn", "code", "code", "junk", "wfail", "cert", "cert", "queue", "keys", "look"];
const KINDS: u64 = 16;

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C23", 0);
    if r.chance(2, 5) {
        for _ in 0..r.range(1, 3) {
            s.push("scale", &[r.below(KINDS) as i64, r.range(150, 1000), r.below(1 << 30) as i64]);
        }
        return s;
    }
    let n = r.range(1, 4);
    let mut slow = false;
    for _ in 0..n {
        let op = *r.pick(OPS);
        slow |= matches!(op, "hs" | "conn" | "cert" | "keys" | "rekey" | "look");
        let a = match op {
            "traffic" => vec![r.below(2) as i64, r.range(16, 300)],
            "refuse" => vec![r.below(2) as i64, r.range(16, 300), *r.pick(&[0, 1, 3, 4])],
            "turn" => vec![r.below(2) as i64, r.below(300) as i64, r.below(2) as i64],
            "rekey" => vec![r.below(2) as i64],
            "hs" => vec![r.range(32, 200), r.range(96, 300), r.below(7) as i64, r.tag()],
            "conn" => vec![r.below(7) as i64, r.below(300) as i64],
            "code" => vec![r.below(wire::ALL.len() as u64) as i64],
            "junk" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(200) as i64],
            "wfail" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(60) as i64],
            "cert" => vec![r.below(6) as i64],
            "queue" => vec![r.range(1, 12), r.below(100) as i64],
            _ => vec![r.below(4) as i64],
        };
        s.push(op, &a);
    }
    s.push("times", &[if slow { r.range(150, 500) } else { r.range(500, 4000) }]);
    s
}

/// The instructions of one operation, the least and the most of three tries.
fn cost(f: &mut dyn FnMut(u64) -> Result<(), &'static str>) -> Result<(u64, u64), &'static str> {
    let (mut lo, mut hi) = (u64::MAX, 0);
    for j in 0..3 {
        let (r, w) = sched::work(|| f(j));
        r.unwrap_or(Err("a call panicked"))?;
        lo = lo.min(w);
        hi = hi.max(w);
    }
    Ok((lo, hi))
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    crate::seams::set_clock(1_600_000_000, 0);
    let pool = nz::keypair(secret(&[s.seed, 9]))?;
    for t in s.steps.iter().filter(|t| t.op == "scale") {
        scale(s, t, ctx)?;
    }
    let prog: Vec<Step> = s.steps.iter().filter(|t| t.op != "times" && t.op != "scale").take(8).cloned().collect();
    if prog.is_empty() {
        return Ok(());
    }
    let times = s.steps.iter().find(|t| t.op == "times").map_or(0, |t| t.arg(0).clamp(0, 20_000)) as u64;
    let sk = ed25519_dalek::SecretKey::from_bytes(&secret(&[s.seed, 10])).expect("a secret key");
    let auth = AuthorityKeyPair { public: (&sk).into(), secret: sk };
    let auth58 = base58::encode_slice(&auth.public.to_bytes());
    let mut w = world(s.seed, &pool)?;
    let mut early = vec![];
    for (age, n) in [(0, WARM), (1, times)] {
        for it in 0..n {
            for (k, t) in prog.iter().enumerate() {
                let mut r = Rng::from(&[s.seed, age, it, k as u64]);
                if let Err(e) = op(&mut w, t, &pool, &auth, &auth58, &mut r) {
                    return viol("an operation failed", format!("{} in step {} at repetition {}", e, k, it));
                }
            }
        }
        for (k, t) in prog.iter().enumerate() {
            let c = cost(&mut |j| op(&mut w, t, &pool, &auth, &auth58, &mut Rng::from(&[s.seed, 77, j, k as u64])));
            let (lo, hi) = match c {
                Ok(c) => c,
                Err(e) => return viol("an operation failed", format!("{} in step {}", e, k)),
            };
            ctx.max("most_instructions_in_an_operation", hi);
            ctx.sim_ns += hi;
            if age == 0 {
                early.push(hi);
                continue;
            }
            ctx.note(|| format!("{}: at most {} instructions when young, at least {} when old", t.op, early[k], lo));
            ctx.max("most_extra_instructions_when_old", lo.saturating_sub(early[k]));
            if lo > early[k] + early[k] / 4 + 1000 {
                return viol("work grows with age", format!("step {} ({}) takes {} instructions after {} repetitions, {} at first", k, t.op, lo, times, early[k]));
            }
        }
    }
    for t in &prog {
        ctx.probe(match t.op.as_str() {
            "traffic" => "traffic",
            "refuse" => "refused_messages",
            "turn" => "out_of_turn",
            "rekey" => "rekeys",
            "hs" => "handshakes",
            "conn" => "connections",
            "code" => "codec",
            "junk" => "junk_decoded",
            "wfail" => "failed_streams",
            "cert" => "certificates",
            "queue" => "queue",
            _ => "other",
        });
        match (t.op.as_str(), t.arg(2)) {
            ("refuse", 3..=4) => ctx.faults("tampered_message", times),
            ("refuse", _) => ctx.faults("junk_message", times),
            ("turn", _) => ctx.faults("out_of_turn_call", times),
            ("hs", 0..=3) => ctx.faults("abandoned_handshake", times),
            ("hs", 4) => ctx.faults("tampered_handshake", times),
            ("junk", _) => ctx.faults("junk_decode", times),
            ("wfail", _) => ctx.faults("failed_write", times),
            _ => {}
        }
        ctx.ev(&[t.arg(0) as u64, t.arg(1) as u64, t.arg(2) as u64, t.op.len() as u64]);
    }
    ctx.ev(&[times]);
    ctx.max("longest_life_repetitions", times);
    Ok(())
}

fn scale(s: &Scenario, t: &Step, ctx: &mut Ctx) -> Outcome {
    let (kind, n) = (t.arg(0).rem_euclid(KINDS as i64) as u64, t.arg(1).clamp(64, 1020) as usize);
    let mut w = vec![];
    for n in [n, 8 * n, 64 * n] {
        // The same contents, only more of them; the largest where that is cheap to count.
        if w.last().map_or(false, |w| *w > 200_000) {
            break;
        }
        let mut r = Rng::from(&[s.seed, t.arg(2) as u64, kind]);
        match sized(kind, n, s.seed, &mut r) {
            Ok(c) => w.push(c),
            Err(e) => return viol("an operation failed", format!("{} with {} bytes, kind {}", e, n, kind)),
        };
    }
    ctx.probe("sizes_compared");
    match kind {
        8 => ctx.fault("short_writes"),
        9 | 10 | 14 => ctx.fault("junk_decode"),
        11 => ctx.fault("junk_message"),
        13 => ctx.fault("junk_after_handshake_message"),
        15 => ctx.fault("oversized_value"),
        _ => {}
    }
    ctx.ev(&[kind, n as u64]);
    for (i, p) in w.windows(2).enumerate() {
        let n = n << (3 * i);
        ctx.sim_ns += p[0] + p[1];
        ctx.max("most_instructions_per_100_bytes", p[1] * 100 / (8 * n as u64));
        ctx.max("largest_growth_in_percent_of_linear", p[1].saturating_sub(10_000) * 100 / (8 * p[0].max(1)));
        ctx.note(|| format!("kind {}: {} instructions for {} bytes, {} for {}", kind, p[0], n, p[1], 8 * n));
        if p[1] > 14 * p[0] + 10_000 {
            return viol("work grows faster than the input", format!("kind {}: {} instructions for {} bytes, {} for {}", kind, p[0], n, p[1], 8 * n));
        }
    }
    Ok(())
}

/// The instructions of one call that handles `n` bytes.
fn sized(kind: u64, n: usize, seed: u64, r: &mut Rng) -> Result<u64, &'static str> {
    fn ok<T, E>(x: (Option<Result<T, E>>, u64), e: &'static str) -> Result<(T, u64), &'static str> {
        match x.0 {
            Some(Ok(v)) => Ok((v, x.1)),
            Some(Err(_)) => Err(e),
            None => Err("a call panicked"),
        }
    }
    fn any<T>(x: (Option<T>, u64)) -> Result<u64, &'static str> {
        x.0.map(|_| x.1).ok_or("a call panicked")
    }
    let pattern = r.below(4);
    let bytes = |r: &mut Rng, n: usize| -> Vec<u8> {
        match pattern {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => b"ab\n".iter().cycle().take(n).cloned().collect(),
            _ => r.bytes(n),
        }
    };
    let pair = |r: &mut Rng| nz::handshake(b"", secret(&[seed, 1]), secret(&[seed, 2]), 64, 128, r).map_err(|_| "the set-up");
    let p = bytes(r, n);
    Ok(match kind {
        0 => {
            let m = Message::new(MessageType::SetupConnection, p);
            let mut out = vec![];
            ok(sched::work(|| glue::encode_message(&m, &mut out)), "encoding a frame")?.1
        }
        1 => {
            let b = wire::frame_bytes(0, false, &p);
            ok(sched::work(|| glue::decode_message(&b)), "decoding a frame")?.1
        }
        2 | 3 => {
            // Byte string fields.
            let k = *r.pick(&[K::FB64K, K::FB16M]);
            let v = [V::B(p)];
            let (m, w0) = ok(sched::work(|| glue::build(k, &v)), "building")?;
            let mut out = vec![];
            let (_, w1) = ok(sched::work(|| glue::encode(&m, &mut out)), "encoding")?;
            let (_, w2) = ok(sched::work(|| glue::decode(k, &out)), "decoding")?;
            w0 + w1 + w2
        }
        4 | 5 => {
            let mut l = pair(r)?;
            let mut m = p;
            m.resize(n + 16, 0);
            let (_, w0) = ok(sched::work(|| l.i.send_message(&mut m)), "sending")?;
            let (_, w1) = ok(sched::work(|| l.r.recv_message(&mut m)), "receiving")?;
            w0 + w1
        }
        6 => {
            let mut i = NoiseSession::init_session(true, b"", mk(secret(&[seed, 3])));
            let mut s = NoiseSession::init_session(false, b"", mk(secret(&[seed, 4])));
            let (mut a, mut b) = (bytes(r, n + 64), bytes(r, n + 128));
            a.truncate(65535);
            b.truncate(65535);
            let (_, w0) = ok(sched::work(|| i.send_message(&mut a)), "sending A")?;
            let (_, w1) = ok(sched::work(|| s.recv_message(&mut a)), "receiving A")?;
            let (_, w2) = ok(sched::work(|| s.send_message(&mut b)), "sending B")?;
            let (_, w3) = ok(sched::work(|| i.recv_message(&mut b)), "receiving B")?;
            w0 + w1 + w2 + w3
        }
        7 => any(sched::work(|| NoiseSession::init_session(false, &p, mk(secret(&[seed, 5])))))?,
        8 => {
            // A stream that takes a few bytes at a time.
            let m = Message::new(MessageType::SetupConnection, p);
            let q: VecDeque<W> = (0..n + 20).map(|_| W::Short(1 + n / 200)).collect();
            let mut out = FaultyWriter::new(q, n + 20);
            ok(sched::work(|| glue::encode_message(&m, &mut out)), "encoding a frame")?.1
        }
        9 => {
            let k = *r.pick(wire::ALL);
            if !wire::decodable(k) {
                return Ok(0);
            }
            // A real value with as much again behind it.
            let v = wire::gen(k, r, false);
            let mut b = wire::encode(k, &v);
            b.truncate(600);
            b.extend_from_slice(&p);
            any(sched::work(|| glue::decode(k, &b).is_ok()))?
        }
        10 => any(sched::work(|| glue::decode_message(&p).is_ok()))?,
        11 => {
            let mut l = pair(r)?;
            let mut m = p;
            any(sched::work(|| l.i.recv_message(&mut m).is_ok()))?
        }
        12 => {
            let peer = Peer::new(ConnectionEncryptor::new_outbound());
            for _ in 0..n / 8 {
                peer.pending_msg_buffer.lock().unwrap().push(Message::new(MessageType::SetupConnection, vec![7; 8]));
            }
            let (q, w) = sched::work(|| peer.get_pending_msgs());
            if q.map_or(0, |q| q.len()) != n / 8 {
                return Err("draining");
            }
            w
        }
        13 => {
            let mut c = ConnectionEncryptor::new_inbound(Some(mk(secret(&[seed, 6]))));
            let mut o = ConnectionEncryptor::new_outbound();
            let mut a = o.init_handshake().map_err(|_| "the set-up")?;
            a.extend_from_slice(&p);
            any(sched::work(|| c.recv_handshake(&mut a).is_ok()))?
        }
        14 => {
            let m = Message::new(MessageType::SetupConnection, p);
            any(sched::work(|| glue::from_frame(K::SetupMining, &m).is_ok()))?
        }
        _ => {
            // Text with as many characters as fit, beyond what fits.
            let k = *r.pick(&[K::FStr32, K::FStr255]);
            let v = [V::B(vec![b'a'; n])];
            any(sched::work(|| glue::build(k, &v).is_ok()))?
        }
    })
}
