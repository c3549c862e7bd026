//! Calls have no inputs but their own and no effects but their own.
use super::c19::{self, World};
use crate::nz::{self, secret};
use crate::rng::{mix, Rng};
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Step, Violation};
use crate::seams::{self, Watch, WATCH};
use crate::{alloc, wire};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use stratumv2::bitcoin::util::base58;
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticKeyPair};

pub const PROP: Prop = Prop {
    id: "C26",
    gen,
    exec,
    quick: 12_000,
    thorough: 600_000,
    rule: "The same random program - sessions, connections, queues, keys, codecs, failing streams, junk, certificates - is run twice with the same entropy in different surroundings: another clock that freezes, jumps by years either way and races between and during calls, other environment variables, another process number, other contents of fresh memory. Everything every call returned must be the same in both, except the verdict on certificates, which must follow the clock; everything that reaches outside the process is watched and forbidden.",
    real: "stratumv2 and nx-noise, std, the rand crates",
    stub: "clock, OS entropy, environment, files, sockets, thread creation, standard output, streams",
    assumptions: &[],
};

fn other(k: i64) -> Option<Prop> {
    super::all().into_iter().find(|p| p.id == OTHERS[k.rem_euclid(OTHERS.len() as i64) as usize].0)
}

const OPS: &[&str] = &["traffic", "traffic", "traffic", "refuse", "refuse", "turn", "rekey", "hs", "hs", "conn", "conn", "code", "code", "junk", "wfail", "check", "check", "queue", "keys", "look"];

/// Other properties whose runs are also repeated in two surroundings, and whether the
/// clock may differ there (it is no part of what those runs are about).
const OTHERS: &[(&str, bool)] = &[
    ("C01", true), ("C02", true), ("C03", true), ("C04", true), ("C05", true), ("C06", true), ("C07", true), ("C08", true), ("C09", true),
    ("C11", true), ("C13", true), ("C14", true), ("C16", true), ("C20", true), ("C21", false), ("C22", false), ("C24", true), ("C25", true),
];

fn gen(r: &mut Rng, idx: u64, t: bool) -> Scenario {
    let mut s = Scenario::new("C26", 0);
    if idx % 2 == 1 {
        let k = r.below(OTHERS.len() as u64);
        s.push("as", &[k as i64]);
        if let Some(p) = other(k as i64) {
            let i = r.below(1 << 20);
            s.steps.extend((p.gen)(r, i, t).steps);
        }
        return s;
    }
    let n = if idx % 40 == 0 { 200 } else { r.range(2, 30) };
    for _ in 0..n {
        if r.chance(1, 3) {
            // How the second world's clock moves, and how fast it runs during a call.
            let by = match r.below(6) {
                0 => r.range(0, 3),
                1 => r.range(1, 7200),
                2 => -r.range(1, 7200),
                3 => r.range(1, 5) * 31_557_600,
                4 => -r.range(1, 60) * 31_557_600,
                _ => r.range(1, 200) * 31_557_600,
            };
            s.push("clock", &[by, *r.pick(&[0i64, 0, 1, 1_000_000, 999_999_999])]);
        }
        let op = *r.pick(OPS);
        let a = match op {
            "traffic" => vec![r.below(2) as i64, nz::msg_size(r, 16, false) as i64],
            "refuse" => vec![r.below(2) as i64, nz::msg_size(r, 16, false) as i64, r.below(5) as i64],
            "turn" => vec![r.below(2) as i64, r.below(300) as i64, r.below(2) as i64],
            "rekey" => vec![r.below(2) as i64],
            "hs" => vec![nz::msg_size(r, 32, false) as i64, nz::msg_size(r, 96, false) as i64, r.below(7) as i64, r.tag()],
            "conn" => vec![r.below(7) as i64, r.below(300) as i64],
            "code" => vec![r.below(wire::ALL.len() as u64) as i64],
            "junk" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(200) as i64],
            "wfail" => vec![r.below(wire::ALL.len() as u64) as i64, r.below(60) as i64],
            "check" => vec![r.below(6) as i64, r.tag(), r.tag()],
            "queue" => vec![r.range(1, 40), r.below(200) as i64],
            _ => vec![r.below(4) as i64],
        };
        s.push(op, &a);
    }
    s
}

struct Seen {
    /// A digest of all that was returned so far, after each step.
    after: Vec<u64>,
    bad: Option<(&'static str, String)>,
    env_reads: u64,
    clock_reads: u64,
}

/// Signing does not depend on the clock; the verdict does, and on nothing else.
fn check(t: &Step, k: &StaticKeyPair, auth: &AuthorityKeyPair, auth58: &str) -> Result<Vec<u8>, String> {
    let now = seams::with(|s| (s.secs, s.nanos, s.tick_nanos));
    seams::with(|s| s.tick_nanos = 0);
    let base = 1_600_000_000u32;
    let at = |x: i64| base.wrapping_add((x as u32 % 400_000_000).wrapping_sub(200_000_000));
    let (mut f, mut u) = (at(t.arg(1)), at(t.arg(2)));
    if f > u {
        (f, u) = (u, f);
    }
    if f == u {
        u += 1;
    }
    if t.arg(0) == 1 {
        (f, u) = (0, u32::MAX);
    }
    let k = k.get_public_key();
    let c = SignedCertificate::new(t.arg(0) as u16, f, u, &k).map_err(|e| e.to_string())?;
    let m = SignatureNoiseMessage::from_auth_key(auth, &c).map_err(|e| e.to_string())?;
    let mut bytes = vec![];
    stratumv2::codec::Serializable::serialize(&m, &mut bytes).map_err(|e| e.to_string())?;
    let m: SignatureNoiseMessage = stratumv2::codec::deserialize(&bytes).map_err(|e| e.to_string())?;
    let ok = CertificateFormat::new(auth58, &k, &m).and_then(|c| c.verify()).is_ok();
    seams::with(|s| s.tick_nanos = now.2);
    if ok != (now.0 >= f as i64 && now.0 < u as i64) {
        return Err(format!("window [{}, {}) at {}: accepted {}", f, u, now.0, ok));
    }
    Ok(bytes)
}

fn life(s: &Scenario, world: u8, seam: seams::Seam, pool: &StaticKeyPair, auth: &AuthorityKeyPair, auth58: &str) -> Result<Seen, Violation> {
    seams::SEAM.set(seams::Seam { secs: 1_600_000_000, nanos: if world == 1 { 0 } else { 123_456_789 }, tick_nanos: (world == 1) as i64, ..seam });
    WATCH.set(Watch { world, reached: None, env_reads: 0, salt: s.seed });
    alloc::fill(if world == 1 { 0x11 } else { 0xee });
    let mut out = Seen { after: vec![], bad: None, env_reads: 0, clock_reads: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), Violation> {
        if let Some(t) = s.steps.first().filter(|t| t.op == "as") {
            // The whole run, and all it has to show for it.
            let Some(p) = other(t.arg(0)) else { return Ok(()) };
            let mut inner = s.clone();
            inner.prop = p.id.into();
            inner.steps.remove(0);
            if world == 2 && OTHERS.iter().any(|o| o.0 == p.id && o.1) {
                seams::with(|c| {
                    c.secs += (s.seed % 4_000_000_000) as i64 - 2_000_000_000;
                    c.tick_nanos = 999_999_999;
                });
            }
            let mut c = Ctx::default();
            // Whether it is right is for that property to say.
            let r = (p.exec)(&inner, &mut c);
            out.after.push(mix(&[c.digest, c.events, r.is_ok() as u64]));
            return Ok(());
        }
        let mut w: World = c19::world(s.seed, pool)?;
        c19::RECORD.set(Some(1));
        for (k, t) in s.steps.iter().enumerate() {
            let mut r = Rng::from(&[s.seed, k as u64]);
            match t.op.as_str() {
                "clock" => {
                    if world == 2 {
                        seams::with(|c| {
                            c.secs += t.arg(0);
                            c.tick_nanos = t.arg(1).clamp(0, 999_999_999);
                        });
                    }
                }
                "check" => match check(t, pool, auth, auth58) {
                    Ok(b) => c19::RECORD.set(Some(b.chunks(7).fold(c19::RECORD.get().unwrap_or(0), |h, c| mix(&[h, c.len() as u64, c[0] as u64, c[c.len() / 2] as u64, c[c.len() - 1] as u64])))),
                    Err(e) => {
                        out.bad = Some(("the verdict on a certificate does not follow the clock", format!("step {}: {}", k, e)));
                        return Ok(());
                    }
                },
                _ => {
                    if let Err(e) = c19::op(&mut w, t, pool, auth, auth58, &mut r) {
                        c19::RECORD.set(Some(mix(&[7, k as u64, crate::rng::mix_str(e)])));
                        out.after.push(c19::RECORD.get().unwrap_or(0));
                        return Ok(());
                    }
                }
            }
            out.after.push(c19::RECORD.get().unwrap_or(0));
            use std::io::Write;
            let _ = std::io::stdout().flush();
            if let Some(x) = WATCH.get().reached {
                out.bad = Some(("a call reaches outside", format!("step {} ({}) {}", k, t.op, x)));
                return Ok(());
            }
        }
        Ok(())
    }));
    let w = WATCH.get();
    WATCH.set(Watch { world: 0, reached: None, env_reads: 0, salt: 0 });
    alloc::fill(0);
    c19::RECORD.set(None);
    out.env_reads = w.env_reads;
    out.clock_reads = seams::with(|s| s.clock_reads) - seam.clock_reads;
    if out.bad.is_none() {
        if let Some(x) = w.reached {
            out.bad = Some(("a call reaches outside", format!("after step {} {}", out.after.len(), x)));
        }
    }
    match r {
        Ok(Ok(())) => Ok(out),
        Ok(Err(v)) => Err(v),
        Err(_) if out.bad.is_some() => Ok(out),
        // Whether that may happen is for other properties to say.
        Err(_) => {
            out.after.push(99);
            Ok(out)
        }
    }
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let pool = nz::keypair(secret(&[s.seed, 9]))?;
    let auth = AuthorityKeyPair::from_bytes(&{
        let sk = ed25519_dalek::SecretKey::from_bytes(&secret(&[s.seed, 10])).expect("a secret key");
        let pk = ed25519_dalek::PublicKey::from(&sk);
        let mut b = [0; 64];
        b[..32].copy_from_slice(&sk.to_bytes());
        b[32..].copy_from_slice(&pk.to_bytes());
        b
    })
    .expect("a key pair");
    let auth58 = base58::encode_slice(&auth.public.to_bytes());
    let seam = seams::with(|s| *s);
    // Each life on a thread of its own, as thread-local state starts anew there.
    let run = |world: u8| {
        std::thread::scope(|sc| match sc.spawn(|| life(s, world, seam, &pool, &auth, &auth58)).join() {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        })
    };
    let mut one = run(1)?;
    let mut two = run(2)?;
    if one.after != two.after && one.bad.is_none() && two.bad.is_none() {
        // Something may have been set up once for the whole process, with entropy of its own.
        one = run(1)?;
        two = run(2)?;
        if run(1)?.after != one.after {
            // It differs in the same surroundings too: what the process did before matters,
            // such as a generator shared by all threads, and that is not the question here.
            ctx.probe("nothing_to_compare");
            return Ok(());
        }
    }
    for (n, w) in [(1u64, &one), (2, &two)] {
        if let Some((c, d)) = &w.bad {
            return viol(c, d.clone());
        }
        ctx.ev(&[n, w.after.last().copied().unwrap_or(0), w.after.len() as u64]);
    }
    if s.steps.first().map_or(false, |t| t.op == "as") {
        ctx.probe("runs_of_other_properties");
        ctx.fault("other_surroundings");
        if one.after != two.after {
            return viol("the result depends on the surroundings", format!("a run of {}", s.steps.first().and_then(|t| other(t.arg(0))).map_or("", |p| p.id)));
        }
        return Ok(());
    }
    for t in &s.steps {
        match t.op.as_str() {
            "clock" if t.arg(0) < 0 => ctx.fault("clock_set_back"),
            "clock" => ctx.fault("clock_jump"),
            "refuse" => ctx.fault("junk_message"),
            "turn" => ctx.fault("out_of_turn_call"),
            "junk" => ctx.fault("junk_decode"),
            "wfail" => ctx.fault("failed_write"),
            "check" => ctx.probe("certificates"),
            "hs" | "conn" => ctx.probe("handshakes"),
            "keys" => ctx.probe("keys"),
            _ => ctx.probe("other_calls"),
        }
    }
    ctx.faults("environment_variable_made_up", two.env_reads);
    ctx.max("clock_reads", one.clock_reads);
    if let Some(k) = (0..one.after.len().max(two.after.len())).find(|k| one.after.get(*k) != two.after.get(*k)) {
        let t = s.steps.get(k);
        return viol("the result depends on the surroundings", format!("step {} ({})", k, t.map_or("", |t| &t.op)));
    }
    Ok(())
}
