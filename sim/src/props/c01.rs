//! Encoding to a stream is complete or reports an error.
use crate::glue;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::streams::{script, FaultyWriter};
use crate::wire::{self, K};
use stratumv2::codec::Message;

pub const PROP: Prop = Prop {
    id: "C01",
    gen,
    exec,
    quick: 240_000,
    thorough: 4_000_000,
    rule: "One encodable value (any message, frame, certificate or field; sizes favouring length-prefix boundaries) is encoded onto a simulated stream whose writes are cut short, interrupted, return zero or fail at scripted calls.",
    real: "stratumv2 codec and every Serializable implementation",
    stub: "the output stream (scripted in-memory writer)",
    assumptions: &["the reference encoder (wire.rs) states the wire format", "payloads at and above 4 GiB are lazily allocated zero pages"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C01", 0);
    let total_len;
    match r.below(20) {
        0 => {
            // Raw frames with payloads around the 24-bit limit.
            const B: &[i64] = &[16777214, 16777215, 16777216, 16777217, 33554432, 4294967295, 4294967296, 4294967297, 4294967300, 4311744512, 8589934592];
            let n = if r.chance(3, 4) && idx % 4 == 0 { *r.pick(B) } else { wire::size(r, 70000) as i64 };
            s.push("frame", &[r.below(27) as i64, n]);
            total_len = n.min(20_000_000) as u64;
        }
        1 | 2 => {
            let n = wire::size(r, 70000) as i64;
            s.push("frame", &[r.below(27) as i64, n]);
            total_len = n as u64 + 6;
        }
        3 if idx % 2 == 0 => {
            s.push("certfmt", &[r.tag()]);
            total_len = 42;
        }
        3..=9 => {
            let k = *r.pick(wire::FRAMED);
            s.push("framed", &[k as i64, r.tag()]);
            total_len = 300;
        }
        _ => {
            let k = wire::ALL[(idx as usize) % wire::ALL.len()];
            let big = r.chance(1, 40);
            s.push("value", &[k as i64, r.tag(), big as i64]);
            total_len = if big { 60000 } else { 200 };
        }
    }
    if r.chance(1, 3) {
        s.push("limit", &[*r.pick(&[1, 2, 3, 5, 7, 16, 64, 255, 1000])]);
    }
    // A limit of a few bytes on a huge payload would only cost time.
    if total_len > 100_000 {
        s.steps.retain(|t| t.op != "limit");
    }
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.below(24),
    };
    let fatal = r.chance(2, 5);
    for _ in 0..n {
        match r.below(10) {
            0..=4 => s.push("short", &[*r.pick(&[1, 1, 1, 2, 3, 4, 8, 31, 100, 1000])]),
            5..=7 => s.push("eintr", &[]),
            _ => s.push("short", &[1 << 30]),
        }
    }
    if fatal {
        if r.chance(1, 3) {
            s.push("zero", &[]);
        } else {
            s.push("fail", &[r.below(6) as i64]);
        }
        for _ in 0..r.below(3) {
            match r.below(4) {
                0 => s.push("short", &[1]),
                1 => s.push("eintr", &[]),
                2 => s.push("fail", &[r.below(6) as i64]),
                _ => s.push("zero", &[]),
            }
        }
    }
    s
}

fn verdict(what: &str, res: Result<usize, String>, w: &FaultyWriter, want: &[u8], ctx: &mut Ctx) -> Outcome {
    ctx.ev_bytes(1, &w.delivered[..w.delivered.len().min(4096)]);
    ctx.ev(&[w.calls, w.count, res.is_ok() as u64, w.n_eintr, w.n_short, w.n_zero, w.n_fail]);
    w.report(ctx);
    ctx.note(|| format!("{}: {:?}, {} write calls, {} of {} bytes delivered", what, res, w.calls, w.count, want.len()));
    match res {
        Ok(n) => {
            ctx.probe("encoded");
            if w.count != want.len() as u64 || w.delivered != want {
                return viol("wrong bytes delivered", format!("{}: success, but {} bytes delivered for an encoding of {}", what, w.count, want.len()));
            }
            if n != want.len() {
                return viol("wrong count reported", format!("{}: reported {} for {} bytes", what, n, want.len()));
            }
        }
        Err(e) => {
            ctx.probe("error_reported");
            if !want.starts_with(&w.delivered) {
                return viol("not a prefix", format!("{}: failed ({}) having delivered bytes that are no prefix of the encoding", what, e));
            }
            if !w.failed() {
                return viol("failed without cause", format!("{}: failed ({}) although the stream only split or interrupted writes", what, e));
            }
        }
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let limit = s.steps.iter().find(|t| t.op == "limit").map_or(0, |t| t.arg(0).max(0) as usize);
    for t in &s.steps {
        let mut w = FaultyWriter::new(script(s), limit);
        match t.op.as_str() {
            "frame" => {
                let types = glue::named_types();
                let (ty, num, chan) = types[t.arg(0).rem_euclid(27) as usize];
                let n = t.arg(1).max(0) as usize;
                let big = n >= 1 << 24;
                let m = if big {
                    Message::new(ty, vec![0u8; n])
                } else {
                    let mut r = Rng::from(&[s.seed, 5]);
                    Message::new(ty, r.bytes(n))
                };
                let res = glue::encode_message(&m, &mut w).map_err(|e| e.to_string());
                if big {
                    ctx.fault("payload_too_long");
                    ctx.ev(&[n as u64, res.is_ok() as u64, w.calls]);
                    if res.is_ok() || w.count > 0 {
                        return viol("oversized frame", format!("a {}-byte payload: result {:?}, {} bytes written", n, res, w.count));
                    }
                } else {
                    let want = wire::frame_bytes(num, chan, &m.payload);
                    verdict(&format!("frame of type {:#x} with {} bytes", num, n), res, &w, &want, ctx)?;
                }
            }
            "framed" => {
                let k = wire::FRAMED[t.arg(0).rem_euclid(wire::FRAMED.len() as i64) as usize];
                let v = wire::gen(k, &mut Rng::from(&[s.seed, t.arg(1) as u64]), false);
                let m = match glue::build(k, &v) {
                    Ok(m) => m,
                    Err(e) => return viol("constructor", format!("{:?} refused valid values: {}", k, e)),
                };
                let f = match glue::to_frame(&m) {
                    Ok(f) => f,
                    Err(e) => return viol("frame", format!("{:?}: {}", k, e)),
                };
                let res = glue::encode_message(&f, &mut w).map_err(|e| e.to_string());
                verdict(&format!("framed {:?}", k), res, &w, &wire::encode_framed(k, &v), ctx)?;
            }
            "certfmt" => {
                let mut r = Rng::from(&[s.seed, t.arg(0) as u64]);
                let v = wire::gen(K::Cert, &mut r, false);
                let a = stratumv2::noise::generate_authority_keypair();
                let b58 = stratumv2::bitcoin::util::base58::encode_slice(&a.public.to_bytes());
                let mut k = [0; 32];
                k.copy_from_slice(v[3].b());
                let pk = match stratumv2::noise::StaticPublicKey::from_bytes(k) {
                    Ok(p) => p,
                    Err(e) => return viol("constructor", format!("public key refused: {}", e)),
                };
                let msg = stratumv2::noise::SignatureNoiseMessage {
                    version: v[0].n() as u16,
                    valid_from: v[1].n() as u32,
                    not_valid_after: v[2].n() as u32,
                    signature: ed25519_dalek::Signer::sign(&a, b"x"),
                };
                let c = match stratumv2::noise::CertificateFormat::new(&b58, &pk, &msg) {
                    Ok(c) => c,
                    Err(e) => return viol("constructor", format!("certificate refused: {}", e)),
                };
                let res = stratumv2::codec::Serializable::serialize(&c, &mut w).map_err(|e| e.to_string());
                verdict("certificate format", res, &w, &wire::encode(K::Cert, &v), ctx)?;
            }
            "value" => {
                let k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
                let v = wire::gen(k, &mut Rng::from(&[s.seed, t.arg(1) as u64]), t.arg(2) != 0);
                let m = match glue::build(k, &v) {
                    Ok(m) => m,
                    Err(e) => return viol("constructor", format!("{:?} refused valid values: {}", k, e)),
                };
                let res = glue::encode(&m, &mut w).map_err(|e| e.to_string());
                verdict(&format!("{:?}", k), res, &w, &wire::encode(k, &v), ctx)?;
            }
            _ => {}
        }
    }
    Ok(())
}
