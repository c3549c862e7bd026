//! Every refusal can be reported, ends, and tells its cause.
use crate::glue;
use crate::nz::{keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::streams::{FaultyWriter, W};
use crate::wire::{self, V};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, PublicKey};
use std::error::Error as StdError;
use std::io::ErrorKind;
use std::str::FromStr;
use stratumv2::bitcoin::util::base58;
use stratumv2::error::Error;
use stratumv2::network::{ConnectionEncryptor, Encryptor};
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate};

pub const PROP: Prop = Prop {
    id: "C22",
    gen,
    exec,
    quick: 40_000,
    thorough: 3_000_000,
    rule: "A node logs every refusal the way an operator's logger does - its text, its debug form and each cause down the chain - while streams fail, bytes arrive damaged, handshakes and traffic are tampered with or out of turn, keys run out or are cleared, certificates are wrong and the clock is broken; each report must end within a few links, say something, reveal no private key, and name the failure the stream gave and the message type and channel bit that arrived.",
    real: "all error values of stratumv2 and nx-noise and the calls that produce them",
    stub: "streams, network, disk, clock and the logger",
    assumptions: &["a chain of more than 32 causes does not end"],
};

const KINDS: &[&str] = &["write", "write", "decode", "frame", "unframe", "turn", "handshake", "traffic", "cert", "clock", "key", "build", "conn"];

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C22", 0);
    for _ in 0..r.range(1, 6) {
        s.push(*r.pick(KINDS), &[r.tag(), r.below(1 << 16) as i64, r.below(1 << 16) as i64]);
    }
    s
}

struct Log {
    secrets: Vec<[u8; 32]>,
}
impl Log {
    /// What a logger does with an error.
    fn report(&self, e: &(dyn StdError + 'static), what: &str, ctx: &mut Ctx) -> Outcome {
        let mut depth = 0;
        let mut at: Option<&(dyn StdError + 'static)> = Some(e);
        while let Some(x) = at {
            depth += 1;
            if depth > 32 {
                return viol("a chain of causes without end", format!("{}: {:?}", what, e));
            }
            let (text, debug) = (x.to_string(), format!("{:?}", x));
            if text.trim().is_empty() || debug.is_empty() {
                return viol("a refusal without a text", format!("{}: {:?}", what, e));
            }
            for k in &self.secrets {
                let h = crate::crypto::hex(k);
                let d = k.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ");
                for t in [&text, &debug] {
                    if t.to_lowercase().contains(&h[..24]) || t.contains(&d) || t.as_bytes().windows(32).any(|w| w == k) {
                        return viol("a refusal reveals a private key", format!("{}: {}", what, text));
                    }
                }
            }
            ctx.ev_bytes(depth, text.as_bytes());
            at = x.source();
        }
        ctx.max("longest_chain", depth);
        ctx.probe("reported");
        Ok(())
    }
}
/// The failure of the stream behind an error, wherever it is kept.
fn io_kind(e: &Error) -> Option<ErrorKind> {
    if let Error::IOError(x) = e {
        return Some(x.kind());
    }
    let mut at: Option<&(dyn StdError + 'static)> = Some(e);
    for _ in 0..32 {
        let x = at?;
        if let Some(x) = x.downcast_ref::<std::io::Error>() {
            return Some(x.kind());
        }
        at = x.source();
    }
    None
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    for (i, t) in s.steps.iter().enumerate() {
        let mut r = Rng::from(&[s.seed, t.arg(0) as u64, i as u64]);
        let (x, y) = (t.arg(1).unsigned_abs() as usize, t.arg(2).unsigned_abs() as usize);
        let (is, rs, ie, re) = (secret(&[s.seed, i as u64, 1]), secret(&[s.seed, i as u64, 2]), secret(&[s.seed, i as u64, 3]), secret(&[s.seed, i as u64, 4]));
        let log = Log { secrets: vec![is, rs, ie, re] };
        match t.op.as_str() {
            "write" => {
                let framed = x % 2 == 0;
                let k = if framed { wire::FRAMED[y % wire::FRAMED.len()] } else { wire::ALL[y % wire::ALL.len()] };
                let l = match glue::build(k, &wire::gen(k, &mut r, false)) {
                    Ok(l) => l,
                    Err(_) => continue,
                };
                let kinds = [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::StorageFull, ErrorKind::Other];
                let mut script: Vec<W> = (0..r.below(12)).map(|_| if r.chance(1, 3) { W::Eintr } else { W::Short(1 + r.below(9) as usize) }).collect();
                let zero = r.chance(1, 6);
                let f = r.below(6) as u8;
                script.push(if zero { W::Zero } else { W::Fail(f) });
                let mut w = FaultyWriter::new(script.into(), 0);
                let res = if framed {
                    match glue::to_frame(&l) {
                        Ok(m) => glue::encode_message(&m, &mut w),
                        Err(_) => continue,
                    }
                } else {
                    glue::encode(&l, &mut w)
                };
                w.report(ctx);
                if let Err(e) = res {
                    log.report(&e, "writing", ctx)?;
                    let want = if zero { ErrorKind::WriteZero } else { kinds[f as usize] };
                    if w.failed() && io_kind(&e) != Some(want) {
                        return viol("the stream's failure is not named", format!("{:?}: the stream gave {:?}, the error is {:?}", k, want, e));
                    }
                    ctx.probe("stream_failures");
                }
            }
            "decode" => {
                let k = *r.pick(wire::ALL);
                if !wire::decodable(k) {
                    continue;
                }
                let mut b = wire::encode(k, &wire::gen(k, &mut r, false));
                match x % 4 {
                    0 => b.truncate(y % (b.len() + 1)),
                    1 | 2 if !b.is_empty() => {
                        for _ in 0..1 + r.below(4) {
                            let p = r.below(b.len() as u64) as usize;
                            b[p] = *r.pick(&[0xff, 0x80, 0xc3, 0, 0x7f]);
                        }
                    }
                    _ => {
                        let n = r.below(200) as usize;
                        b = r.bytes(n)
                    }
                }
                ctx.fault("damaged_bytes");
                if let Err(e) = glue::decode(k, &b) {
                    log.report(&e, "decoding", ctx)?;
                }
            }
            "frame" => {
                let k = wire::FRAMED[y % wire::FRAMED.len()];
                let mut b = wire::encode_framed(k, &wire::gen(k, &mut r, false));
                match x % 4 {
                    0 => b[1] ^= 0x80,
                    1 => b[2] = r.below(256) as u8,
                    2 => b[1] ^= 1 << r.below(7),
                    _ => b.truncate(r.below(b.len() as u64) as usize),
                }
                ctx.fault("damaged_frame");
                let wrong_bit = x % 4 == 0;
                match glue::decode_message(&b) {
                    Ok(_) if wrong_bit => return viol("wrong channel bit accepted", format!("{:?}", k)),
                    Ok(_) => {}
                    Err(e) => {
                        log.report(&e, "decoding a frame", ctx)?;
                        if let Error::UnexpectedChannelBit(bit) = e {
                            if bit != (b[1] & 0x80 != 0) {
                                return viol("another channel bit named than arrived", format!("{:?}: {}", k, bit));
                            }
                            ctx.probe("channel_bits");
                        }
                    }
                }
            }
            "unframe" => {
                let k = wire::FRAMED[y % wire::FRAMED.len()];
                let k2 = wire::FRAMED[x % wire::FRAMED.len()];
                let Ok(m) = glue::build(k, &wire::gen(k, &mut r, false)).and_then(|l| glue::to_frame(&l)) else { continue };
                ctx.fault("unexpected_message");
                let (ty, ty2) = (wire::type_of(k).0, wire::type_of(k2).0);
                match glue::from_frame(k2, &m) {
                    Ok(_) if ty != ty2 => return viol("unwrapped as another type", format!("{:?} as {:?}", k, k2)),
                    Ok(_) => {}
                    Err(e) => {
                        log.report(&e, "unwrapping a frame", ctx)?;
                        if let Error::UnexpectedMessageType(ext, n) = e {
                            if (ext, n) != (0, ty) {
                                return viol("another message type named than arrived", format!("{:?} arrived (type {}), {}/{} named", k, ty, ext, n));
                            }
                            ctx.probe("message_types");
                        }
                    }
                }
            }
            "turn" | "handshake" | "traffic" => {
                let mut a = NoiseSession::init_session(true, b"", keypair(is)?);
                let mut b = NoiseSession::init_session(false, b"", keypair(rs)?);
                a.set_ephemeral_keypair(keypair(ie)?);
                b.set_ephemeral_keypair(keypair(re)?);
                let mut refused = vec![];
                let mut keep = |z: Result<(), noiseexplorer_nx::error::NoiseError>| {
                    if let Err(e) = z {
                        refused.push(e)
                    }
                };
                if t.op == "turn" {
                    ctx.fault("out_of_turn_or_length");
                    for _ in 0..4 {
                        let n = *r.pick(&[0usize, 1, 15, 16, 31, 32, 40, 95, 96, 200, 65535, 65536, 70000]);
                        let mut m = vec![7; n];
                        let who = if r.chance(1, 2) { &mut a } else { &mut b };
                        keep(if r.chance(1, 2) { who.send_message(&mut m) } else { who.recv_message(&mut m) });
                    }
                } else {
                    let mut m1 = [1u8; 40];
                    let mut m2 = [2u8; 112];
                    keep(a.send_message(&mut m1));
                    if t.op == "handshake" {
                        match x % 3 {
                            0 => {
                                ctx.fault("degenerate_key");
                                m1[..32].copy_from_slice(&[0; 32]);
                                m1[0] = (y % 2) as u8;
                            }
                            1 => {
                                ctx.fault("short_message");
                                let mut cut = m1[..16 + y % 16].to_vec();
                                keep(b.recv_message(&mut cut));
                            }
                            _ => {}
                        }
                    }
                    keep(b.recv_message(&mut m1));
                    keep(b.send_message(&mut m2));
                    if t.op == "handshake" && x % 3 == 2 {
                        ctx.fault("bit_flip");
                        m2[y % 112] ^= 1 << (x % 8);
                    }
                    keep(a.recv_message(&mut m2));
                    if t.op == "traffic" {
                        for _ in 0..4 {
                            let mut m = [9u8; 40];
                            match r.below(5) {
                                0 => {
                                    ctx.fault("cleared");
                                    a.clear_local_cipherstate()
                                }
                                1 => {
                                    ctx.fault("rekeyed_one_end");
                                    b.rekey_local_cipherstate()
                                }
                                _ => {}
                            }
                            #[cfg(verif_sim)]
                            if r.chance(1, 4) {
                                ctx.fault("keys_run_out");
                                a.verif_set_message_numbers(u64::MAX, 0);
                            }
                            keep(a.send_message(&mut m));
                            if r.chance(1, 2) {
                                ctx.fault("bit_flip");
                                m[y % 40] ^= 1 << (x % 8);
                            }
                            keep(b.recv_message(&mut m));
                        }
                    }
                }
                for e in refused {
                    // Both as the session gives it and as the library passes it on.
                    log.report(&e, &t.op, ctx)?;
                    log.report(&Error::from(e), &t.op, ctx)?;
                }
            }
            "cert" | "clock" => {
                let sk = ed25519_dalek::SecretKey::from_bytes(&is).expect("a secret key");
                let pk = ed25519_dalek::PublicKey::from(&sk);
                let mut kb = [0; 64];
                kb[..32].copy_from_slice(&is);
                kb[32..].copy_from_slice(&pk.to_bytes());
                let auth = AuthorityKeyPair::from_bytes(&kb).expect("a key pair");
                let pool = keypair(rs)?.get_public_key();
                let (from, to) = (r.below(2_000_000_000) as u32, r.below(2_000_000_000) as u32);
                crate::seams::set_clock(1_000_000_000, 0);
                if t.op == "clock" {
                    ctx.fault("clock_broken");
                    crate::seams::set_clock(*r.pick(&[-1i64, -1_000_000, 1 << 32, 1 << 40, 0]), 0);
                }
                let c = match SignedCertificate::new(x as u16, from, to, &pool) {
                    Ok(c) => c,
                    Err(e) => {
                        log.report(&e, "certificate window", ctx)?;
                        continue;
                    }
                };
                let mut m = match SignatureNoiseMessage::from_auth_key(&auth, &c) {
                    Ok(m) => m,
                    Err(e) => return log.report(&e, "signing", ctx),
                };
                if r.chance(1, 2) {
                    ctx.fault("altered_certificate");
                    m.version ^= 1;
                }
                let mut text = base58::encode_slice(&auth.public.to_bytes());
                match r.below(6) {
                    0 => text.truncate(y % (text.len() + 1)),
                    1 => text.push(*r.pick(&['0', 'O', 'l', 'I', 'é', '1'])),
                    2 => text = base58::encode_slice(&r.bytes(32)),
                    _ => {}
                }
                if let Err(e) = CertificateFormat::new(&text, &pool, &m).and_then(|c| c.verify()) {
                    ctx.fault("certificate_refused");
                    log.report(&e, "certificate", ctx)?;
                }
            }
            "key" => {
                // A private key's text, damaged, must not show up in the log.
                ctx.fault("damaged_key");
                let mut h = crate::crypto::hex(&is);
                match x % 4 {
                    0 => h.truncate(62 - y % 8),
                    1 => h.push('0'),
                    2 => h.replace_range(63..64, "g"),
                    _ => h.push_str("00"),
                }
                let all = [PrivateKey::from_str(&h).err(), Key::from_str(&h).err(), PublicKey::from_str(&h).err(), Keypair::from_private_key(PrivateKey::empty()).err(), PublicKey::from_bytes([0; 32]).err()];
                for e in all.into_iter().flatten() {
                    log.report(&e, "key", ctx)?;
                    log.report(&Error::from(e), "key", ctx)?;
                }
            }
            "build" => {
                ctx.fault("forbidden_value");
                let k = wire::FRAMED[y % wire::FRAMED.len()];
                let mut v = wire::gen(k, &mut r, false);
                let p = r.below(v.len() as u64) as usize;
                v[p] = match &v[p] {
                    V::N(_) => V::N(*r.pick(&[0, 1])),
                    V::B(_) if matches!(wire::layout(k)[p], wire::F::U256) => continue,
                    V::B(_) => V::B(vec![b'x'; *r.pick(&[0, 32, 33, 256, 300])]),
                };
                if let Err(e) = glue::build(k, &v) {
                    log.report(&e, "building", ctx)?;
                }
            }
            "conn" => {
                ctx.fault("out_of_turn_or_length");
                let mut c = if x % 2 == 0 { ConnectionEncryptor::new_outbound() } else { ConnectionEncryptor::new_inbound(Some(keypair(rs)?)) };
                for _ in 0..3 {
                    let res = if r.chance(1, 2) {
                        c.init_handshake()
                    } else {
                        let n = r.below(200) as usize;
                        c.recv_handshake(&mut r.bytes(n))
                    };
                    if let Err(e) = res {
                        log.report(&e, "connection", ctx)?;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
