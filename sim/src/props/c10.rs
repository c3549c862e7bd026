//! A server certificate is accepted only when authentic and currently valid.
use crate::nz::{keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::seams;
use stratumv2::bitcoin::util::base58;
use stratumv2::codec::{deserialize, serialize};
use stratumv2::noise::{generate_authority_keypair, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};

pub const PROP: Prop = Prop {
    id: "C10",
    gen,
    exec,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "Authorities sign certificates; clients receive them over a wire that tears, alters, swaps and replays them and verify them under a simulated clock that is skewed, jumps, freezes, runs during the call, or stands before 1970 or past the 32-bit range; the record of what was really signed decides every verification.",
    real: "stratumv2 noise certificates, codec and time source; ed25519-dalek, base58",
    stub: "the clock, OS entropy and the network",
    assumptions: &["ed25519 signatures are not forged by chance"],
};

const EDGE: &[i64] = &[0, 1, 2, 1000, 1_600_000_000, 1_700_000_000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff];

fn when(r: &mut Rng, from: i64, until: i64) -> (i64, i64) {
    let base = *r.pick(&[from, until, from, until, (from + until) / 2, EDGE[r.clone().below(EDGE.len() as u64) as usize]]);
    let mut t = base + *r.pick(&[-86400, -3600, -60, -2, -1, 0, 0, 1, 2, 60, 3600, 86400]);
    match r.below(14) {
        0 => t += 1 << 32,
        1 => t -= 1 << 32,
        2 => t += (1 << 32) * r.range(2, 4000),
        3 => t = -1 - r.below(1 << 33) as i64,
        4 => t = *r.pick(&[-1, 0, 0xffff_ffff, 1 << 32, i64::MAX / 4, i64::MIN / 4]),
        5 => t = base.saturating_mul(1000),
        _ => {}
    }
    (t, *r.pick(&[0, 0, 1, 500_000_000, 999_999_999]))
}

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C10", 0);
    let n = r.range(1, 4);
    let mut w = vec![];
    for _ in 0..n {
        let from = if r.chance(1, 3) { *r.pick(EDGE) } else { r.below(1 << 32) as i64 };
        let len = *r.pick(&[1, 1, 2, 10, 3600, 86400, 31_536_000, r.clone().below(1 << 32) as i64]);
        let until = match r.below(8) {
            0 => from,
            1 => (from - len).max(0),
            _ => from + len,
        }
        .min(0xffff_ffff);
        w.push((from, until));
        s.push("cert", &[r.below(3) as i64, r.below(3) as i64, *r.pick(&[0, 1, 2, 0x00ff, 0x0100, 0xffff]), from, until, r.below(2) as i64]);
    }
    for _ in 0..r.range(2, 14) {
        let c = r.below(n as u64) as usize;
        let how = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
        let mut a = vec![c as i64, if r.chance(1, 5) { r.below(3) as i64 } else { -1 }, if r.chance(1, 5) { r.below(3) as i64 } else { -1 }, how, r.tag(), *r.pick(&[0, 0, 0, 1, 400_000_000, 1_000_000_000])];
        for _ in 0..r.range(1, 4) {
            let (t, ns) = when(r, w[c].0, w[c].1);
            a.push(t);
            a.push(ns);
        }
        if r.chance(1, 300) {
            // An impostor that does not give up.
            for _ in 0..r.range(100, 400) {
                let mut b = a.clone();
                b[3] = *r.pick(&[1, 5, 7]);
                b[4] = r.tag();
                b.truncate(8);
                s.push("verify", &b);
            }
        }
        s.push("verify", &a);
    }
    s
}

struct Issued {
    auth: usize,
    key: usize,
    version: u16,
    from: u32,
    until: u32,
    wire: Vec<u8>,
}

fn malleate(sig: &mut [u8]) {
    // S + L, the other encoding of the same scalar.
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut c = 0u16;
    for i in 0..32 {
        let v = sig[32 + i] as u16 + L[i] as u16 + c;
        sig[32 + i] = v as u8;
        c = v >> 8;
    }
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let auths: Vec<_> = (0..3).map(|_| generate_authority_keypair()).collect();
    let names: Vec<String> = auths.iter().map(|a| base58::encode_slice(&a.public.to_bytes())).collect();
    let mut keys: Vec<StaticPublicKey> = vec![];
    for k in 0..3 {
        keys.push(keypair(secret(&[s.seed, 40 + k]))?.get_public_key());
    }
    let mut issued: Vec<Issued> = vec![];
    for st in &s.steps {
        match st.op.as_str() {
            "cert" => {
                let (auth, key) = ((st.arg(0).unsigned_abs() % 3) as usize, (st.arg(1).unsigned_abs() % 3) as usize);
                let (version, from, until) = (st.arg(2) as u16, st.arg(3).clamp(0, 0xffff_ffff) as u32, st.arg(4).clamp(0, 0xffff_ffff) as u32);
                let made = SignedCertificate::new(version, from, until, &keys[key]);
                if made.is_ok() != (from < until) {
                    return viol("window not checked at creation", format!("window [{}, {}) created: {}", from, until, made.is_ok()));
                }
                let cert = match made {
                    Ok(c) if st.arg(5) == 0 => c,
                    Err(_) if st.arg(5) == 0 => continue,
                    // An authority may also fill in the fields itself.
                    _ => SignedCertificate { version, valid_from: from, not_valid_after: until, public_key: &keys[key] },
                };
                let m = match SignatureNoiseMessage::from_auth_key(&auths[auth], &cert) {
                    Ok(m) => m,
                    Err(e) => return viol("signing failed", e.to_string()),
                };
                // The other way to make one, from a signature made elsewhere.
                let m = if st.arg(3) & 1 == 0 { m } else { SignatureNoiseMessage::new(&cert, m.signature) };
                let wire = match serialize(&m) {
                    Ok(w) => w,
                    Err(e) => return viol("certificate not encoded", e.to_string()),
                };
                if wire.len() != 74 {
                    return viol("certificate not encoded", format!("{} bytes", wire.len()));
                }
                let head = [&version.to_le_bytes()[..], &from.to_le_bytes()[..], &until.to_le_bytes()[..]].concat();
                if wire[..10] != head[..] {
                    return viol("certificate not encoded", format!("{:02x?} instead of {:02x?}", &wire[..10], head));
                }
                ctx.ev_bytes(1, &wire);
                issued.push(Issued { auth, key, version, from, until, wire });
            }
            "verify" => {
                if issued.is_empty() {
                    continue;
                }
                let c = &issued[st.arg(0).unsigned_abs() as usize % issued.len()];
                let auth = if st.arg(1) < 0 { c.auth } else { st.arg(1) as usize % 3 };
                let key = if st.arg(2) < 0 { c.key } else { st.arg(2) as usize % 3 };
                if auth != c.auth {
                    ctx.fault("other_authority");
                }
                if key != c.key {
                    ctx.fault("other_static_key");
                }
                let mut wire = c.wire.clone();
                let x = st.arg(4).unsigned_abs() as usize;
                let other = &issued[x % issued.len()];
                match st.arg(3) {
                    1 => {
                        // The header is small next to the signature; aim at both.
                        let bit = if x % 2 == 0 { (x / 2) % 80 } else { (x / 2) % (74 * 8) };
                        wire[bit / 8] ^= 1 << (bit % 8);
                        ctx.fault("bit_flip");
                    }
                    2 => {
                        let (a, b) = [(0, 2), (2, 6), (6, 10), (10, 74), (10, 42), (42, 74)][(x >> 8) % 6];
                        wire[a..b].copy_from_slice(&other.wire[a..b]);
                        ctx.fault("field_swapped");
                    }
                    3 => {
                        let n = x % 74;
                        ctx.fault("torn");
                        if deserialize::<SignatureNoiseMessage>(&wire[..n]).is_ok() {
                            return viol("torn certificate accepted", format!("{} of 74 bytes", n));
                        }
                    }
                    4 => {
                        malleate(&mut wire[10..]);
                        ctx.fault("signature_malleated");
                    }
                    5 => {
                        let v = [0u8, 0xff, 1][x % 3];
                        wire[10..74].iter_mut().for_each(|b| *b = v);
                        ctx.fault("signature_blanked");
                    }
                    6 => {
                        // Stretch the window to cover everything.
                        if x & 1 == 0 {
                            wire[6..10].copy_from_slice(&u32::MAX.to_le_bytes());
                        } else {
                            wire[2..6].copy_from_slice(&0u32.to_le_bytes());
                        }
                        ctx.fault("window_stretched");
                    }
                    7 => {
                        let sig = &mut wire[10..74];
                        if x & 1 == 0 {
                            let (a, b) = sig.split_at_mut(32);
                            a.swap_with_slice(b);
                        } else {
                            sig.reverse();
                        }
                        ctx.fault("signature_scrambled");
                    }
                    _ => {}
                }
                // The key the peer shows, and the key the miner was configured with.
                let mut shown = keys[key];
                let mut name = names[auth].clone();
                match st.arg(3) {
                    8 => {
                        // The bits the key exchange ignores are part of what was signed.
                        let mut b = shown.as_bytes();
                        let bit = [255, 0, 1, 2, 254, x % 256][(x >> 8) % 6];
                        b[bit / 8] ^= 1 << (bit % 8);
                        if let Ok(k) = StaticPublicKey::from_bytes(b) {
                            shown = k;
                            ctx.fault("static_key_altered");
                        }
                    }
                    9 => {
                        let mut b = auths[auth].public.to_bytes();
                        let bit = [255, x % 256, 0, 254][(x >> 8) % 4];
                        b[bit / 8] ^= 1 << (bit % 8);
                        name = base58::encode_slice(&b);
                        ctx.fault("authority_key_altered");
                    }
                    _ => {}
                }
                let altered = shown != keys[key] || name != names[auth];
                let Ok(m) = deserialize::<SignatureNoiseMessage>(&wire) else {
                    if issued.iter().any(|i| i.wire == wire) {
                        return viol("genuine certificate not decoded", format!("{} bytes", wire.len()));
                    }
                    ctx.ev(&[3, x as u64]);
                    continue;
                };
                // What was signed, as bytes that the wire carries.
                let authentic = !altered && issued.iter().any(|i| i.wire == wire && i.auth == auth && i.key == key);
                let (from, until) = (
                    i64::from(u32::from_le_bytes(wire[2..6].try_into().unwrap())),
                    i64::from(u32::from_le_bytes(wire[6..10].try_into().unwrap())),
                );
                let f = match CertificateFormat::new(&name, &shown, &m) {
                    Ok(f) => f,
                    // Not every text is a key.
                    Err(_) if name != names[auth] => continue,
                    Err(e) => return viol("authority key refused", e.to_string()),
                };
                let n = (st.a.len().saturating_sub(6)) / 2;
                for k in 0..n {
                    let (secs, ns) = (st.arg(6 + 2 * k), st.arg(7 + 2 * k).clamp(0, 999_999_999));
                    if k > 0 {
                        ctx.fault("clock_jump");
                    }
                    if secs < 0 {
                        ctx.fault("clock_before_1970");
                    } else if secs > 0xffff_ffff {
                        ctx.fault("clock_past_32_bits");
                    } else if ns > 0 {
                        ctx.fault("clock_between_seconds");
                    }
                    let tick = st.arg(5).clamp(0, 1_000_000_000);
                    if tick > 0 {
                        ctx.fault("clock_runs_during_call");
                    }
                    let (ok, secs2, reads) = {
                        seams::with(|s| {
                            s.secs = secs;
                            s.nanos = ns;
                            s.tick_nanos = tick;
                            s.clock_reads = 0;
                        });
                        let r = f.verify();
                        let (s2, rd) = seams::with(|s| {
                            s.tick_nanos = 0;
                            (s.secs, s.clock_reads)
                        });
                        ctx.note(|| format!("verify at {}.{:09}: {}", secs, ns, r.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| e.to_string())));
                        (r.is_ok(), s2, rd)
                    };
                    let live = |t: i64| from <= t && t < until;
                    let (a, b) = (live(secs), live(secs2));
                    let _ = reads;
                    ctx.ev(&[2, authentic as u64, a as u64, ok as u64, secs as u64]);
                    ctx.sim_ns += secs.abs_diff(crate::runner::DEFAULT_CLOCK).min(86400) * 1_000_000_000;
                    if ok && !authentic {
                        return viol("a certificate that was not signed like this verified", format!("authority {} key {} bytes {}", auth, key, crate::crypto::hex(&wire)));
                    }
                    if ok && !a && !b {
                        return viol("verified outside its validity window", format!("window [{}, {}) at {}", from, until, secs));
                    }
                    if !ok && authentic && a && b {
                        return viol("a valid certificate was refused", format!("window [{}, {}) at {}.{:09}", from, until, secs, ns));
                    }
                    ctx.probe(if ok { "verified" } else if authentic { "refused_by_time" } else { "refused_by_signature" });
                    if authentic && (secs == from || secs + 1 == from || secs == until || secs + 1 == until) {
                        ctx.probe("at_window_edge");
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
