//! Corrupted or hostile bytes decode to an error or to a valid message only.
use crate::alloc::peak_of;
use crate::glue::{self, L};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::wire::{self, K, V};
use stratumv2::codec::Message;

pub const PROP: Prop = Prop {
    id: "C04",
    gen,
    exec,
    quick: 900_000,
    thorough: 10_000_000,
    rule: "A valid encoding is damaged by the simulated network or a hostile peer (bit flips, overwritten, inserted, deleted, duplicated, truncated, spliced bytes, forged lengths) and decoded.",
    real: "stratumv2 codec: every Deserializable implementation, unframe, constructors",
    stub: "the network",
    assumptions: &["the reference rules (wire.rs) state what a valid message is", "memory is counted by the global allocator; bound 8 x bytes received + 16 KiB"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C04", 0);
    let framed = r.chance(2, 5);
    if framed {
        s.push("frame", &[r.below(wire::FRAMED.len() as u64) as i64, r.tag()]);
    } else {
        let k = loop {
            let k = if r.chance(1, 2) { wire::ALL[idx as usize % wire::ALL.len()] } else { *r.pick(&wire::ALL[..17]) };
            if wire::decodable(k) {
                break k;
            }
        };
        s.push("value", &[k as i64, r.tag()]);
    }
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3, 6]) {
        let p = r.tag();
        match r.below(13) {
            0 => s.push("flip", &[p, r.below(8) as i64]),
            1 => s.push("set", &[p, *r.pick(&[0, 1, 2, 3, 31, 32, 33, 127, 128, 191, 192, 254, 255])]),
            2 => s.push("trunc", &[p]),
            3 => s.push("dup", &[p, r.range(1, 40)]),
            4 => s.push("ins", &[p, r.range(1, 40), r.tag()]),
            5 => s.push("del", &[p, r.range(1, 40)]),
            6 => s.push("splice", &[p, r.below(wire::FRAMED.len() as u64) as i64, r.tag()]),
            7 => s.push("field", &[p, r.below(20) as i64, r.tag()]),
            8 | 9 => s.push("field", &[p, r.below(20) as i64, r.tag()]),
            10 => s.push("hdrlen", &[*r.pick(&[0, 1, 5, 6, 255, 256, 65535, 65536, 16777215, 8388608]), r.below(3) as i64]),
            11 => s.push("hdr", &[r.below(3) as i64, r.below(256) as i64]),
            _ => s.push("tail", &[r.range(1, 600), r.tag()]),
        }
    }
    if r.chance(1, 50) {
        s.steps.clear();
        s.push("random", &[r.below(wire::ALL.len() as u64) as i64, r.below(300) as i64, r.tag()]);
    }
    s
}

/// Puts a value the reference may consider invalid into one field of a fresh encoding.
fn hostile_field(k: K, v: &mut Vec<V>, which: usize, kind: u64, r: &mut Rng) -> Vec<u8> {
    use crate::wire::F::*;
    let lay = wire::layout(k);
    let i = which % lay.len();
    let mut out = vec![];
    for (j, f) in lay.iter().enumerate() {
        if j != i {
            wire::put(*f, &v[j], &mut out);
            continue;
        }
        match *f {
            Str(_) | Code(_) | Bytes(..) => {
                let l = if let Bytes(l, _) = *f { l } else { 1 };
                let mut d = match kind % 10 {
                    0 => vec![],
                    1 => {
                        let n = r.range(30, 40) as usize;
                        wire::text(r, n)
                    }
                    2 => vec![0xff],
                    3 => vec![0xc3],
                    4 => vec![0xed, 0xa0, 0x80],
                    5 => vec![0xf4, 0x90, 0x80, 0x80],
                    6 => {
                        let set = if r.chance(1, 2) { wire::CODES_SETUP } else { wire::CODES_OPEN };
                        let mut c = r.pick(set).as_bytes().to_vec();
                        match r.below(5) {
                            0 => {
                                c.pop();
                            }
                            1 => c.push(b' '),
                            2 => c[0] ^= 0x20,
                            3 => c.push(0),
                            _ => {}
                        }
                        c
                    }
                    7 => {
                        let n = r.below(256) as usize;
                        r.bytes(n)
                    }
                    8 => {
                        let n = 255 - r.below(3) as usize;
                        wire::text(r, n)
                    }
                    _ => {
                        let mut t = v[j].b().to_vec();
                        if !t.is_empty() {
                            let p = r.below(t.len() as u64) as usize;
                            t[p] = *r.pick(&[0x80, 0xc0, 0xff, 0xe2, 0xf0, 0]);
                        }
                        t
                    }
                };
                let claim = match r.below(6) {
                    0 => d.len() as u64 + r.below(4),
                    1 => (d.len() as u64).saturating_sub(r.below(4)),
                    2 if l > 1 => *r.pick(&[0xffff, 0xff_ffff, 0x80_0000, 0x100]),
                    _ => d.len() as u64,
                };
                for b in 0..l {
                    out.push((claim >> (8 * b)) as u8);
                }
                out.append(&mut d);
            }
            Flags(m) => {
                let bad = match kind % 4 {
                    0 => 1u32 << r.below(32),
                    1 => m.wrapping_add(1),
                    2 => r.u64() as u32,
                    _ => u32::MAX,
                };
                let x = v[j].n() as u32 | bad;
                out.extend_from_slice(&(if kind % 5 == 0 { 0 } else { x }).to_le_bytes());
            }
            Proto(_) => out.push(*r.pick(&[0, 1, 2, 3, 4, 5, 128, 255])),
            U16 => out.extend_from_slice(&(*r.pick(&[0u16, 1, 2, 255, 256, 257, 512, 65535])).to_le_bytes()),
            Sig => {
                let mut b = r.bytes(64);
                match kind % 4 {
                    0 => b[63] = 0xff,
                    1 => b[63] = 0x20,
                    2 => b[63] = 0xe0,
                    _ => {
                        for (x, y) in b[32..].iter_mut().zip([0xedu8, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10]) {
                            *x = y;
                        }
                    }
                }
                out.extend_from_slice(&b);
            }
            _ => wire::put(*f, &v[j], &mut out),
        }
    }
    out
}

fn judge(k: K, l: &L, bytes: &[u8], ctx: &mut Ctx) -> Outcome {
    let got = glue::values(l);
    // The two setup messages share a decoder; the protocol byte says which it is.
    let k = match k {
        K::SetupMining | K::SetupJob => {
            if got[0] == V::N(0) {
                K::SetupMining
            } else {
                K::SetupJob
            }
        }
        k => k,
    };
    ctx.probe("decoded_ok");
    match wire::decode(k, bytes) {
        Ok((v, used)) => {
            if v != got {
                return viol("wrong values", format!("{:?}: reference {:?}, library {:?}", k, v, got));
            }
            let mut out = vec![];
            match glue::encode(l, &mut out) {
                Ok(_) if k == K::FBool => {}
                Ok(_) => {
                    if out != bytes[..used] {
                        return viol("encodes back differently", format!("{:?}: decoded from {} bytes, encodes to {}", k, used, out.len()));
                    }
                }
                Err(e) => return viol("does not encode back", format!("{:?}: {}", k, e)),
            }
            if let Err(e) = glue::build(k, &got) {
                return viol("constructor disagrees", format!("{:?} {:?}: {}", k, got, e));
            }
        }
        Err(e) => return viol("invalid message accepted", format!("{:?} {:?} ({:?} for the reference)", k, got, e)),
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let Some(t) = s.steps.first() else { return Ok(()) };
    let mut r = Rng::from(&[s.seed, 4]);
    let framed = t.op == "frame";
    let k;
    let mut b;
    let mut vals = vec![];
    match t.op.as_str() {
        "frame" => {
            k = wire::FRAMED[t.arg(0).rem_euclid(wire::FRAMED.len() as i64) as usize];
            vals = wire::gen(k, &mut Rng::from(&[s.seed, t.arg(1) as u64]), false);
            b = wire::encode_framed(k, &vals);
        }
        "value" => {
            k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
            if !wire::decodable(k) {
                return Ok(());
            }
            vals = wire::gen(k, &mut Rng::from(&[s.seed, t.arg(1) as u64]), false);
            b = wire::encode(k, &vals);
        }
        "random" => {
            k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
            b = Rng::from(&[s.seed, t.arg(2) as u64]).bytes(t.arg(1).clamp(0, 100000) as usize);
            ctx.fault("random_bytes");
            if !wire::decodable(k) {
                return Ok(());
            }
        }
        _ => return Ok(()),
    }
    for (i, t) in s.steps.iter().enumerate().skip(1) {
        let len = b.len();
        let at = if len == 0 { 0 } else { t.arg(0).rem_euclid(len as i64) as usize };
        let mut q = Rng::from(&[s.seed, i as u64, t.arg(2) as u64]);
        match t.op.as_str() {
            "flip" if len > 0 => {
                b[at] ^= 1 << (t.arg(1) & 7);
                ctx.fault("bit_flip");
            }
            "set" if len > 0 => {
                b[at] = t.arg(1) as u8;
                ctx.fault("byte_overwritten");
            }
            "trunc" => {
                b.truncate(at);
                ctx.fault("truncated");
            }
            "dup" if len > 0 => {
                let e = (at + t.arg(1).clamp(1, 4000) as usize).min(len);
                let d = b[at..e].to_vec();
                b.splice(e..e, d);
                ctx.fault("bytes_duplicated");
            }
            "ins" => {
                let d = q.bytes(t.arg(1).clamp(0, 4000) as usize);
                b.splice(at..at, d);
                ctx.fault("bytes_inserted");
            }
            "del" if len > 0 => {
                let e = (at + t.arg(1).clamp(1, 4000) as usize).min(len);
                b.drain(at..e);
                ctx.fault("bytes_lost");
            }
            "splice" => {
                let k2 = wire::FRAMED[t.arg(1).rem_euclid(wire::FRAMED.len() as i64) as usize];
                let v2 = wire::gen(k2, &mut q, false);
                let o = if framed { wire::encode_framed(k2, &v2) } else { wire::encode(k2, &v2) };
                b.truncate(at);
                b.extend_from_slice(&o[at.min(o.len())..]);
                ctx.fault("spliced");
            }
            "field" if !vals.is_empty() => {
                let body = hostile_field(k, &mut vals, t.arg(0).unsigned_abs() as usize, t.arg(1).unsigned_abs(), &mut q);
                b = if framed { wire::frame_bytes(wire::type_of(k).0, wire::type_of(k).1, &body) } else { body };
                ctx.fault("hostile_field");
            }
            "hdrlen" if framed && len >= 6 => {
                let n = match t.arg(1) {
                    0 => t.arg(0),
                    1 => len as i64 - 6 + 1,
                    _ => (len as i64 - 7).max(0),
                };
                b[3] = n as u8;
                b[4] = (n >> 8) as u8;
                b[5] = (n >> 16) as u8;
                ctx.fault("forged_length");
            }
            "hdr" if framed && len >= 3 => {
                b[t.arg(0).rem_euclid(3) as usize] = t.arg(1) as u8;
                ctx.fault("forged_header");
            }
            "tail" => {
                let d = q.bytes(t.arg(1).clamp(0, 4000) as usize);
                b.extend_from_slice(&d);
                ctx.fault("bytes_appended");
            }
            _ => {}
        }
    }
    let _ = &mut r;
    ctx.ev_bytes(k as u64, &b);
    let bound = 8 * b.len() as i64 + 16384;
    let mem = |what: &str, peak: i64| -> Outcome {
        if peak > bound {
            return viol("memory", format!("{}: {} bytes held for {} received", what, peak, b.len()));
        }
        Ok(())
    };
    ctx.note(|| format!("{} {:?} {}", if framed { "frame" } else { "value" }, k, crate::crypto::hex(&b[..b.len().min(400)])));
    if framed {
        let (res, peak) = peak_of(|| glue::decode_message(&b));
        ctx.max("peak_bytes", peak.max(0) as u64);
        mem("frame", peak)?;
        ctx.ev(&[res.is_ok() as u64]);
        if let Ok(m) = &res {
            match wire::decode_frame(&b) {
                Ok((num, p, used)) => {
                    if m.message_type.msg_type() != num || m.payload != p {
                        return viol("wrong frame", format!("type {:#x} with {} bytes decoded as {:?} with {}", num, p.len(), m.message_type, m.payload.len()));
                    }
                    let mut out = vec![];
                    if glue::encode_message(m, &mut out).is_err() || out != b[..used] {
                        return viol("encodes back differently", format!("frame of type {:#x}", num));
                    }
                    ctx.probe("frame_decoded_ok");
                }
                // The library's own two test types are not part of the protocol.
                Err(_) if m.message_type.msg_type() >= 0xfe => {}
                Err(e) => return viol("invalid frame accepted", format!("{:?} ({:?} for the reference)", m.message_type, e)),
            }
            unframe_all(m, &b, ctx)?;
        } else {
            ctx.probe("frame_refused");
        }
        // The payload bytes may reach unframe through a frame the caller built.
        if b.len() > 6 {
            let num = wire::type_of(k).0;
            if let Some((ty, _, _)) = glue::named_types().into_iter().find(|x| x.1 == num) {
                unframe_all(&Message::new(ty, b[6..].to_vec()), &b, ctx)?;
            }
        }
    } else {
        let (res, peak) = peak_of(|| glue::decode(k, &b));
        ctx.max("peak_bytes", peak.max(0) as u64);
        mem("value", peak)?;
        ctx.ev(&[res.is_ok() as u64]);
        match &res {
            Ok(l) => judge(k, l, &b, ctx)?,
            Err(_) => ctx.probe("refused"),
        }
    }
    Ok(())
}

fn unframe_all(m: &Message, b: &[u8], ctx: &mut Ctx) -> Outcome {
    for k in wire::FRAMED {
        let (res, peak) = peak_of(|| glue::from_frame(*k, m));
        if peak > 8 * b.len() as i64 + 16384 {
            return viol("memory", format!("unframe {:?}: {} bytes held for {} received", k, peak, b.len()));
        }
        ctx.ev(&[*k as u64, res.is_ok() as u64]);
        if let Ok(l) = res {
            if m.message_type.msg_type() != wire::type_of(*k).0 {
                return viol("unframed as another type", format!("{:?} as {:?}", m.message_type, k));
            }
            judge(*k, &l, &m.payload, ctx)?;
        }
    }
    Ok(())
}
