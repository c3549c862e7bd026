//! Wire format interoperates with an independent peer.
use crate::glue;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::streams::{script, FaultyWriter};
use crate::wire::{self, K, V};
use stratumv2::codec::Message;
use stratumv2::error::Error;
use stratumv2::types::MessageType;

pub const PROP: Prop = Prop {
    id: "C03",
    gen,
    exec,
    quick: 400_000,
    thorough: 3_000_000,
    rule: "A library node and a reference node exchange random messages and fields in both directions over a stream that splits and interrupts writes and fragments reads.",
    real: "stratumv2 codec and all messages, types, flags and error codes",
    stub: "the peer (independent reference codec) and the byte stream",
    assumptions: &["the reference codec (wire.rs) states the wire format"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C03", 0);
    for i in 0..r.range(1, 6) {
        let k = if i == 0 { wire::ALL[idx as usize % wire::ALL.len()] } else { *r.pick(wire::ALL) };
        let big = r.chance(1, 60) as i64;
        match r.below(5) {
            0 => s.push("lib_sends", &[k as i64, r.tag(), big]),
            1 if wire::decodable(k) => s.push("ref_sends", &[k as i64, r.tag(), big]),
            2 => s.push("lib_frames", &[r.pick(wire::FRAMED).to_owned() as i64, r.tag()]),
            3 => s.push("ref_frames", &[r.pick(wire::FRAMED).to_owned() as i64, r.tag()]),
            _ => s.push("raw", &[r.below(256) as i64, wire::size(r, 300) as i64, r.below(2) as i64, if r.chance(1, 6) { r.below(32768) as i64 } else { 0 }]),
        }
    }
    if r.chance(1, 2) {
        s.push("limit", &[*r.pick(&[1, 2, 3, 64, 255, 1000])]);
        s.steps.retain(|t| t.arg(2) == 0 || !t.op.ends_with("_sends"));
    }
    for _ in 0..r.below(8) {
        match r.below(3) {
            0 => s.push("eintr", &[]),
            _ => s.push("short", &[*r.pick(&[1, 2, 3, 9, 100])]),
        }
    }
    for _ in 0..r.below(8) {
        s.push("chunk", &[*r.pick(&[1, 1, 2, 3, 5, 6, 7, 20, 64, 300])]);
    }
    s
}

/// Tries every prefix length named by the chunks first; a decoder of a partial value
/// must ask for more, and must not depend on having been tried before.
fn fragments<T>(s: &Scenario, bytes: &[u8], ctx: &mut Ctx, dec: impl Fn(&[u8]) -> Result<T, Error>) -> Result<(), String> {
    let mut at = 0;
    for t in s.steps.iter().filter(|t| t.op == "chunk") {
        at += t.arg(0).max(1) as usize;
        if at >= bytes.len() {
            break;
        }
        ctx.fault("fragment");
        if dec(&bytes[..at]).is_ok() {
            return Err(format!("decoded from {} of {} bytes", at, bytes.len()));
        }
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let limit = s.steps.iter().find(|t| t.op == "limit").map_or(0, |t| t.arg(0).max(0) as usize);
    for (i, t) in s.steps.iter().enumerate() {
        let mut r = Rng::from(&[s.seed, t.arg(1) as u64, i as u64]);
        match t.op.as_str() {
            "lib_sends" | "lib_frames" => {
                let framed = t.op == "lib_frames";
                let set = if framed { wire::FRAMED } else { wire::ALL };
                let k = set[t.arg(0).rem_euclid(set.len() as i64) as usize];
                let v = wire::gen(k, &mut r, !framed && t.arg(2) != 0);
                let m = match glue::build(k, &v) {
                    Ok(m) => m,
                    Err(e) => return viol("constructor", format!("{:?} refused {:?}: {}", k, v, e)),
                };
                let mut w = FaultyWriter::new(script(s), limit);
                let res = if framed { glue::to_frame(&m).and_then(|f| glue::encode_message(&f, &mut w)) } else { glue::encode(&m, &mut w) };
                w.report(ctx);
                if let Err(e) = res {
                    return viol("cannot encode", format!("{:?}: {}", k, e));
                }
                let want = if framed { wire::encode_framed(k, &v) } else { wire::encode(k, &v) };
                ctx.ev_bytes(2, &want[..want.len().min(2000)]);
                if w.delivered != want {
                    let at = w.delivered.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(w.delivered.len()));
                    return viol("bytes differ", format!("{:?}: library sends {} bytes, reference {}; first difference at {}", k, w.delivered.len(), want.len(), at));
                }
                // The reference reads it back (guards the reference too).
                let body = if framed { w.delivered[6..].to_vec() } else { w.delivered.clone() };
                if wire::decode(k, &body) != Ok((v.clone(), body.len())) {
                    return viol("reference cannot decode", format!("{:?}: {:?}", k, v));
                }
                ctx.probe("lib_to_ref");
            }
            "ref_sends" | "ref_frames" => {
                let framed = t.op == "ref_frames";
                let set = if framed { wire::FRAMED } else { wire::ALL };
                let k = set[t.arg(0).rem_euclid(set.len() as i64) as usize];
                if !wire::decodable(k) {
                    continue;
                }
                let v = wire::gen(k, &mut r, !framed && t.arg(2) != 0);
                let mut bytes = if framed { wire::encode_framed(k, &v) } else { wire::encode(k, &v) };
                if k == K::FBool {
                    // Only the lowest bit counts.
                    bytes[0] |= (r.below(128) << 1) as u8;
                }
                ctx.ev_bytes(3, &bytes[..bytes.len().min(2000)]);
                let dec = |b: &[u8]| -> Result<Vec<V>, Error> {
                    let l = if framed { glue::decode_message(b).and_then(|m| glue::from_frame(k, &m))? } else { glue::decode(k, b)? };
                    Ok(glue::values(&l))
                };
                if let Err(e) = fragments(s, &bytes, ctx, dec) {
                    return viol("partial value decoded", format!("{:?}: {}", k, e));
                }
                match dec(&bytes) {
                    Ok(g) => {
                        if g != v {
                            return viol("values differ", format!("{:?}: sent {:?}, library decoded {:?}", k, v, g));
                        }
                    }
                    Err(e) => return viol("cannot decode", format!("{:?} {:?}: {:?}", k, v, e)),
                }
                ctx.probe("ref_to_lib");
            }
            "raw" => {
                // Any type number and extension, right or wrong channel bit.
                let num = t.arg(0).rem_euclid(256) as u8;
                let ext = t.arg(3).rem_euclid(32768) as u16;
                if num >= 0xfe {
                    continue;
                }
                let p = r.bytes(t.arg(1).clamp(0, 70000) as usize);
                let known = if ext == 0 { wire::known_type(num) } else { None };
                let chan = known.map_or(t.arg(2) == 1, |c| c ^ (t.arg(2) == 1));
                let mut bytes = wire::frame_bytes(num, chan, &p);
                bytes[0] |= ext as u8;
                bytes[1] |= (ext >> 8) as u8;
                let res = glue::decode_message(&bytes);
                ctx.ev(&[num as u64, chan as u64, ext as u64, res.is_ok() as u64]);
                let good = known == Some(chan);
                match res {
                    Ok(m) => {
                        if !good {
                            ctx.fault("unknown_type_or_bit");
                            return viol("frame accepted", format!("type {:#x} extension {:#x} channel bit {} accepted", num, ext, chan));
                        }
                        if m.payload != p || m.message_type.msg_type() != num || m.message_type.ext_type() != 0 || m.message_type.channel_bit() != chan {
                            return viol("frame misread", format!("type {:#x}", num));
                        }
                        let named = glue::named_types().into_iter().find(|x| x.1 == num);
                        if named.map(|x| x.0) != Some(m.message_type) {
                            return viol("type misnamed", format!("type {:#x} decoded as {:?}", num, m.message_type));
                        }
                        let mut w = FaultyWriter::new(script(s), limit);
                        let res = glue::encode_message(&Message::new(m.message_type, p), &mut w);
                        w.report(ctx);
                        if res.is_err() || w.delivered != bytes {
                            return viol("bytes differ", format!("frame of type {:#x}", num));
                        }
                        ctx.probe("raw_frame_ok");
                    }
                    Err(_) => {
                        if good {
                            return viol("cannot decode", format!("frame of type {:#x} with {} bytes", num, p.len()));
                        }
                        ctx.fault("unknown_type_or_bit");
                        ctx.probe("raw_frame_refused");
                    }
                }
                match (MessageType::new(ext, num), known) {
                    (Ok(_), Some(_)) | (Err(_), None) => {}
                    _ => return viol("type table", format!("type {:#x} extension {:#x}", num, ext)),
                }
            }
            _ => {}
        }
    }
    Ok(())
}
