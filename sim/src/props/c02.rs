//! Framed messages cross a fragmenting stream intact, in order, exactly once.
use crate::glue;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::streams::{script, FaultyWriter};
use crate::wire::{self, K, V};
use stratumv2::codec::{ByteParser, Deserializable, Message};
use stratumv2::error::Error;

pub const PROP: Prop = Prop {
    id: "C02",
    gen,
    exec,
    quick: 250_000,
    thorough: 2_500_000,
    rule: "A sender frames a random sequence of messages onto a simulated stream (short and interrupted writes); the receiver gets it in scripted chunks, with stalls and possibly a cut, and decodes as bytes arrive.",
    real: "stratumv2 codec: frame, unframe, Message encode and decode, all message types",
    stub: "the byte stream",
    assumptions: &["a receiver retries decoding from the start of the first incomplete frame"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C02", 0);
    if r.chance(1, 12) {
        // The reader all decoding goes through, by itself: fields of a frame asked for one after
        // the other, more than has arrived among them.
        s.push("reader", &[r.tag(), *r.pick(&[0, 1, 7, 40, 300, 70_000]), r.below(60) as i64]);
        for _ in 0..r.range(2, 16) {
            let most = *r.pick(&[8, 40, 300, 80_000]);
            s.push("read", &[wire::size(r, most) as i64]);
        }
        return s;
    }
    let n = *r.pick(&[1, 1, 2, 3, 4, 8, 16]);
    let mut approx = 0i64;
    // Now and then one frame uses the upper bits of the 24-bit length.
    let mut big = idx % 211 == 0;
    for _ in 0..n {
        if r.chance(3, 4) && !big {
            s.push("msg", &[r.below(wire::FRAMED.len() as u64) as i64, r.tag()]);
            approx += 120;
        } else {
            let top = if r.chance(1, 8) { 70000 } else { 600 };
            let len = if big {
                let b = 1i64 << (15 + r.below(10));
                *r.pick(&[65536, 16777215, b, b - 1, b + 1, b + b / 2 + 128, r.clone().below(1 << 24) as i64])
            } else {
                wire::size(r, top) as i64
            };
            big = false;
            s.push("raw", &[r.below(27) as i64, len]);
            approx += len + 6;
        }
    }
    s.push("mode", &[r.below(3) as i64]);
    if r.chance(1, 3) {
        s.push("limit", &[*r.pick(&[7, 64, 255, 1000, 5000])]);
    }
    for _ in 0..r.below(6) {
        match r.below(2) {
            0 => s.push("short", &[*r.pick(&[1, 2, 3, 100])]),
            _ => s.push("eintr", &[]),
        }
    }
    let style = r.below(5);
    let k = if style == 0 { 0 } else { r.below(60) };
    for _ in 0..k {
        if r.chance(1, 8) {
            s.push("stall", &[r.below(1000) as i64]);
        }
        let c = match style {
            1 => 1,
            2 => r.range(1, 8),
            3 => *r.pick(&[1, 2, 3, 5, 6, 7, 8, 100, 1000]),
            _ => r.range(1, (approx / 3).max(2)),
        };
        s.push("chunk", &[c]);
    }
    if r.chance(1, 2) {
        s.push("cut", &[r.range(0, approx + 20)]);
    }
    if r.chance(1, 4) {
        s.push("junk", &[r.range(1, 40), r.tag()]);
    }
    s
}

enum Sent {
    Msg(K, Vec<V>),
    Raw(u8, Vec<u8>),
}

fn take(buf: &[u8], pos: usize, mode: i64) -> Result<Message, Error> {
    if mode == 0 {
        glue::decode_message_at(buf, pos)
    } else {
        glue::decode_message(&buf[pos..])
    }
}

/// A reader gives exactly the bytes that follow, or fails and takes none.
fn reader(s: &Scenario, st: &crate::scenario::Step, ctx: &mut Ctx) -> Outcome {
    let b = Rng::from(&[st.arg(0) as u64, 2]).bytes(st.arg(1).clamp(0, 1 << 20) as usize);
    // Starting past the end is nothing to read from.
    let mut at = st.arg(2).clamp(0, 1 << 20) as usize;
    let mut p = ByteParser::new(&b, at);
    for t in s.steps.iter().filter(|t| t.op == "read") {
        let n = t.arg(0).clamp(0, 1 << 24) as usize;
        let want = b.get(at..at + n);
        let got = p.next_by(n);
        ctx.ev(&[3, at as u64, n as u64, got.is_ok() as u64]);
        match (want, got) {
            (Some(w), Ok(g)) if w == g => at += n,
            (Some(_), Ok(_)) => return viol("other bytes were read", format!("{} bytes at {} of {}", n, at, b.len())),
            (Some(_), Err(e)) => return viol("bytes that are there were refused", format!("{} bytes at {} of {}: {}", n, at, b.len(), e)),
            (None, Err(_)) => ctx.fault("short_read"),
            // Nothing, from past the end: either answer will do.
            (None, Ok(_)) if n == 0 => {}
            (None, Ok(_)) => return viol("bytes that are not there were read", format!("{} bytes at {} of {}", n, at, b.len())),
        }
    }
    ctx.probe("readers");
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    for st in s.steps.iter().filter(|t| t.op == "reader") {
        reader(s, st, ctx)?;
    }
    let types = glue::named_types();
    let limit = s.steps.iter().find(|t| t.op == "limit").map_or(0, |t| t.arg(0).max(0) as usize);
    let mode = s.steps.iter().find(|t| t.op == "mode").map_or(0, |t| t.arg(0).rem_euclid(3));
    // The sender: one stream for all frames.
    let mut w = FaultyWriter::new(script(s), limit);
    let mut sent = vec![];
    let mut ends = vec![];
    for t in &s.steps {
        match t.op.as_str() {
            "msg" => {
                let k = wire::FRAMED[t.arg(0).rem_euclid(wire::FRAMED.len() as i64) as usize];
                let v = wire::gen(k, &mut Rng::from(&[s.seed, t.arg(1) as u64]), false);
                let f = match glue::build(k, &v).and_then(|m| glue::to_frame(&m)) {
                    Ok(f) => f,
                    Err(e) => return viol("cannot frame", format!("{:?}: {}", k, e)),
                };
                if let Err(e) = glue::encode_message(&f, &mut w) {
                    return viol("cannot encode", format!("{:?}: {}", k, e));
                }
                sent.push(Sent::Msg(k, v));
            }
            "raw" => {
                let i = t.arg(0).rem_euclid(27) as usize;
                let p = Rng::from(&[s.seed, sent.len() as u64, 3]).bytes(t.arg(1).clamp(0, 16777215) as usize);
                if let Err(e) = glue::encode_message(&Message::new(types[i].0, p.clone()), &mut w) {
                    return viol("cannot encode", format!("frame with {} bytes: {}", p.len(), e));
                }
                sent.push(Sent::Raw(types[i].1, p));
            }
            _ => continue,
        }
        ends.push(w.delivered.len());
    }
    w.report(ctx);
    let mut stream = std::mem::take(&mut w.delivered);
    let clean = stream.len();
    let mut cut = None;
    for t in &s.steps {
        match t.op.as_str() {
            "cut" => {
                let c = t.arg(0).max(0) as usize;
                if c < clean {
                    stream.truncate(c);
                    cut = Some(c);
                    ctx.fault("stream_cut");
                }
            }
            "junk" if cut.is_none() => {
                // Bytes after the last frame; not a complete frame themselves.
                let mut r = Rng::from(&[s.seed, t.arg(1) as u64, 9]);
                let n = t.arg(0).clamp(1, 5) as usize;
                stream.extend_from_slice(&r.bytes(n));
                ctx.fault("trailing_bytes");
            }
            _ => {}
        }
    }
    let whole = ends.iter().filter(|e| **e <= stream.len()).count();
    // The receiver.
    let (mut got, mut arrived, mut pos) = (0usize, 0usize, 0usize);
    let mut chunks: Vec<usize> = vec![];
    for t in &s.steps {
        match t.op.as_str() {
            "chunk" => chunks.push(t.arg(0).max(1) as usize),
            "stall" => chunks.push(0),
            _ => {}
        }
    }
    chunks.push(usize::MAX);
    for c in chunks {
        if arrived == stream.len() && c > 0 {
            if c != usize::MAX {
                continue;
            }
        }
        if c == 0 {
            ctx.fault("stall");
            ctx.sim_ns += 1_000_000;
        } else if c != usize::MAX && arrived + c < stream.len() {
            ctx.fault("fragment");
        }
        arrived = arrived.saturating_add(c).min(stream.len());
        let buf = &stream[..arrived];
        let mut parser = ByteParser::new(buf, pos);
        loop {
            let res = if mode == 2 { Message::deserialize(&mut parser) } else { take(buf, pos, mode) };
            let complete = got < sent.len() && ends[got] <= arrived;
            ctx.ev(&[got as u64, arrived as u64, res.is_ok() as u64]);
            match res {
                Ok(m) => {
                    if got >= sent.len() && pos >= clean {
                        // Trailing bytes may happen to form an empty frame only if six arrived.
                        return viol("invented message", format!("decoded a message from {} trailing bytes", arrived - pos));
                    }
                    if !complete {
                        return viol("partial frame decoded", format!("frame {} decoded with {} of {} bytes", got, arrived - pos, ends[got] - pos));
                    }
                    let (k, v, num, payload);
                    match &sent[got] {
                        Sent::Msg(kk, vv) => {
                            k = Some(*kk);
                            v = vv.clone();
                            num = wire::type_of(*kk).0;
                            payload = wire::encode(*kk, vv);
                        }
                        Sent::Raw(n, p) => {
                            k = None;
                            v = vec![];
                            num = *n;
                            payload = p.clone();
                        }
                    }
                    if m.message_type.msg_type() != num || m.payload != payload {
                        return viol("wrong frame", format!("frame {}: type {:#x} with {} bytes arrived as type {:#x} with {}", got, num, payload.len(), m.message_type.msg_type(), m.payload.len()));
                    }
                    if let Some(k) = k {
                        match glue::from_frame(k, &m) {
                            Ok(l) => {
                                if glue::values(&l) != v {
                                    return viol("wrong fields", format!("{:?}: sent {:?}, received {:?}", k, v, glue::values(&l)));
                                }
                            }
                            Err(e) => return viol("cannot unframe", format!("{:?}: {}", k, e)),
                        }
                    }
                    for k2 in wire::FRAMED {
                        if wire::type_of(*k2).0 != num && glue::from_frame(*k2, &m).is_ok() {
                            return viol("unframed as another type", format!("type {:#x} unwrapped as {:?}", num, k2));
                        }
                    }
                    ctx.probe("message_delivered");
                    pos = ends[got];
                    got += 1;
                }
                Err(e) => {
                    if complete {
                        return viol("whole frame refused", format!("frame {} of {} bytes: {}", got, ends[got] - pos, e));
                    }
                    // What is left is an incomplete frame, or bytes after the last one.
                    if pos < clean && !matches!(e, Error::ParseError(_)) {
                        return viol("wrong error for a partial frame", format!("{} of {} bytes of frame {}: {:?}", arrived - pos, ends.get(got).map_or(0, |e| e - pos), got, e));
                    }
                    ctx.probe("waited_for_more");
                    break;
                }
            }
        }
    }
    if got != whole {
        return viol("lost message", format!("{} whole frames arrived, {} decoded", whole, got));
    }
    Ok(())
}
