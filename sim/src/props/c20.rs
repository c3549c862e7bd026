//! Only what the protocol allows can be built, and all of it.
use crate::glue;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::streams::{script, FaultyWriter};
use crate::wire::{self, F, K, V};
use std::convert::TryFrom;
use std::str::FromStr;
use stratumv2::common::{Protocol, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::types::*;

pub const PROP: Prop = Prop {
    id: "C20",
    gen,
    exec,
    quick: 300_000,
    thorough: 6_000_000,
    rule: "An application hands random values, some breaking one or two protocol rules (over-long text and bytes, versions below 2, empty vendor or firmware, missing unsupported flags, numbers past 24 bits), to the constructors and conversions; each must succeed exactly when the values are allowed and hold exactly those values, and what was built crosses a stream that splits and interrupts writes to a library peer and a reference peer that both accept it as the same values, while the forbidden ones are also refused by the library as a receiver.",
    real: "stratumv2 constructors, conversions, codec",
    stub: "the application, the reference peer and the byte stream",
    assumptions: &["the rules stated in wire.rs are those of the protocol"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C20", 0);
    for i in 0..r.range(1, 6) {
        if r.chance(1, 5) {
            s.push("convert", &[r.below(6) as i64, r.tag()]);
            continue;
        }
        let k = if i == 0 { wire::ALL[idx as usize % wire::ALL.len()] } else { *r.pick(wire::ALL) };
        s.push("say", &[k as i64, r.tag(), *r.pick(&[0, 1, 1, 1, 2]), r.chance(1, 400) as i64]);
    }
    if s.steps.iter().any(|t| t.arg(3) != 0) {
        return s;
    }
    if r.chance(1, 2) {
        s.push("limit", &[*r.pick(&[1, 2, 3, 64, 255, 1000])]);
    }
    for _ in 0..r.below(6) {
        match r.below(3) {
            0 => s.push("eintr", &[]),
            _ => s.push("short", &[*r.pick(&[1, 2, 3, 9, 100])]),
        }
    }
    s
}

/// Sizes just and far past a limit, and those a truncated length would wrap.
fn too_long(r: &mut Rng, max: usize) -> usize {
    let wrap = if max < 256 { 256 } else if max < 65536 { 65536 } else { 1 << 24 };
    let far = if max > 70_000 { 3 } else { 6 };
    match r.below(far) {
        0 => max + 1,
        1 => wrap + r.below(max.min(300) as u64 + 1) as usize,
        2 => max + 1 + r.below(40) as usize,
        3 => 2 * wrap + r.below(max.min(300) as u64 + 1) as usize,
        4 => max + 1 + r.below(2000) as usize,
        _ => 65536 + r.below(max.min(300) as u64 + 1) as usize,
    }
    .max(max + 1)
}

/// Breaks one rule; false if there is none to break in the field chosen.
fn spoil(k: K, v: &mut [V], r: &mut Rng, big: bool) -> bool {
    let lay = wire::layout(k);
    if lay.is_empty() {
        return false;
    }
    let f = r.below(lay.len() as u64) as usize;
    let base = match k {
        K::SetupMining | K::SetupJob => Some(1),
        K::BareMining | K::BareJob => Some(0),
        _ => None,
    };
    if let Some(o) = base {
        if (f == o || f == o + 1) && r.chance(9, 10) {
            v[f] = V::N(r.below(2));
            return true;
        }
        if (f == o + 5 || f == o + 7) && r.chance(1, 2) {
            v[f] = V::B(vec![]);
            return true;
        }
    }
    if matches!(k, K::MinError | K::JobError) {
        v[0] = V::N(0);
        v[1] = V::B(wire::CODES_SETUP[0].as_bytes().to_vec());
        return true;
    }
    match lay[f] {
        F::Str(m) => {
            let n = too_long(r, m);
            v[f] = V::B(wire::text(r, n));
            true
        }
        F::Bytes(_, m) if m < 70_000 || big => {
            let n = too_long(r, m);
            v[f] = V::B(vec![r.u64() as u8; n]);
            true
        }
        F::U24 => {
            v[f] = V::N(*r.pick(&[1 << 24, (1 << 24) + 1, u32::MAX as u64, 1 << 31, (1 << 24) + 255, 0x0100_ffff]));
            true
        }
        F::Proto(_) => false,
        _ => false,
    }
}

/// May the application say this?
fn allowed(k: K, v: &[V]) -> bool {
    wire::rules(k, v)
        && wire::layout(k).iter().zip(v).all(|(f, v)| match f {
            F::Str(m) => v.b().len() <= *m && std::str::from_utf8(v.b()).is_ok(),
            F::Bytes(_, m) => v.b().len() <= *m,
            F::U24 => v.n() < 1 << 24,
            F::Flags(m) => v.n() & !(*m as u64) == 0,
            _ => true,
        })
}

fn short(v: &[V]) -> String {
    let t: Vec<String> = v
        .iter()
        .map(|x| match x {
            V::N(n) => n.to_string(),
            V::B(b) if b.len() <= 40 => format!("{:?}", String::from_utf8_lossy(b)),
            V::B(b) => format!("<{} bytes>", b.len()),
        })
        .collect();
    t.join(", ")
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let limit = s.steps.iter().find(|t| t.op == "limit").map_or(0, |t| t.arg(0).max(0) as usize);
    for (i, t) in s.steps.iter().enumerate() {
        let mut r = Rng::from(&[s.seed, t.arg(1) as u64, i as u64]);
        match t.op.as_str() {
            "say" => {
                let k = wire::ALL[t.arg(0).rem_euclid(wire::ALL.len() as i64) as usize];
                let big = t.arg(3) != 0;
                let mut v = wire::gen(k, &mut r, big);
                for _ in 0..t.arg(2).clamp(0, 3) {
                    spoil(k, &mut v, &mut r, big);
                }
                let ok = allowed(k, &v);
                if !ok {
                    ctx.fault("forbidden_value");
                }
                let res = glue::build(k, &v);
                ctx.ev(&[k as u64, ok as u64, res.is_ok() as u64]);
                let m = match (res, ok) {
                    (Ok(_), false) => return viol("built what the protocol forbids", format!("{:?}({})", k, short(&v))),
                    (Err(e), true) => return viol("refused what the protocol allows", format!("{:?}({}): {}", k, short(&v), e)),
                    (Err(_), false) => {
                        ctx.probe("refused_at_source");
                        // The same thing said by a careless peer.
                        if wire::decodable(k) && encodable(k, &v) {
                            let b = wire::encode(k, &v);
                            if glue::decode(k, &b).is_ok() {
                                return viol("received what cannot be built", format!("{:?}({})", k, short(&v)));
                            }
                            ctx.probe("refused_at_receiver");
                        }
                        continue;
                    }
                    (Ok(m), true) => m,
                };
                let got = glue::values(&m);
                if got != v {
                    return viol("holds other values", format!("{:?}({}) holds ({})", k, short(&v), short(&got)));
                }
                let mut w = FaultyWriter::new(script(s), limit);
                let res = glue::encode(&m, &mut w);
                w.report(ctx);
                if let Err(e) = res {
                    return viol("cannot send what was built", format!("{:?}({}): {}", k, short(&v), e));
                }
                if wire::decodable(k) {
                    match wire::decode(k, &w.delivered) {
                        Ok((x, n)) if x == v && n == w.delivered.len() => {}
                        _ => return viol("the reference peer does not accept it", format!("{:?}({})", k, short(&v))),
                    }
                    match glue::decode(k, &w.delivered) {
                        Ok(x) if glue::values(&x) == v => {}
                        Ok(x) => return viol("the peer reads other values", format!("{:?}({}) read as ({})", k, short(&v), short(&glue::values(&x)))),
                        Err(e) => return viol("the peer does not accept it", format!("{:?}({}): {}", k, short(&v), e)),
                    }
                }
                ctx.ev_bytes(1, &w.delivered[..w.delivered.len().min(600)]);
                ctx.probe("accepted_by_peers");
            }
            "convert" => convert(t.arg(0), &mut r, ctx)?,
            _ => {}
        }
    }
    Ok(())
}

/// Do the values fit their length prefixes at all?
fn encodable(k: K, v: &[V]) -> bool {
    wire::layout(k).iter().zip(v).all(|(f, v)| match f {
        F::Str(_) => v.b().len() < 256,
        F::Bytes(l, _) => v.b().len() < 1 << (8 * l),
        F::U24 => v.n() < 1 << 24,
        _ => true,
    })
}

fn text_of(r: &mut Rng, codes: &[&str]) -> String {
    let c = r.pick(codes).to_string();
    match r.below(9) {
        0 => c.to_uppercase(),
        1 => c[..c.len() - 1].to_string(),
        2 => format!("{}x", c),
        3 => format!(" {}", c),
        4 => c.replace('-', "_"),
        5 => String::new(),
        6 => format!("{}\u{0}", c),
        _ => c,
    }
}

macro_rules! code {
    ($t:ty, $codes:expr, $r:expr, $ctx:expr) => {{
        let s = text_of($r, $codes);
        let known = $codes.contains(&s.as_str());
        if !known {
            $ctx.fault("unknown_text");
        }
        let ways: [(&str, Result<$t, Error>); 3] = [("parse", <$t>::from_str(&s)), ("text", <$t>::try_from(s.clone())), ("field", STR0_255::new(s.clone()).and_then(<$t>::try_from))];
        for (how, got) in ways {
            match got {
                Ok(c) => {
                    if !known {
                        return viol("converted an unknown text", format!("{:?} by {}", s, how));
                    }
                    let back: [String; 3] = [c.to_string(), String::from(&c), STR0_255::from(&c).into()];
                    if back.iter().any(|b| *b != s) {
                        return viol("conversion changed the value", format!("{:?} became {:?}", s, back));
                    }
                    if STR0_255::from(&c).length as usize != s.len() {
                        return viol("conversion changed the value", format!("{:?} has length {}", s, STR0_255::from(&c).length));
                    }
                }
                Err(_) if known => return viol("refused a known text", format!("{:?} by {}", s, how)),
                Err(_) => {}
            }
        }
    }};
}

macro_rules! sized {
    ($t:ident, $raw:ty, $max:expr, $wrap:expr, $r:expr, $v:expr) => {{
        let v = $v;
        if v.len() <= $max {
            let x = match $t::new(v.clone()) {
                Ok(x) => x,
                Err(e) => return viol("refused what the protocol allows", format!("{} of {} bytes: {}", stringify!($t), v.len(), e)),
            };
            let y = $t::new(v.clone()).ok();
            if !(x == v && v == x && Some(&x) == y.as_ref()) {
                return viol("comparison disagrees", format!("{} of {} bytes", stringify!($t), v.len()));
            }
            let mut w = v.clone();
            // Another value of the same length, and one longer.
            if !w.is_empty() {
                let mut b: Vec<u8> = w.clone().into();
                let at = $r.below(b.len() as u64) as usize;
                b[at] = if b[at] == b'q' { b'z' } else { b'q' };
                w = $wrap(b).unwrap_or_default();
            }
            if w != v && (x == w || w == x) {
                return viol("comparison disagrees", format!("{} of {} bytes equals another", stringify!($t), v.len()));
            }
            for cut in [false, true] {
                let mut b: Vec<u8> = v.clone().into();
                if !cut {
                    b.push(b'q');
                } else if b.last().map_or(true, |l| *l >= 128) {
                    continue;
                } else {
                    b.pop();
                }
                let w = $wrap(b).unwrap_or_default();
                if x == w || w == x || $t::new(w).map_or(false, |y| y == x || x == y) {
                    return viol("comparison disagrees", format!("{} of {} bytes equals a longer or shorter one", stringify!($t), v.len()));
                }
            }
            let back: $raw = x.into();
            if v != back {
                return viol("conversion changed the value", format!("{} of {} bytes", stringify!($t), v.len()));
            }
        } else if $t::new(v.clone()).is_ok() {
            return viol("built what the protocol forbids", format!("{} of {} bytes", stringify!($t), v.len()));
        }
    }};
}

fn convert(kind: i64, r: &mut Rng, ctx: &mut Ctx) -> Outcome {
    ctx.ev(&[77, kind as u64]);
    ctx.probe("conversions");
    match kind {
        0 => {
            code!(SetupConnectionErrorCode, wire::CODES_SETUP, r, ctx);
        }
        1 => {
            code!(OpenMiningChannelErrorCode, wire::CODES_OPEN, r, ctx);
        }
        2 => {
            let n = match r.below(4) {
                0 => *r.pick(&[0u64, 1, 255, 65535, 65536, 0xff_fffe, 0xff_ffff]),
                1 => *r.pick(&[0x100_0000u64, 0x100_0001, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_00ff_ffff, u64::MAX, 1 << 63]),
                2 => r.below(1 << 24),
                _ => r.u64() >> r.below(64),
            };
            if (U24::MIN, U24::MAX, U24::BITS) != (0, 0xff_ffff, 24) {
                return viol("limits of U24", "MIN, MAX or BITS is wrong");
            }
            let fits = n < 1 << 24;
            if !fits {
                ctx.fault("forbidden_value");
            }
            let mut ways = vec![U24::try_from(n as usize)];
            if n <= u32::MAX as u64 {
                ways.push(U24::try_from(n as u32));
                ways.push(U24::new(n as u32));
            }
            for w in ways {
                match w {
                    Ok(x) => {
                        if !fits {
                            return viol("built what the protocol forbids", format!("24-bit {}", n));
                        }
                        let m = n as u32;
                        if !(x == m && m == x) || x == m ^ 1 || (m ^ 0x1_0000) == x {
                            return viol("comparison disagrees", format!("24-bit {}", n));
                        }
                        for o in [m | 1 << 24, m ^ (1 << r.below(32)), m ^ 0xff00_0000, r.u64() as u32] {
                            if (o != m) && (x == o || o == x || U24::new(o).map_or(false, |y| y == x)) {
                                return viol("comparison disagrees", format!("24-bit {} equals {}", n, o));
                            }
                        }
                        if u32::from(x.clone()) != m || usize::from(x) != n as usize {
                            return viol("conversion changed the value", format!("24-bit {}", n));
                        }
                    }
                    Err(e) if fits => return viol("refused what the protocol allows", format!("24-bit {}: {}", n, e)),
                    Err(_) => {}
                }
            }
        }
        3 => {
            let mut b = [0u8; 32];
            b.copy_from_slice(&r.bytes(32));
            let x: U256 = b.into();
            let mut c = b;
            c[r.below(32) as usize] ^= 1 << r.below(8);
            if !(x == b && b == x) || x == c || c == x {
                return viol("comparison disagrees", "256-bit value");
            }
            if <[u8; 32]>::from(x) != b {
                return viol("conversion changed the value", "256-bit value");
            }
        }
        4 => {
            let n = r.below(256) as u8;
            match (Protocol::try_from(n), n < 4) {
                (Ok(p), true) => {
                    let want = [Protocol::Mining, Protocol::JobNegotiation, Protocol::TemplateDistribution, Protocol::JobDistribution][n as usize];
                    if p != want || u8::from(p) != n || u8::from(&p) != n {
                        return viol("conversion changed the value", format!("protocol {}", n));
                    }
                }
                (Ok(_), false) => return viol("converted an unknown protocol", n.to_string()),
                (Err(_), true) => return viol("refused what the protocol allows", format!("protocol {}", n)),
                (Err(_), false) => ctx.fault("unknown_number"),
            }
        }
        _ => {
            let which = r.below(7);
            let long = r.chance(1, 3);
            let pick = |r: &mut Rng, m: usize| if long { too_long(r, m) } else { wire::size(r, m) };
            if long {
                ctx.fault("forbidden_value");
            }
            let st = |b: Vec<u8>| String::from_utf8(b).ok();
            let by = |b: Vec<u8>| Some(b);
            match which {
                0 | 1 => {
                    let m = if which == 0 { 32 } else { 255 };
                    let n = pick(r, m);
                    let v = String::from_utf8(wire::text(r, n)).unwrap_or_default();
                    if which == 0 {
                        sized!(STR0_32, String, 32, st, r, v)
                    } else {
                        sized!(STR0_255, String, 255, st, r, v)
                    }
                }
                _ => {
                    let m = [0, 0, 31, 32, 255, 65535, 3000][which as usize];
                    let n = if which == 6 { wire::size(r, m) } else { pick(r, m) };
                    let v = r.bytes(n);
                    match which {
                        2 => sized!(B0_31, Vec<u8>, 31, by, r, v),
                        3 => sized!(B0_32, Vec<u8>, 32, by, r, v),
                        4 => sized!(B0_255, Vec<u8>, 255, by, r, v),
                        5 => sized!(B0_64K, Vec<u8>, 65535, by, r, v),
                        _ => sized!(B0_16M, Vec<u8>, 16_777_215, by, r, v),
                    }
                }
            }
        }
    }
    Ok(())
}
