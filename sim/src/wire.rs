//! Independent reference of the Stratum V2 wire format, written from the protocol
//! description: data-driven layouts, no code shared with the library.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F {
    Bool,
    U8,
    U16,
    U24,
    U32,
    F32,
    U256,
    /// UTF-8 text with a one-byte length; the longest allowed.
    Str(usize),
    /// Bytes with a length prefix of so many bytes; the longest allowed.
    Bytes(usize, usize),
    /// 32-bit flags within a mask.
    Flags(u32),
    /// One of a fixed set of strings, with a one-byte length.
    Code(&'static [&'static str]),
    /// One byte with values below the bound.
    Proto(u8),
    Sig,
    PubKey,
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    N(u64),
    B(Vec<u8>),
}
impl V {
    pub fn n(&self) -> u64 {
        match self {
            V::N(n) => *n,
            V::B(_) => 0,
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            V::N(_) => &[],
            V::B(b) => b,
        }
    }
}

pub const CODES_SETUP: &[&str] = &["unsupported-feature-flags", "unsupported-protocol", "protocol-version-mismatch"];
pub const CODES_OPEN: &[&str] = &["unknown-user", "max-target-out-of-range"];

/// Everything with a wire encoding. The order is part of the replay format.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(usize)]
pub enum K {
    SetupMining,
    SetupJob,
    BareMining,
    BareJob,
    MinSuccess,
    JobSuccess,
    MinError,
    JobError,
    EndpointChanged,
    OpenStd,
    OpenStdOk,
    OpenStdErr,
    OpenExt,
    OpenExtOk,
    OpenExtErr,
    Update,
    // not framed
    SigMsg,
    Cert,
    // fields
    FBool,
    FU8,
    FU16,
    FU32,
    FF32,
    FU24,
    FU256,
    FStr32,
    FStr255,
    FB31,
    FB32,
    FB255,
    FB64K,
    FB16M,
    FProto,
    FMinFlags,
    FJobFlags,
    FMinSFlags,
    FJobSFlags,
    FSetupCode,
    FOpenCode,
    FSig,
    FPub,
}
use F::*;
use K::*;

pub const FRAMED: &[K] = &[
    SetupMining, SetupJob, BareMining, BareJob, MinSuccess, JobSuccess, MinError, JobError, EndpointChanged, OpenStd,
    OpenStdOk, OpenStdErr, OpenExt, OpenExtOk, OpenExtErr, Update,
];
pub const ALL: &[K] = &[
    SetupMining, SetupJob, BareMining, BareJob, MinSuccess, JobSuccess, MinError, JobError, EndpointChanged, OpenStd,
    OpenStdOk, OpenStdErr, OpenExt, OpenExtOk, OpenExtErr, Update, SigMsg, Cert, FBool, FU8, FU16, FU32, FF32, FU24,
    FU256, FStr32, FStr255, FB31, FB32, FB255, FB64K, FB16M, FProto, FMinFlags, FJobFlags, FMinSFlags, FJobSFlags,
    FSetupCode, FOpenCode, FSig, FPub,
];
/// Everything the library can decode.
pub fn decodable(k: K) -> bool {
    k != Cert && k != FPub
}

const SETUP_M: &[F] = &[U16, U16, Flags(7), Str(255), U16, Str(255), Str(255), Str(255), Str(255)];
const SETUP_J: &[F] = &[U16, U16, Flags(1), Str(255), U16, Str(255), Str(255), Str(255), Str(255)];
const PSETUP_M: &[F] = &[Proto(4), U16, U16, Flags(7), Str(255), U16, Str(255), Str(255), Str(255), Str(255)];
const PSETUP_J: &[F] = &[Proto(4), U16, U16, Flags(1), Str(255), U16, Str(255), Str(255), Str(255), Str(255)];

pub fn layout(k: K) -> &'static [F] {
    match k {
        SetupMining => PSETUP_M,
        SetupJob => PSETUP_J,
        BareMining => SETUP_M,
        BareJob => SETUP_J,
        MinSuccess => &[U16, Flags(3)],
        JobSuccess => &[U16, Flags(0)],
        MinError => &[Flags(7), Code(CODES_SETUP)],
        JobError => &[Flags(1), Code(CODES_SETUP)],
        EndpointChanged => &[U32],
        OpenStd => &[U32, Str(255), F32, U256],
        OpenStdOk => &[U32, U32, U256, Bytes(1, 32), U32],
        OpenStdErr => &[U32, Code(CODES_OPEN)],
        OpenExt => &[U32, Str(255), F32, U256, U16],
        OpenExtOk => &[U32, U32, U256, U16, Bytes(1, 32)],
        OpenExtErr => &[U32, Code(CODES_OPEN)],
        Update => &[U32, F32, U256],
        SigMsg => &[U16, U32, U32, Sig],
        Cert => &[U16, U32, U32, PubKey],
        FBool => &[Bool],
        FU8 => &[U8],
        FU16 => &[U16],
        FU32 => &[U32],
        FF32 => &[F32],
        FU24 => &[U24],
        FU256 => &[U256],
        FStr32 => &[Str(32)],
        FStr255 => &[Str(255)],
        FB31 => &[Bytes(1, 31)],
        FB32 => &[Bytes(1, 32)],
        FB255 => &[Bytes(1, 255)],
        FB64K => &[Bytes(2, 65535)],
        FB16M => &[Bytes(3, 16777215)],
        FProto => &[Proto(4)],
        FMinFlags => &[Flags(7)],
        FJobFlags => &[Flags(1)],
        FMinSFlags => &[Flags(3)],
        FJobSFlags => &[Flags(0)],
        FSetupCode => &[Code(CODES_SETUP)],
        FOpenCode => &[Code(CODES_OPEN)],
        FSig => &[Sig],
        FPub => &[PubKey],
    }
}

/// Message type number and channel bit of a framed kind.
pub fn type_of(k: K) -> (u8, bool) {
    match k {
        SetupMining | SetupJob | BareMining | BareJob => (0x00, false),
        MinSuccess | JobSuccess => (0x01, false),
        MinError | JobError => (0x02, false),
        EndpointChanged => (0x03, true),
        OpenStd => (0x10, false),
        OpenStdOk => (0x11, false),
        OpenStdErr => (0x12, false),
        OpenExt => (0x13, false),
        OpenExtOk => (0x14, false),
        OpenExtErr => (0x15, false),
        Update => (0x16, true),
        _ => (0xEE, false),
    }
}
/// The message types of the base protocol and their channel bits.
pub fn known_type(t: u8) -> Option<bool> {
    match t {
        0x00..=0x02 => Some(false),
        0x03 => Some(true),
        0x10..=0x15 => Some(false),
        0x16..=0x21 => Some(true),
        0x22..=0x26 => Some(false),
        _ => None,
    }
}

/// Rules on field values beyond their own encoding.
pub fn rules(k: K, v: &[V]) -> bool {
    match k {
        SetupMining => v[0].n() == 0 && rules(BareMining, &v[1..]),
        SetupJob => v[0].n() == 1 && rules(BareJob, &v[1..]),
        BareMining | BareJob => v[0].n() >= 2 && v[1].n() >= 2 && !v[5].b().is_empty() && !v[7].b().is_empty(),
        MinError | JobError => v[0].n() != 0 || v[1].b() != CODES_SETUP[0].as_bytes(),
        _ => true,
    }
}

pub fn put(f: F, v: &V, out: &mut Vec<u8>) {
    let le = |out: &mut Vec<u8>, n: u64, k: usize| {
        for i in 0..k {
            out.push((n >> (8 * i)) as u8);
        }
    };
    match f {
        Bool | U8 | Proto(_) => le(out, v.n(), 1),
        U16 => le(out, v.n(), 2),
        U24 => le(out, v.n(), 3),
        U32 | F32 | Flags(_) => le(out, v.n(), 4),
        U256 | Sig | PubKey => out.extend_from_slice(v.b()),
        Str(_) | Code(_) => {
            le(out, v.b().len() as u64, 1);
            out.extend_from_slice(v.b());
        }
        Bytes(l, _) => {
            le(out, v.b().len() as u64, l);
            out.extend_from_slice(v.b());
        }
    }
}

pub fn encode(k: K, v: &[V]) -> Vec<u8> {
    let mut out = vec![];
    for (f, v) in layout(k).iter().zip(v) {
        put(*f, v, &mut out);
    }
    out
}

pub fn frame_bytes(t: u8, chan: bool, payload: &[u8]) -> Vec<u8> {
    let mut out = vec![0, if chan { 0x80 } else { 0 }, t];
    let n = payload.len();
    out.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8]);
    out.extend_from_slice(payload);
    out
}
pub fn encode_framed(k: K, v: &[V]) -> Vec<u8> {
    let (t, c) = type_of(k);
    frame_bytes(t, c, &encode(k, v))
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum DErr {
    Short,
    Bad,
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], DErr> {
    if b.len() < n {
        return Err(DErr::Short);
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Ok(x)
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

pub fn get(f: F, b: &mut &[u8]) -> Result<V, DErr> {
    Ok(match f {
        Bool => V::N(le(take(b, 1)?) & 1),
        U8 => V::N(le(take(b, 1)?)),
        Proto(n) => {
            let x = le(take(b, 1)?);
            if x >= n as u64 {
                return Err(DErr::Bad);
            }
            V::N(x)
        }
        U16 => V::N(le(take(b, 2)?)),
        U24 => V::N(le(take(b, 3)?)),
        U32 | F32 => V::N(le(take(b, 4)?)),
        Flags(m) => {
            let x = le(take(b, 4)?);
            if x & !(m as u64) != 0 {
                return Err(DErr::Bad);
            }
            V::N(x)
        }
        U256 | PubKey => V::B(take(b, 32)?.to_vec()),
        Sig => V::B(take(b, 64)?.to_vec()),
        Str(max) => {
            let n = le(take(b, 1)?) as usize;
            let s = take(b, n)?;
            if n > max || std::str::from_utf8(s).is_err() {
                return Err(DErr::Bad);
            }
            V::B(s.to_vec())
        }
        Code(set) => {
            let n = le(take(b, 1)?) as usize;
            let s = take(b, n)?;
            if !set.iter().any(|c| c.as_bytes() == s) {
                return Err(DErr::Bad);
            }
            V::B(s.to_vec())
        }
        Bytes(l, max) => {
            let n = le(take(b, l)?) as usize;
            let s = take(b, n)?;
            if n > max {
                return Err(DErr::Bad);
            }
            V::B(s.to_vec())
        }
    })
}

/// Decodes from the front; returns the values and how many bytes they took.
pub fn decode(k: K, bytes: &[u8]) -> Result<(Vec<V>, usize), DErr> {
    let mut b = bytes;
    let mut v = vec![];
    for f in layout(k) {
        v.push(get(*f, &mut b)?);
    }
    if !rules(k, &v) {
        return Err(DErr::Bad);
    }
    Ok((v, bytes.len() - b.len()))
}

/// (type, payload, bytes used) of the first frame.
pub fn decode_frame(bytes: &[u8]) -> Result<(u8, Vec<u8>, usize), DErr> {
    let mut b = bytes;
    let ext = le(take(&mut b, 2)?);
    let t = le(take(&mut b, 1)?) as u8;
    if ext & 0x7fff != 0 || known_type(t) != Some(ext & 0x8000 != 0) {
        return Err(DErr::Bad);
    }
    let n = le(take(&mut b, 3)?) as usize;
    let p = take(&mut b, n)?;
    Ok((t, p.to_vec(), 6 + n))
}

/// Text of exactly `n` bytes, sometimes with characters of several bytes and with
/// those that text handling likes to change.
pub fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    const PLAIN: &[&str] = &["a", "b", "0", ".", "/"];
    const MULTI: &[&str] = &["a", "Z", "0", "-", " ", "\u{0}", "\u{7f}", "é", "ÿ", "€", "\u{ffff}", "𝔐", "\u{10FFFF}", "\u{80}", "\u{800}"];
    const ODD: &[&str] = &[
        "\u{feff}", "\r\n", "\n", "\r", "\t", "%20", "%00", "\\n", "\\", "\"", "'", "e\u{301}", "Å", "ß", "İ", "ﬁ", "\u{200d}", "\u{202e}", "\u{2028}", "\u{a0}", "\u{85}", "\u{3000}", "\u{ad}", "\u{fffd}",
        "\u{1b}[0m", "&amp;", "+", "=", ":", ";", ",", "{}", "{0}", "A", "x", " ",
    ];
    let set = match r.below(4) {
        0 | 1 => PLAIN,
        2 => MULTI,
        _ => ODD,
    };
    let any = r.chance(1, 12);
    let mut s = vec![];
    while s.len() < n {
        let mut buf = [0; 4];
        let c = if any {
            char::from_u32(r.below(0x110000) as u32).unwrap_or('a').encode_utf8(&mut buf)
        } else {
            *r.pick(set)
        };
        if s.len() + c.len() <= n {
            s.extend_from_slice(c.as_bytes());
        } else if n - s.len() < 2 {
            s.push(b"a \n\0"[r.below(4) as usize]);
        }
    }
    s
}

/// A size between 0 and max, favouring both ends and the places where lengths change
/// their number of bytes.
pub fn size(r: &mut Rng, max: usize) -> usize {
    let mut c: Vec<usize> = vec![0, 1, 2, max, max.saturating_sub(1), max / 2];
    for e in [31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 65534, 65535, 65536, 65537] {
        if e <= max {
            c.push(e);
        }
    }
    match r.below(4) {
        0 | 1 => *r.pick(&c),
        2 => r.below(max.min(40) as u64 + 1) as usize,
        _ => r.below(max.min(70000) as u64 + 1) as usize,
    }
}

fn num(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match r.below(6) {
        0 => 0,
        1 => m,
        2 => 1,
        3 => (1 << r.below(bits as u64)) & m,
        4 => (m << r.below(bits as u64)) & m,
        _ => r.u64() & m,
    }
}

/// A value of the field. `big` allows byte strings past 64 KiB.
pub fn gen_field(f: F, r: &mut Rng, big: bool) -> V {
    match f {
        Bool => V::N(r.below(2)),
        U8 => V::N(num(r, 8)),
        Proto(n) => V::N(r.below(n as u64)),
        U16 => V::N(num(r, 16)),
        U24 => V::N(num(r, 24)),
        U32 => V::N(num(r, 32)),
        F32 => V::N(match r.below(5) {
            0 => *r.pick(&[0u64, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x0000_0001, 0x7f7f_ffff]),
            1 => 0x7f80_0000 | num(r, 23),
            _ => num(r, 32),
        }),
        Flags(m) => V::N(r.u64() & m as u64),
        U256 => {
            let b = match r.below(4) {
                0 => vec![*r.pick(&[0u8, 255, 1]); 32],
                1 => {
                    let mut b = r.bytes(32);
                    let k = r.below(33) as usize;
                    if r.chance(1, 2) {
                        b[k..].fill(0);
                    } else {
                        b[..k].fill(0);
                    }
                    b
                }
                _ => r.bytes(32),
            };
            V::B(b)
        }
        Sig => {
            let mut b = r.bytes(64);
            b[63] &= 0x1f;
            V::B(b)
        }
        PubKey => V::B(r.bytes(32)),
        Str(m) => {
            let n = size(r, m);
            V::B(text(r, n))
        }
        Code(s) => V::B(r.pick(s).as_bytes().to_vec()),
        Bytes(_, m) => {
            let n = size(r, if big { m } else { m.min(3000) });
            let mut b = r.bytes(n);
            match r.below(8) {
                // Runs of one byte, inside, in front, at the end.
                0 => b.fill(*r.pick(&[0, 0xff, b' ', b'\n', 1])),
                1 => {
                    let k = r.below(n as u64 + 1) as usize;
                    b[k..].fill(0);
                }
                2 => {
                    let k = r.below(n as u64 + 1) as usize;
                    b[..k].fill(0);
                }
                _ => {}
            }
            V::B(b)
        }
    }
}

/// Values satisfying every rule of the kind.
pub fn gen(k: K, r: &mut Rng, big: bool) -> Vec<V> {
    let mut v: Vec<V> = layout(k).iter().map(|f| gen_field(*f, r, big)).collect();
    let base = match k {
        SetupMining => Some((1, 0u64)),
        SetupJob => Some((1, 1)),
        BareMining | BareJob => Some((0, 9)),
        _ => None,
    };
    if let Some((o, p)) = base {
        if o == 1 {
            v[0] = V::N(p);
        }
        for i in [o, o + 1] {
            if v[i].n() < 2 {
                v[i] = V::N(2 + v[i].n());
            }
        }
        for i in [o + 5, o + 7] {
            if v[i].b().is_empty() {
                v[i] = V::B(text(r, 1));
            }
        }
    }
    if (k == MinError || k == JobError) && !rules(k, &v) {
        v[0] = V::N(1);
    }
    v
}
