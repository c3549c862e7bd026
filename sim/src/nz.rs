//! Helpers around the library's Noise sessions.
use crate::crypto::{hex, RefKeys, RefInitiator, RefResponder};
use crate::rng::Rng;
use crate::scenario::{viol, Violation};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};

pub const MAXM: usize = 65535;
pub const A_MIN: usize = 32;
pub const B_MIN: usize = 96;

pub fn secret(parts: &[u64]) -> [u8; 32] {
    let mut b = [0; 32];
    Rng::from(parts).fill(&mut b);
    b
}

pub fn keypair(sk: [u8; 32]) -> Result<Keypair, Violation> {
    Keypair::from_private_key(PrivateKey::from_bytes(sk)).map_err(|e| Violation { class: "keypair".into(), detail: format!("private key refused: {}", e) })
}

/// A message size, favouring limits, cipher block and buffer boundaries.
pub fn msg_size(r: &mut Rng, min: usize, allow_big: bool) -> usize {
    const B: &[usize] = &[
        16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048,
        2049, 2063, 2064, 2065, 2111, 2112, 2127, 2128, 2129, 2143, 2144, 2145, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65519, 65520, 65534, 65535,
    ];
    let max = if allow_big { MAXM } else { 2300 };
    loop {
        let n = match r.below(3) {
            0 => *r.pick(B),
            1 => min + r.below(80) as usize,
            _ => min + r.below((max - min) as u64 + 1) as usize,
        };
        if n >= min && n <= max {
            return n;
        }
    }
}

/// Sizes no message may have.
pub fn bad_size(r: &mut Rng, min: usize) -> usize {
    if r.chance(1, 4) {
        *r.pick(&[65536, 65537, 65551, 65552, 65567, 65568, 65631, 65632, 70000, 131072])
    } else {
        r.below(min as u64) as usize
    }
}

pub struct Pair {
    pub i: NoiseSession,
    pub r: NoiseSession,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub rs_pub: [u8; 32],
}

pub fn fail<T>(class: &str, e: impl std::fmt::Display) -> Result<T, Violation> {
    viol(class, e.to_string())
}

/// A completed handshake between two library sessions. Ephemerals from OS entropy.
pub fn handshake(prologue: &[u8], is: [u8; 32], rs: [u8; 32], alen: usize, blen: usize, r: &mut Rng) -> Result<Pair, Violation> {
    let mut i = NoiseSession::init_session(true, prologue, keypair(is)?);
    let mut s = NoiseSession::init_session(false, prologue, keypair(rs)?);
    let rs_pub = keypair(rs)?.get_public_key().as_bytes();
    let mut a = r.bytes(alen);
    if let Err(e) = i.send_message(&mut a) {
        return viol("handshake setup", format!("message A of {} bytes: {}", alen, e));
    }
    let sent_a = a.clone();
    if let Err(e) = s.recv_message(&mut a) {
        return viol("handshake setup", format!("receiving A of {} bytes: {}", alen, e));
    }
    let mut b = r.bytes(blen);
    if let Err(e) = s.send_message(&mut b) {
        return viol("handshake setup", format!("message B of {} bytes: {}", blen, e));
    }
    let sent_b = b.clone();
    if let Err(e) = i.recv_message(&mut b) {
        return viol("handshake setup", format!("receiving B of {} bytes: {}", blen, e));
    }
    Ok(Pair { i, r: s, a: sent_a, b: sent_b, rs_pub })
}

/// As `handshake` with fixed ephemerals, together with the keys the reference derives.
pub fn known_handshake(prologue: &[u8], rs: [u8; 32], ie: [u8; 32], re: [u8; 32]) -> Result<(Pair, RefKeys, Vec<[u8; 32]>), Violation> {
    let mut i = NoiseSession::init_session(true, prologue, keypair(secret(&[ie[0] as u64, 77]))?);
    let mut s = NoiseSession::init_session(false, prologue, keypair(rs)?);
    i.set_ephemeral_keypair(keypair(ie)?);
    s.set_ephemeral_keypair(keypair(re)?);
    let mut a = vec![0u8; 40];
    let mut b = vec![0u8; 112];
    let step = |r: Result<(), noiseexplorer_nx::error::NoiseError>, w: &str| r.map_err(|e| Violation { class: "handshake setup".into(), detail: format!("{}: {}", w, e) });
    step(i.send_message(&mut a), "send A")?;
    let sent_a = a.clone();
    step(s.recv_message(&mut a), "recv A")?;
    step(s.send_message(&mut b), "send B")?;
    let sent_b = b.clone();
    step(i.recv_message(&mut b), "recv B")?;
    let mut ri = RefInitiator::new(prologue, ie);
    let ra = ri.write_a(&sent_a[32..]);
    if ra != sent_a {
        return viol("handshake setup", format!("message A differs from the reference: {}", hex(&sent_a)));
    }
    let mut rr = RefResponder::new(prologue, rs, re);
    rr.read_a(&ra);
    let (rb, keys) = rr.write_b(&vec![0u8; 16]);
    if rb != sent_b {
        return viol("handshake setup", format!("message B differs from the reference: {}", hex(&sent_b)));
    }
    let mut trail = rr.sym.trail.clone();
    trail.push(rr.sym.ck);
    let rs_pub = crate::crypto::x25519_pub(&rs);
    Ok((Pair { i, r: s, a: sent_a, b: sent_b, rs_pub }, keys, trail))
}

/// Sends `pt` from one session to the other and checks it arrives intact.
pub fn pass(from: &mut NoiseSession, to: &mut NoiseSession, pt: &[u8], what: &str) -> Result<(), Violation> {
    let mut m = pt.to_vec();
    m.extend_from_slice(&[0; 16]);
    if let Err(e) = from.send_message(&mut m) {
        return viol("genuine message not sent", format!("{}: {}", what, e));
    }
    if let Err(e) = to.recv_message(&mut m) {
        return viol("genuine message refused", format!("{}: {}", what, e));
    }
    if &m[..pt.len()] != pt {
        return viol("content changed", format!("{}: {} bytes", what, pt.len()));
    }
    Ok(())
}

pub fn is_low_order(k: &[u8; 32]) -> bool {
    crate::crypto::x25519(&[8; 32], k) == [0; 32]
}

/// How often something is done over and over: mostly hundreds, sometimes past 16 bits.
pub fn long(r: &mut Rng, least: i64) -> i64 {
    match r.below(48) {
        0 => r.range(66_000, 70_000),
        1..=4 => r.range(2_000, 12_000),
        _ => r.range(least, 1_500),
    }
}
