//! Independent reference primitives (RFC 7693 BLAKE2s, RFC 8439 ChaCha20-Poly1305,
//! RFC 7748 X25519 through curve25519-dalek, which the code under test does not use
//! for this) and a reference Noise_NX_25519_ChaChaPoly_BLAKE2s written from the
//! Noise specification, revision 34.

const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2s(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    let mut buf = [0u8; 64];
    let mut fill = 0usize;
    let mut t = 0u64;
    let compress = |h: &mut [u32; 8], b: &[u8; 64], t: u64, last: bool| {
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h[..]);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        for s in SIGMA.iter() {
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    };
    for p in parts {
        let mut p = *p;
        while !p.is_empty() {
            if fill == 64 {
                t += 64;
                compress(&mut h, &buf, t, false);
                fill = 0;
            }
            let n = (64 - fill).min(p.len());
            buf[fill..fill + n].copy_from_slice(&p[..n]);
            fill += n;
            p = &p[n..];
        }
    }
    t += fill as u64;
    for b in buf[fill..].iter_mut() {
        *b = 0;
    }
    compress(&mut h, &buf, t, true);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

pub fn hmac(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 32] {
    let mut ipad = [0x36u8; 64];
    let mut opad = [0x5cu8; 64];
    for i in 0..32 {
        ipad[i] ^= key[i];
        opad[i] ^= key[i];
    }
    let mut v: Vec<&[u8]> = vec![&ipad];
    v.extend_from_slice(parts);
    let inner = blake2s(&v);
    blake2s(&[&opad, &inner])
}

/// HKDF with two outputs, as in the Noise specification.
pub fn hkdf2(ck: &[u8; 32], ikm: &[u8]) -> ([u8; 32], [u8; 32]) {
    let t = hmac(ck, &[ikm]);
    let o1 = hmac(&t, &[&[1]]);
    let o2 = hmac(&t, &[&o1, &[2]]);
    (o1, o2)
}

fn chacha_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let w = |b: &[u8], i: usize| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = w(key, i);
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = w(nonce, i);
    }
    let mut x = s;
    let qr = |x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize| {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    };
    for _ in 0..10 {
        qr(&mut x, 0, 4, 8, 12);
        qr(&mut x, 1, 5, 9, 13);
        qr(&mut x, 2, 6, 10, 14);
        qr(&mut x, 3, 7, 11, 15);
        qr(&mut x, 0, 5, 10, 15);
        qr(&mut x, 1, 6, 11, 12);
        qr(&mut x, 2, 7, 8, 13);
        qr(&mut x, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(64).enumerate() {
        let ks = chacha_block(key, 1 + i as u32, nonce);
        for (a, b) in c.iter_mut().zip(ks.iter()) {
            *a ^= b;
        }
    }
}

/// Poly1305 with 44-bit limbs.
struct Poly {
    r: [u64; 3],
    s: [u64; 2],
    h: [u64; 3],
    buf: [u8; 16],
    fill: usize,
}
const M44: u64 = (1 << 44) - 1;
const M42: u64 = (1 << 42) - 1;
impl Poly {
    fn new(k: &[u8; 32]) -> Poly {
        let t0 = u64::from_le_bytes(k[0..8].try_into().unwrap()) & 0x0ffffffc0fffffff;
        let t1 = u64::from_le_bytes(k[8..16].try_into().unwrap()) & 0x0ffffffc0ffffffc;
        Poly {
            r: [t0 & M44, ((t0 >> 44) | (t1 << 20)) & M44, t1 >> 24],
            s: [
                u64::from_le_bytes(k[16..24].try_into().unwrap()),
                u64::from_le_bytes(k[24..32].try_into().unwrap()),
            ],
            h: [0; 3],
            buf: [0; 16],
            fill: 0,
        }
    }
    fn block(&mut self, b: &[u8; 16], hi: u64) {
        let t0 = u64::from_le_bytes(b[0..8].try_into().unwrap());
        let t1 = u64::from_le_bytes(b[8..16].try_into().unwrap());
        let h0 = (self.h[0] + (t0 & M44)) as u128;
        let h1 = (self.h[1] + (((t0 >> 44) | (t1 << 20)) & M44)) as u128;
        let h2 = (self.h[2] + ((t1 >> 24) | (hi << 40))) as u128;
        let (r0, r1, r2) = (self.r[0] as u128, self.r[1] as u128, self.r[2] as u128);
        let (s1, s2) = (r1 * 20, r2 * 20);
        let d0 = h0 * r0 + h1 * s2 + h2 * s1;
        let d1 = h0 * r1 + h1 * r0 + h2 * s2;
        let d2 = h0 * r2 + h1 * r1 + h2 * r0;
        let mut c = d0 >> 44;
        let a0 = d0 as u64 & M44;
        let d1 = d1 + c;
        c = d1 >> 44;
        let a1 = d1 as u64 & M44;
        let d2 = d2 + c;
        c = d2 >> 42;
        let a2 = d2 as u64 & M42;
        let x = a0 + (c as u64) * 5;
        self.h = [x & M44, a1 + (x >> 44), a2];
    }
    fn update(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            let n = (16 - self.fill).min(d.len());
            self.buf[self.fill..self.fill + n].copy_from_slice(&d[..n]);
            self.fill += n;
            d = &d[n..];
            if self.fill == 16 {
                let b = self.buf;
                self.block(&b, 1);
                self.fill = 0;
            }
        }
    }
    fn pad(&mut self) {
        if self.fill > 0 {
            let z = [0u8; 16];
            let n = 16 - self.fill;
            self.update(&z[..n]);
        }
    }
    fn finish(mut self) -> [u8; 16] {
        if self.fill > 0 {
            let mut b = [0u8; 16];
            b[..self.fill].copy_from_slice(&self.buf[..self.fill]);
            b[self.fill] = 1;
            self.block(&b, 0);
        }
        let (mut h0, mut h1, mut h2) = (self.h[0], self.h[1], self.h[2]);
        for _ in 0..2 {
            let mut c = h1 >> 44;
            h1 &= M44;
            h2 += c;
            c = h2 >> 42;
            h2 &= M42;
            h0 += c * 5;
            c = h0 >> 44;
            h0 &= M44;
            h1 += c;
        }
        let mut g0 = h0 + 5;
        let mut c = g0 >> 44;
        g0 &= M44;
        let mut g1 = h1 + c;
        c = g1 >> 44;
        g1 &= M44;
        let g2 = (h2 + c).wrapping_sub(1 << 42);
        if g2 >> 63 == 0 {
            h0 = g0;
            h1 = g1;
            h2 = g2;
        }
        let v = (h0 as u128) | ((h1 as u128) << 44) | ((h2 as u128) << 88);
        let s = (self.s[0] as u128) | ((self.s[1] as u128) << 64);
        v.wrapping_add(s).to_le_bytes()
    }
}

fn tag(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let b0 = chacha_block(key, 0, nonce);
    let mut p = Poly::new(b0[..32].try_into().unwrap());
    p.update(ad);
    p.pad();
    p.update(ct);
    p.pad();
    p.update(&(ad.len() as u64).to_le_bytes());
    p.update(&(ct.len() as u64).to_le_bytes());
    p.finish()
}

pub fn noise_nonce(n: u64) -> [u8; 12] {
    let mut x = [0u8; 12];
    x[4..].copy_from_slice(&n.to_le_bytes());
    x
}

pub fn seal(key: &[u8; 32], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let nonce = noise_nonce(n);
    let mut out = pt.to_vec();
    chacha_xor(key, &nonce, &mut out);
    let t = tag(key, &nonce, ad, &out);
    out.extend_from_slice(&t);
    out
}

pub fn open(key: &[u8; 32], n: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let nonce = noise_nonce(n);
    let (c, t) = ct.split_at(ct.len() - 16);
    if tag(key, &nonce, ad, c)[..] != *t {
        return None;
    }
    let mut out = c.to_vec();
    chacha_xor(key, &nonce, &mut out);
    Some(out)
}

pub fn rekey(key: &[u8; 32]) -> [u8; 32] {
    seal(key, u64::MAX, &[], &[0u8; 32])[..32].try_into().unwrap()
}

pub fn x25519(sk: &[u8; 32], pk: &[u8; 32]) -> [u8; 32] {
    use curve25519_dalek::{montgomery::MontgomeryPoint, scalar::Scalar};
    let mut k = *sk;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    (MontgomeryPoint(*pk) * Scalar::from_bits(k)).to_bytes()
}

pub fn x25519_pub(sk: &[u8; 32]) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = 9;
    x25519(sk, &b)
}

/// How an impostor that lacks the static private key fakes the `es` step.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Es {
    Honest,
    Zero,
    EeAgain,
    Skip,
    EphemeralAsStatic,
}

#[derive(Clone)]
pub struct RefSym {
    pub h: [u8; 32],
    pub ck: [u8; 32],
    pub k: Option<[u8; 32]>,
    pub n: u64,
    /// Every chaining and handshake key the handshake went through, oldest first.
    pub trail: Vec<[u8; 32]>,
}
impl RefSym {
    pub fn new(prologue: &[u8]) -> RefSym {
        let h = blake2s(&[b"Noise_NX_25519_ChaChaPoly_BLAKE2s"]);
        let mut s = RefSym {
            h,
            ck: h,
            k: None,
            n: 0,
            trail: vec![],
        };
        s.mix_hash(prologue);
        s
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = blake2s(&[&self.h, d]);
    }
    pub fn mix_key(&mut self, ikm: &[u8]) {
        let (a, b) = hkdf2(&self.ck, ikm);
        self.ck = a;
        self.k = Some(b);
        self.n = 0;
        self.trail.push(a);
        self.trail.push(b);
    }
    pub fn enc(&mut self, pt: &[u8]) -> Vec<u8> {
        let out = match self.k {
            Some(k) => {
                let c = seal(&k, self.n, &self.h, pt);
                self.n += 1;
                c
            }
            None => pt.to_vec(),
        };
        self.mix_hash(&out);
        out
    }
    pub fn dec(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        let pt = match self.k {
            Some(k) => {
                let p = open(&k, self.n, &self.h, ct)?;
                self.n += 1;
                p
            }
            None => ct.to_vec(),
        };
        self.mix_hash(ct);
        Some(pt)
    }
}

#[derive(Clone)]
pub struct RefDir {
    pub key: [u8; 32],
    pub n: u64,
}
impl RefDir {
    pub fn seal(&mut self, pt: &[u8]) -> Vec<u8> {
        let c = seal(&self.key, self.n, &[], pt);
        self.n += 1;
        c
    }
    pub fn open(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        let p = open(&self.key, self.n, &[], ct)?;
        self.n += 1;
        Some(p)
    }
    pub fn rekey(&mut self) {
        self.key = rekey(&self.key);
    }
}

/// Outcome of a reference handshake: hash, initiator-to-responder, responder-to-initiator.
#[derive(Clone)]
pub struct RefKeys {
    pub hash: [u8; 32],
    pub ir: RefDir,
    pub ri: RefDir,
}

fn split(s: &RefSym) -> RefKeys {
    let (a, b) = hkdf2(&s.ck, &[]);
    RefKeys {
        hash: s.h,
        ir: RefDir { key: a, n: 0 },
        ri: RefDir { key: b, n: 0 },
    }
}

#[derive(Clone)]
pub struct RefInitiator {
    pub sym: RefSym,
    pub e: [u8; 32],
    pub rs: [u8; 32],
}
impl RefInitiator {
    pub fn new(prologue: &[u8], e: [u8; 32]) -> RefInitiator {
        RefInitiator {
            sym: RefSym::new(prologue),
            e,
            rs: [0; 32],
        }
    }
    pub fn write_a(&mut self, payload: &[u8]) -> Vec<u8> {
        let mut m = x25519_pub(&self.e).to_vec();
        self.sym.mix_hash(&m);
        m.extend_from_slice(&self.sym.enc(payload));
        m
    }
    pub fn read_b(&mut self, m: &[u8]) -> Option<(Vec<u8>, RefKeys)> {
        if m.len() < 96 {
            return None;
        }
        let re: [u8; 32] = m[..32].try_into().unwrap();
        self.sym.mix_hash(&re);
        self.sym.mix_key(&x25519(&self.e, &re));
        let rs = self.sym.dec(&m[32..80])?;
        self.rs = rs[..32].try_into().unwrap();
        self.sym.mix_key(&x25519(&self.e, &self.rs));
        let p = self.sym.dec(&m[80..])?;
        Some((p, split(&self.sym)))
    }
}

#[derive(Clone)]
pub struct RefResponder {
    pub sym: RefSym,
    pub e: [u8; 32],
    pub s: [u8; 32],
    pub re: [u8; 32],
}
impl RefResponder {
    pub fn new(prologue: &[u8], s: [u8; 32], e: [u8; 32]) -> RefResponder {
        RefResponder {
            sym: RefSym::new(prologue),
            e,
            s,
            re: [0; 32],
        }
    }
    pub fn read_a(&mut self, m: &[u8]) -> Option<Vec<u8>> {
        if m.len() < 32 {
            return None;
        }
        self.re = m[..32].try_into().unwrap();
        self.sym.mix_hash(&m[..32]);
        self.sym.dec(&m[32..])
    }
    /// `claim`: the static public key put in the message (normally our own).
    /// `epub`: the ephemeral public key put in the message (normally our own).
    pub fn write_b_as(&mut self, payload: &[u8], claim: &[u8; 32], epub: &[u8; 32], es: Es) -> (Vec<u8>, RefKeys) {
        let mut m = epub.to_vec();
        self.sym.mix_hash(epub);
        let ee = if *epub == x25519_pub(&self.e) {
            x25519(&self.e, &self.re)
        } else {
            [0; 32]
        };
        self.sym.mix_key(&ee);
        m.extend_from_slice(&self.sym.enc(claim));
        match es {
            Es::Honest => {
                let d = x25519(&self.s, &self.re);
                self.sym.mix_key(&d)
            }
            Es::Zero => self.sym.mix_key(&[0; 32]),
            Es::EeAgain => self.sym.mix_key(&ee),
            Es::Skip => {}
            Es::EphemeralAsStatic => {
                let d = x25519(&self.e, &self.re);
                let d2 = blake2s(&[&d, claim]);
                self.sym.mix_key(&d2)
            }
        }
        m.extend_from_slice(&self.sym.enc(payload));
        (m, split(&self.sym))
    }
    /// A peer that holds the private key it shows, but departs from the protocol in one point.
    pub fn write_b_wrong(&mut self, payload: &[u8], how: u64) -> Vec<u8> {
        let epub = x25519_pub(&self.e);
        let spub = x25519_pub(&self.s);
        let mut m = epub.to_vec();
        if how != 3 {
            self.sym.mix_hash(&epub);
        }
        let ee = x25519(&self.e, &self.re);
        self.sym.mix_key(&ee);
        let keep = (self.sym.h, self.sym.k.unwrap());
        match how {
            // In the clear, with a tag that cannot be right.
            0 | 1 => {
                let mut f = spub.to_vec();
                f.extend_from_slice(&[0x11; 16]);
                if how == 1 {
                    self.sym.mix_hash(&f);
                }
                m.extend_from_slice(&f);
            }
            2 => {
                let f = self.sym.enc(&spub);
                self.sym.h = keep.0;
                m.extend_from_slice(&f);
            }
            5 => {
                let f = seal(&keep.1, 0, &[], &spub);
                self.sym.mix_hash(&f);
                m.extend_from_slice(&f);
            }
            6 => {
                let f = seal(&keep.1, 1, &keep.0, &spub);
                self.sym.mix_hash(&f);
                m.extend_from_slice(&f);
            }
            _ => {
                let f = self.sym.enc(&spub);
                m.extend_from_slice(&f);
            }
        }
        let se = x25519(&self.s, &self.re);
        self.sym.mix_key(&se);
        match how {
            4 => {
                m.extend_from_slice(payload);
                m.extend_from_slice(&[0x22; 16]);
            }
            7 => m.extend_from_slice(&seal(&self.sym.k.unwrap(), 1, &self.sym.h, payload)),
            8 => m.extend_from_slice(&seal(&keep.1, 1, &self.sym.h, payload)),
            9 => m.extend_from_slice(&seal(&self.sym.k.unwrap(), 0, &[], payload)),
            _ => {
                let c = self.sym.enc(payload);
                m.extend_from_slice(&c)
            }
        }
        m
    }
    pub fn write_b(&mut self, payload: &[u8]) -> (Vec<u8>, RefKeys) {
        let claim = x25519_pub(&self.s);
        let epub = x25519_pub(&self.e);
        self.write_b_as(payload, &claim, &epub, Es::Honest)
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Published vectors; run at the start of every check.
pub fn selftest() -> Result<(), String> {
    let ck = |n: &str, a: &[u8], b: &str| {
        if hex(a) == b {
            Ok(())
        } else {
            Err(format!("reference self-test {}: {} != {}", n, hex(a), b))
        }
    };
    ck("blake2s(abc)", &blake2s(&[b"abc"]), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982")?;
    ck("blake2s()", &blake2s(&[]), "69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9")?;
    let k: [u8; 32] = unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4").try_into().unwrap();
    let u: [u8; 32] = unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c").try_into().unwrap();
    ck("x25519", &x25519(&k, &u), "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")?;
    // RFC 8439 2.8.2, whose nonce is not a Noise nonce.
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let ad = unhex("50515253c0c1c2c3c4c5c6c7");
    let mut pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.".to_vec();
    chacha_xor(&key, &nonce, &mut pt);
    ck("chacha20", &pt[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    ck("poly1305", &tag(&key, &nonce, &ad, &pt), "1ae10b594f09e26a7e902ecbd0600691")?;
    // The two reference roles agree with each other.
    let mut i = RefInitiator::new(b"p", [7; 32]);
    let mut r = RefResponder::new(b"p", [9; 32], [11; 32]);
    let a = i.write_a(b"hello");
    r.read_a(&a).ok_or("ref a")?;
    let (b, rk) = r.write_b(b"world");
    let (p, ik) = i.read_b(&b).ok_or("ref b")?;
    if p != b"world" || ik.hash != rk.hash || ik.ir.key != rk.ir.key || i.rs != x25519_pub(&[9; 32]) {
        return Err("reference noise self-test".into());
    }
    Ok(())
}
