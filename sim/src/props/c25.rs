//! A key is a value: it stays what it was made from, whatever happens to other keys.
use crate::crypto::{self, hex};
use crate::nz::secret;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Violation};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, PublicKey};
use stratumv2::network::{ConnectionEncryptor, Encryptor, NoiseConfig};
use stratumv2::noise::{SignatureNoiseMessage, StaticKeyPair};

pub const PROP: Prop = Prop {
    id: "C25",
    gen,
    exec,
    quick: 30_000,
    thorough: 1_500_000,
    rule: "A node makes key pairs, private and public keys from bytes, text, entropy and each other, copies them into configurations, sessions and connections, compares, uses, wipes and drops them in any order; a table of the bytes each was made from and a reference X25519 say what public key it has, whether it is empty, which keys it equals and what its peers see in handshakes at every moment, with neighbours differing in one bit among them.",
    real: "stratumv2 connections and configurations, nx-noise keys, sessions and primitives",
    stub: "OS entropy (short and interrupted reads), the peer's network",
    assumptions: &["two random 256-bit values differ"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C25", 0);
    let n = if idx % 60 == 0 { 200 } else { r.range(3, 30) };
    for _ in 0..n {
        let a = r.below(64) as i64;
        match r.below(14) {
            0..=2 => s.push("make", &[r.below(8) as i64, r.tag()]),
            3 => s.push("fresh", &[]),
            4 | 5 => s.push("copy", &[a]),
            // The same key with one bit altered.
            6 => s.push("near", &[a, r.below(256) as i64, r.below(8) as i64]),
            7 => s.push("wipe", &[a]),
            8 => s.push("drop", &[a]),
            9 => s.push("through", &[a, r.below(3) as i64]),
            10 => s.push("static", &[a, r.below(2) as i64]),
            11 => s.push("ephemeral", &[a, r.below(64) as i64]),
            12 => s.push("again", &[a, r.below(8) as i64]),
            _ => s.push("text", &[a]),
        }
    }
    s
}

struct Slot {
    k: Keypair,
    /// What it was made from; None: not known (fresh from entropy), zeroes: wiped or empty.
    sk: Option<[u8; 32]>,
    pk: [u8; 32],
}

fn make(how: i64, b: [u8; 32], ctx: &mut Ctx) -> Result<Option<Keypair>, Violation> {
    let empty = b == [0; 32];
    let sk = match how {
        2 | 3 => match hex(&b).parse::<PrivateKey>() {
            Ok(k) => k,
            Err(e) => return viol("a private key's text is refused", e.to_string()),
        },
        _ => PrivateKey::from_bytes(b),
    };
    if sk.is_empty() != empty {
        return viol("a private key is misjudged empty", hex(&b));
    }
    let want = crypto::x25519_pub(&b);
    match sk.generate_public_key() {
        Ok(p) if p.as_bytes() != want => return viol("wrong public key", format!("of {}", hex(&b))),
        Ok(_) if empty => return viol("the empty key has a public key", String::new()),
        Err(e) if !empty => return viol("no public key", e.to_string()),
        _ => {}
    }
    if !empty && Key::generate_public_key(&b).as_bytes() != want {
        return viol("wrong public key", format!("of the shared form of {}", hex(&b)));
    }
    let r = if how % 2 == 0 { Keypair::from_private_key(sk) } else { Keypair::from_key(sk) };
    ctx.ev(&[1, how as u64, r.is_ok() as u64]);
    match r {
        Ok(_) if empty => viol("an empty key pair was made", String::new()),
        Ok(k) => Ok(Some(k)),
        Err(e) if !empty => viol("a key pair is refused", e.to_string()),
        Err(_) => {
            ctx.probe("empty_refused");
            Ok(None)
        }
    }
}

fn pattern(how: i64, tag: i64, seed: u64) -> [u8; 32] {
    let mut b = secret(&[seed, tag as u64]);
    match how {
        1 => b = [(tag & 255) as u8; 32],
        3 => b[..16].fill(0),
        4 => b[16..].fill(0),
        5 => {
            b = [0; 32];
            b[(tag & 31) as usize] = 1 << (tag >> 5 & 7);
        }
        // Contents that cancel out when folded: by addition or exclusive or, of words of 1 to 16 bytes.
        6 | 7 => {
            let w = 1usize << (tag & 7) % 5;
            b = [0; 32];
            let (i, j) = ((tag >> 3) as usize % (32 / w), (tag >> 8) as usize % (32 / w));
            let x = secret(&[seed, tag as u64]);
            b[i * w..][..w].copy_from_slice(&x[..w]);
            if tag >> 13 & 1 == 1 {
                b[i * w..][..w].fill(0);
                b[i * w + w - 1] = 0x80;
            }
            let mut carry = 1u16;
            for k in 0..w {
                let v = if how == 6 { (!b[i * w + k]) as u16 + carry } else { b[i * w + k] as u16 };
                carry = v >> 8;
                if i != j {
                    b[j * w + k] = v as u8;
                }
            }
        }
        _ => {}
    }
    b
}

fn look(v: &[Slot]) -> Outcome {
    for (i, a) in v.iter().enumerate() {
        if a.k.get_public_key().as_bytes() != a.pk {
            return viol("a key's public key changed", format!("key {}", i));
        }
        let wiped = a.sk == Some([0; 32]);
        if a.k.is_empty() != wiped {
            return viol("a key is misjudged empty", format!("key {} wiped: {}", i, wiped));
        }
        if a.k.get_public_key().is_empty() != (a.pk == [0; 32]) {
            return viol("a public key is misjudged empty", format!("key {}", i));
        }
    }
    // Each key against the newest and against one more.
    let n = v.len();
    for i in 0..n {
        for j in [n - 1, (i * 7 + n) % n] {
            let (a, b) = (&v[i], &v[j]);
            let same = match (a.sk, b.sk) {
                (Some(x), Some(y)) => x == y && a.pk == b.pk,
                // Fresh keys are equal to their copies only.
                (None, None) => a.pk == b.pk,
                _ => false,
            };
            if (a.k == b.k) != same || (b.k == a.k) != same {
                return viol("keys miscompared", format!("keys {} and {}: equal {} should be {}", i, j, a.k == b.k, same));
            }
            if (a.k.get_public_key() == b.k.get_public_key()) != (a.pk == b.pk) {
                return viol("public keys miscompared", format!("keys {} and {}", i, j));
            }
        }
    }
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut v: Vec<Slot> = vec![];
    let sig: SignatureNoiseMessage = match stratumv2::codec::deserialize(&[1; 10 + 64]) {
        Ok(m) => m,
        Err(e) => return viol("certificate message", e.to_string()),
    };
    let known = |b: [u8; 32], k: Keypair| Slot { k, sk: Some(b), pk: crypto::x25519_pub(&b) };
    for t in &s.steps {
        if v.len() > 40 {
            v.remove(0);
        }
        let i = if v.is_empty() { 0 } else { t.arg(0).unsigned_abs() as usize % v.len() };
        let have = !v.is_empty();
        match t.op.as_str() {
            "make" => {
                let b = pattern(t.arg(0), t.arg(1), s.seed);
                if let Some(k) = make(t.arg(0), b, ctx)? {
                    v.push(known(b, k));
                }
            }
            "fresh" => {
                let k = Keypair::default();
                let pk = k.get_public_key().as_bytes();
                if v.iter().any(|x| x.pk == pk) {
                    return viol("a fresh key is not fresh", hex(&pk));
                }
                ctx.probe("fresh");
                v.push(Slot { k, sk: None, pk });
            }
            "copy" if have => {
                let c = Slot { k: v[i].k.clone(), sk: v[i].sk, pk: v[i].pk };
                v.push(c);
                ctx.probe("copied");
            }
            "again" if have => {
                // The same key made another way.
                if let Some(b) = v[i].sk {
                    if let Some(k) = make(t.arg(1), b, ctx)? {
                        v.push(known(b, k));
                    }
                }
            }
            "near" if have => {
                if let Some(mut b) = v[i].sk {
                    let bit = t.arg(1).unsigned_abs() as usize % 256;
                    b[bit / 8] ^= 1 << (bit % 8);
                    if let Some(k) = make(t.arg(2), b, ctx)? {
                        v.push(known(b, k));
                        ctx.fault("one_bit_neighbour");
                    }
                }
            }
            "wipe" if have => {
                v[i].k.clear();
                v[i].sk = Some([0; 32]);
                v[i].pk = [0; 32];
                ctx.fault("wiped");
            }
            "drop" if have => {
                v.swap_remove(i);
                ctx.fault("dropped");
            }
            "through" if have => {
                // Into a configuration and out again, by way of copies of the configuration.
                let c = NoiseConfig::new(sig.clone(), v[i].k.clone());
                let d = c.clone();
                match t.arg(1) {
                    0 => drop(c),
                    1 => {
                        let mut c = c;
                        c.static_key.clear();
                    }
                    _ => {
                        let _ = ConnectionEncryptor::new_inbound(Some(c.static_key));
                    }
                }
                if d.sig_noise_msg != sig {
                    return viol("a configuration's certificate changed", String::new());
                }
                let k = Slot { k: d.static_key, sk: v[i].sk, pk: v[i].pk };
                v.push(k);
                ctx.probe("through_a_configuration");
            }
            "static" if have && v[i].sk != Some([0; 32]) => {
                // The peer must see exactly this key.
                let k: StaticKeyPair = v[i].k.clone();
                let seen = if t.arg(1) == 0 {
                    let mut o = ConnectionEncryptor::new_outbound();
                    let mut n = ConnectionEncryptor::new_inbound(Some(k));
                    let r = o.init_handshake().and_then(|mut a| n.recv_handshake(&mut a)).and_then(|mut b| o.recv_handshake(&mut b));
                    if let Err(e) = r {
                        return viol("a handshake with the key fails", e.to_string());
                    }
                    o.get_remote_pubkey()
                } else {
                    let mut o = NoiseSession::init_session(true, b"", Keypair::default());
                    let mut n = NoiseSession::init_session(false, b"", k);
                    let (mut a, mut b) = ([0; 48], [0; 96]);
                    let r = o.send_message(&mut a).and_then(|_| n.recv_message(&mut a)).and_then(|_| n.send_message(&mut b)).and_then(|_| o.recv_message(&mut b));
                    if let Err(e) = r {
                        return viol("a handshake with the key fails", e.to_string());
                    }
                    o.get_remote_static_public_key()
                };
                if seen.map(|k| k.as_bytes()) != Some(v[i].pk) {
                    return viol("the peer sees another key", format!("key {}", i));
                }
                ctx.probe("used_as_static");
            }
            "ephemeral" if have && v[i].sk != Some([0; 32]) => {
                let e = v[i].k.clone();
                let mut o = NoiseSession::init_session(true, b"", Keypair::default());
                o.set_ephemeral_keypair(e);
                let mut a = vec![0; 32 + t.arg(1).clamp(0, 64) as usize];
                if let Err(e) = o.send_message(&mut a) {
                    return viol("a handshake with the key fails", e.to_string());
                }
                if a[..32] != v[i].pk {
                    return viol("the peer sees another key", format!("key {} as ephemeral", i));
                }
                ctx.probe("used_as_ephemeral");
            }
            "text" if have => {
                let p = v[i].pk;
                match hex(&p).parse::<PublicKey>() {
                    Ok(k) if k == v[i].k.get_public_key() && k.as_bytes() == p => {}
                    Ok(_) => return viol("a public key's text is another key", hex(&p)),
                    // Whether keys nobody can have may be read is left open.
                    Err(_) if p == [0; 32] => {}
                    Err(e) => return viol("a public key's text is refused", e.to_string()),
                }
                ctx.probe("read_back");
            }
            _ => {}
        }
        ctx.ev(&[t.op.len() as u64, t.arg(0) as u64, v.len() as u64]);
        if !v.is_empty() {
            look(&v)?;
        }
    }
    Ok(())
}
