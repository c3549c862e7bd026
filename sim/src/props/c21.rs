//! Keys survive being written down and read back.
use crate::crypto::x25519_pub;
use crate::nz;
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::str::FromStr;
use stratumv2::bitcoin::util::base58;
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate};

pub const PROP: Prop = Prop {
    id: "C21",
    gen,
    exec,
    quick: 40_000,
    thorough: 2_000_000,
    rule: "A node writes its static private key, its peer's public key, other keys and the authority's key as text to a disk that tears, truncates, mixes with older content and corrupts what it holds, crashes and restarts from whatever the disk has; an intact file must give the same identity (handshakes with the restored key show the same static key, its old certificate still verifies), a damaged one must be refused or stand for exactly the key it spells, and never make the node crash, verify a certificate of another authority or run with an empty key.",
    real: "nx-noise key parsing and sessions; stratumv2 certificates and authority key parsing",
    stub: "the disk, OS entropy and clock; reference hex and base58 readers",
    assumptions: &["white space around a key's text may or may not be tolerated"],
};

const DAMAGE: &[&str] = &["intact", "intact", "torn", "torn", "cut", "flip", "grow", "upper", "mix", "space", "empty", "utf8", "odd", "odd", "head", "longer", "shorter"];

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C21", 0);
    for _ in 0..r.range(1, 6) {
        s.push(*r.pick(&["static", "static", "public", "other", "authority", "authority"]), &[r.tag(), r.below(DAMAGE.len() as u64) as i64, r.below(200) as i64, r.below(5) as i64]);
    }
    s
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
/// What a text spells: exactly 32 bytes as hexadecimal digits.
fn unhex(t: &str) -> Option<[u8; 32]> {
    let t = t.as_bytes();
    if t.len() != 64 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16);
    let mut o = [0; 32];
    for i in 0..32 {
        o[i] = (d(t[2 * i])? * 16 + d(t[2 * i + 1])?) as u8;
    }
    Some(o)
}
fn un58(t: &str) -> Option<Vec<u8>> {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n: Vec<u8> = vec![];
    for c in t.bytes() {
        let mut carry = A.iter().position(|x| *x == c)? as u32;
        for b in n.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            n.push(carry as u8);
            carry >>= 8;
        }
    }
    n.extend(t.bytes().take_while(|c| *c == b'1').map(|_| 0));
    n.reverse();
    Some(n)
}

/// What the disk holds after a crash while `new` replaced `old`.
fn disk(old: &str, new: &str, how: &str, at: usize, r: &mut Rng, ctx: &mut Ctx) -> String {
    let n = new.len();
    let at = at % (n + 1);
    if how != "intact" {
        ctx.fault("crash");
    }
    match how {
        "torn" => {
            ctx.fault("torn_write");
            // The new head over the old content.
            let mut s = new[..at].to_string();
            s.push_str(old.get(at..).unwrap_or(""));
            s
        }
        "cut" => {
            ctx.fault("lost_tail");
            new[..at].to_string()
        }
        "flip" => {
            ctx.fault("bit_flip");
            let mut b = new.as_bytes().to_vec();
            b[at.min(n - 1)] ^= 1 << r.below(7);
            String::from_utf8_lossy(&b).into_owned()
        }
        "grow" => {
            ctx.fault("old_tail");
            format!("{}{}", new, &old[..1 + at.min(old.len() - 1)])
        }
        "head" => {
            ctx.fault("lost_head");
            new[at..].to_string()
        }
        "upper" => new.to_uppercase(),
        "mix" => {
            ctx.fault("lost_sectors");
            let k = 1 + at % 16;
            new.bytes().zip(old.bytes()).enumerate().map(|(i, (a, b))| (if i / k % 2 == 0 { a } else { b }) as char).collect()
        }
        "space" => {
            ctx.fault("white_space");
            format!("{}{}", new, r.pick(&["\n", " ", "\r\n", "\t"]))
        }
        "longer" => {
            ctx.fault("old_tail");
            format!("{}{}", new, old)
        }
        "empty" => {
            ctx.fault("empty_file");
            String::new()
        }
        "odd" => {
            // Characters a lenient reader skips, trims or gives a meaning of their own.
            ctx.fault("odd_characters");
            let c = *r.pick(&["+", "-", "+0", "0x", "0X", "_", " ", "\t", "\n", "\0", ":", "g", "G", "l", "O", "I", "0", ",", "\u{7f}", "/", "@", "`"]);
            let mut b = new.to_string();
            let at = at.min(n - 1);
            match r.below(3) {
                // Keep the length, at an even place as often as not.
                0 => {
                    let at = at & !1;
                    b.replace_range(at..(at + c.len()).min(n), c);
                }
                1 => b.replace_range(at..(at + c.len()).min(n), c),
                _ => b.insert_str(at, c),
            }
            b
        }
        "utf8" => {
            ctx.fault("foreign_text");
            let c = *r.pick(&["é", "€", "𝔐", "\u{0}", "１"]);
            let keep = 64usize.saturating_sub(c.len());
            format!("{}{}", &new[..keep.min(n)], c)
        }
        _ => new.to_string(),
    }
}

/// Does the library's reading of `text` agree with what it spells?
fn judge(what: &str, text: &str, canonical: bool, spelt: Option<[u8; 32]>, read: Option<Option<[u8; 32]>>) -> Outcome {
    match (read, spelt) {
        (None, Some(_)) if canonical => viol("an intact key was refused", format!("{} {:?}", what, text)),
        (Some(_), None) => viol("a damaged key was taken", format!("{} {:?}", what, text)),
        (Some(Some(a)), Some(b)) if a != b => viol("read as another key", format!("{} {:?} read as {}", what, text, hex(&a))),
        _ => Ok(()),
    }
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    for (i, t) in s.steps.iter().enumerate() {
        let mut r = Rng::from(&[s.seed, t.arg(0) as u64, i as u64]);
        let how = DAMAGE[t.arg(1).rem_euclid(DAMAGE.len() as i64) as usize];
        let at = t.arg(2).max(0) as usize;
        let mut bytes = |r: &mut Rng| {
            let mut b = [0u8; 32];
            match t.arg(3) {
                0 => {}
                1 => b[r.below(32) as usize] = 1 + r.below(255) as u8,
                2 => {
                    r.fill(&mut b);
                    b[0] = 0;
                    b[31] = 0;
                }
                _ => r.fill(&mut b),
            }
            b
        };
        let (key, old) = (bytes(&mut r), nz::secret(&[s.seed, 5, i as u64]));
        match t.op.as_str() {
            "static" => {
                let text = disk(&hex(&old), &hex(&key), how, at, &mut r, ctx);
                let spelt = unhex(text.trim());
                ctx.ev_bytes(1, text.as_bytes());
                let read = PrivateKey::from_str(&text).ok();
                let strict = unhex(&text);
                // The public key tells which private key it is; an empty one has none.
                let empty = spelt == Some([0; 32]);
                let made = read.map(|k| (k.is_empty(), Keypair::from_private_key(k).ok()));
                match &made {
                    None => judge("private key", &text, strict == Some(key) && how == "intact", spelt, None)?,
                    Some((e, kp)) => {
                        if spelt.is_some() && (*e != empty || kp.is_none() != empty) {
                            return viol(if empty { "an empty key was taken" } else { "an intact key was refused" }, format!("private key {:?}", text));
                        }
                        let p = kp.as_ref().map(|k| k.get_public_key().as_bytes());
                        judge("private key", &text, true, spelt.map(|k| x25519_pub(&k)), Some(p))?;
                    }
                }
                if let (Some((_, Some(kp))), Some(k)) = (made, spelt) {
                    ctx.probe("restored");
                    if kp != Keypair::from_key(PrivateKey::from_bytes(k)).expect("a key pair") {
                        return viol("read as another key", format!("private key {:?}", text));
                    }
                    if Key::generate_public_key(&k).as_bytes() != x25519_pub(&k) {
                        return viol("another identity after the restart", format!("public key of {:?}", text));
                    }
                    if r.chance(1, 4) {
                        // The restored pool answers a miner.
                        let want = x25519_pub(&k);
                        let mut a = [1u8; 40];
                        let mut b = [2u8; 112];
                        let mut m = NoiseSession::init_session(true, b"", Keypair::default());
                        let mut p = NoiseSession::init_session(false, b"", kp);
                        let ok = m.send_message(&mut a).and_then(|_| p.recv_message(&mut a)).and_then(|_| p.send_message(&mut b)).and_then(|_| m.recv_message(&mut b));
                        if ok.is_err() || m.get_remote_static_public_key().map(|k| k.as_bytes()) != Some(want) {
                            return viol("another identity after the restart", format!("private key {:?}", text));
                        }
                        ctx.probe("identity_seen_by_peer");
                    }
                } else {
                    ctx.probe("refused");
                }
            }
            "public" => {
                let public = if t.arg(3) == 0 { key } else { x25519_pub(&key) };
                let text = disk(&hex(&x25519_pub(&old)), &hex(&public), how, at, &mut r, ctx);
                ctx.ev_bytes(2, text.as_bytes());
                let read = PublicKey::from_str(&text).ok();
                if let Some(k) = &read {
                    if k.is_empty() != (k.as_bytes() == [0; 32]) {
                        return viol("an empty key was taken", format!("public key {:?}", text));
                    }
                }
                // A key that no honest party can have may be refused.
                let honest = !nz::is_low_order(&public);
                judge("public key", &text, how == "intact" && honest, unhex(text.trim()), read.map(|k| Some(k.as_bytes())))?;
                ctx.probe("public_keys");
            }
            "other" => {
                let text = disk(&hex(&old), &hex(&key), how, at, &mut r, ctx);
                ctx.ev_bytes(3, text.as_bytes());
                let spelt = unhex(text.trim());
                let canonical = how == "intact";
                let k = Key::from_str(&text).ok();
                let p = Psk::from_str(&text).ok();
                judge("key", &text, canonical, spelt, k.as_ref().map(|_| None))?;
                judge("shared key", &text, canonical, spelt, p.as_ref().map(|_| None))?;
                let zero = spelt == Some([0; 32]);
                if k.map_or(false, |k| k.is_empty() != zero) || p.map_or(false, |p| p.is_empty() != zero) {
                    return viol("an empty key was taken", format!("key {:?}", text));
                }
                ctx.probe("other_keys");
            }
            "authority" => {
                let mk = |seed: [u8; 32]| {
                    let sk = ed25519_dalek::SecretKey::from_bytes(&seed).expect("a secret key");
                    let pk = ed25519_dalek::PublicKey::from(&sk);
                    let mut b = [0; 64];
                    b[..32].copy_from_slice(&sk.to_bytes());
                    b[32..].copy_from_slice(&pk.to_bytes());
                    AuthorityKeyPair::from_bytes(&b).expect("a key pair")
                };
                let mut auth = mk(key);
                if at % 16 == 5 {
                    // A key whose text begins with the digit for a zero byte.
                    let mut seed = key;
                    for n in 0..600u16 {
                        if auth.public.to_bytes()[0] == 0 {
                            ctx.probe("authority_with_leading_zero");
                            break;
                        }
                        seed[..2].copy_from_slice(&n.to_le_bytes());
                        auth = mk(seed);
                    }
                }
                let other = mk(old);
                let t58 = |a: &AuthorityKeyPair| base58::encode_slice(&a.public.to_bytes());
                let mut spelt = auth.public.to_bytes().to_vec();
                let text = match how {
                    // Written by a node that keeps more, or less, than the key.
                    "longer" => {
                        ctx.fault("foreign_text");
                        spelt.extend((0..1 + at % 40).map(|_| r.below(256) as u8));
                        base58::encode_slice(&spelt)
                    }
                    "shorter" if at % 3 == 1 => {
                        ctx.fault("foreign_text");
                        format!("{}{}", "1".repeat(at % 50), base58::encode_slice(&spelt[..(at / 50).min(32)]))
                    }
                    "shorter" => {
                        ctx.fault("foreign_text");
                        spelt.truncate(at % 32);
                        base58::encode_slice(&spelt)
                    }
                    _ => disk(&t58(&other), &t58(&auth), how, at, &mut r, ctx),
                };
                ctx.ev_bytes(4, text.as_bytes());
                let stands_for = un58(text.trim());
                let is_true = stands_for.as_deref() == Some(&auth.public.to_bytes()[..]);
                crate::seams::set_clock(1_600_000_000, 0);
                let pool = match nz::keypair(nz::secret(&[s.seed, 6, i as u64])) {
                    Ok(k) => k.get_public_key(),
                    Err(e) => return Err(e),
                };
                let c = match SignedCertificate::new(1, 1_500_000_000, 1_700_000_000, &pool) {
                    Ok(c) => c,
                    Err(e) => return viol("certificate", e.to_string()),
                };
                let m = match SignatureNoiseMessage::from_auth_key(&auth, &c) {
                    Ok(m) => m,
                    Err(e) => return viol("certificate", e.to_string()),
                };
                let read = CertificateFormat::new(&text, &pool, &m);
                if read.is_ok() && stands_for.map(|k| k.len()) != Some(32) {
                    return viol("a damaged key was accepted", format!("authority key {:?}", text));
                }
                let ok = read.and_then(|c| c.verify()).is_ok();
                ctx.ev(&[ok as u64]);
                if ok && !is_true {
                    return viol("a certificate of another authority verified", format!("authority key {:?}", text));
                }
                if !ok && is_true && how == "intact" {
                    return viol("an intact key was refused", format!("authority key {:?}", text));
                }
                ctx.probe(if ok { "authority_restored" } else { "authority_refused" });
            }
            _ => {}
        }
    }
    Ok(())
}
