//! Degenerate peer keys are refused in a handshake.
use crate::crypto::{self, hex, Es, RefResponder, RefSym};
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

pub const PROP: Prop = Prop {
    id: "C13",
    gen,
    exec,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "A hostile peer speaks the handshake correctly except that its ephemeral or static key is one of the low-order points in one of its encodings, after any number of earlier refused attempts; whether a key is degenerate is decided by the reference X25519 (shared secret all zero), and keys one bit away from a degenerate one, random ones and non-canonical ones must work.",
    real: "nx-noise sessions and primitives; stratumv2 ConnectionEncryptor",
    stub: "the hostile peer (reference Noise implementation) and the network",
    assumptions: &["five further values on the widely published list of values to refuse may be refused although they are not degenerate once the top bit is ignored"],
};

/// Canonical and non-canonical encodings of every low-order point; top bit clear.
fn low(i: usize) -> [u8; 32] {
    let mut k = [0u8; 32];
    let hexes = [
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0100000000000000000000000000000000000000000000000000000000000000",
        "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
        "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ];
    k.copy_from_slice(&crypto::unhex(hexes[i % 7]));
    k
}

/// Values libraries commonly refuse besides the degenerate ones.
fn listed(k: &[u8; 32]) -> bool {
    const L: [&str; 5] = [
        "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
        "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7",
        "d9ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "daffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "dbffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    ];
    let mut t = *k;
    t[31] |= 0x80;
    let h = hex(&t);
    L.contains(&h.as_str())
}

fn key(sel: i64, arg: i64, top: i64, seed: u64) -> [u8; 32] {
    let a = arg.unsigned_abs();
    let mut k = match sel {
        0 => low(a as usize),
        1 => {
            let mut k = low(a as usize);
            let bit = (a / 7) % 255;
            k[(bit / 8) as usize] ^= 1 << (bit % 8);
            k
        }
        2 => {
            // p + n: non-canonical encodings of small numbers.
            let mut k = low(5);
            k[0] = k[0].wrapping_add((a % 19) as u8);
            if k[0] < 0xed {
                k[0] = 0xed;
            }
            k
        }
        3 => {
            let mut k = [0u8; 32];
            k[0] = (a % 256) as u8;
            k
        }
        4 => crypto::x25519_pub(&secret(&[seed, 900 + a])),
        _ => secret(&[seed, 700 + a]),
    };
    k[31] = (k[31] & 0x7f) | (((top & 1) as u8) << 7);
    k
}

fn gen(r: &mut Rng, _idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C13", 0);
    for _ in 0..r.range(1, 5) {
        let mut ksel = || -> [i64; 3] {
            let sel = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5]);
            [sel, r.tag(), r.below(2) as i64]
        };
        let (a, b) = (ksel(), ksel());
        let api = r.chance(1, 3) as i64;
        let pre = if r.chance(1, 4) { r.range(1, 3) } else { 0 };
        if r.chance(1, 2) {
            s.push("to_responder", &[api, a[0], a[1], a[2], nz::msg_size(r, 32, false) as i64, pre]);
        } else {
            s.push("to_initiator", &[api, r.below(3) as i64, a[0], a[1], a[2], nz::msg_size(r, 96, false) as i64, b[0], b[1], b[2]]);
        }
    }
    s
}

fn bad(k: &[u8; 32]) -> bool {
    nz::is_low_order(k)
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut rng = Rng::from(&[s.seed, 1]);
    for (n, st) in s.steps.iter().enumerate() {
        let sd = s.seed ^ n as u64;
        match st.op.as_str() {
            "to_responder" => {
                let k = key(st.arg(1), st.arg(2), st.arg(3), sd);
                let len = st.arg(4).clamp(32, 4000) as usize;
                let mut m = rng.bytes(len);
                m[..32].copy_from_slice(&k);
                let pre = st.arg(5).clamp(0, 5);
                let done = if st.arg(0) == 1 {
                    let mut e = ConnectionEncryptor::new_inbound(Some(keypair(secret(&[sd, 2]))?));
                    for j in 0..pre {
                        let mut x = rng.bytes(64);
                        x[..32].copy_from_slice(&key(0, st.arg(2) + j, j, sd));
                        let _ = e.recv_handshake(&mut x);
                    }
                    if e.is_handshake_complete() {
                        return viol("completed with a degenerate key", "connection, after repeated attempts");
                    }
                    let _ = e.recv_handshake(&mut m.clone());
                    e.is_handshake_complete()
                } else {
                    let mut e = NoiseSession::init_session(false, &[], keypair(secret(&[sd, 2]))?);
                    for j in 0..pre {
                        let mut x = rng.bytes(64);
                        x[..32].copy_from_slice(&key(0, st.arg(2) + j, j, sd));
                        let _ = e.recv_message(&mut x);
                    }
                    if pre > 0 {
                        let _ = e.send_message(&mut vec![0u8; 128]);
                    }
                    if e.is_transport() {
                        return viol("completed with a degenerate key", "session, after repeated attempts");
                    }
                    let _ = e.recv_message(&mut m);
                    let _ = e.send_message(&mut vec![0u8; 128]);
                    e.is_transport()
                };
                ctx.faults("refused_attempt_before", pre as u64);
                ctx.ev(&[1, bad(&k) as u64, done as u64, st.arg(2) as u64, st.arg(3) as u64]);
                ctx.note(|| format!("responder got e={} degenerate={} complete={}", hex(&k), bad(&k), done));
                if bad(&k) {
                    ctx.fault("degenerate_ephemeral_to_responder");
                    if done {
                        return viol("completed with a degenerate key", format!("responder accepted the ephemeral {}", hex(&k)));
                    }
                } else {
                    ctx.probe("ordinary_key_to_responder");
                    if !done && pre == 0 && !listed(&k) {
                        return viol("an ordinary key was refused", format!("responder refused the ephemeral {}", hex(&k)));
                    }
                }
            }
            "to_initiator" => {
                let place = st.arg(1).rem_euclid(3); // 0: e, 1: s, 2: both
                let k = key(st.arg(2), st.arg(3), st.arg(4), sd);
                let k2 = key(st.arg(6), st.arg(7), st.arg(8), sd ^ 5);
                let len = st.arg(5).clamp(96, 4000) as usize;
                let payload = rng.bytes(len - 96);
                let re = secret(&[sd, 20]);
                let rs = secret(&[sd, 21]);
                let epub = if place == 1 { crypto::x25519_pub(&re) } else { k };
                let spub = match place {
                    0 => crypto::x25519_pub(&rs),
                    1 => k,
                    _ => k2,
                };
                let degenerate = bad(&epub) || bad(&spub);
                let done = if st.arg(0) == 1 && degenerate {
                    // A real hostile peer: it knows no secret of the initiator.
                    let mut e = ConnectionEncryptor::new_outbound();
                    let a = match e.init_handshake() {
                        Ok(a) => a,
                        Err(x) => return viol("handshake setup", x.to_string()),
                    };
                    let mut r = RefResponder::new(&[], rs, re);
                    r.read_a(&a);
                    let es = if bad(&spub) { Es::Zero } else { Es::Honest };
                    let (mut b, _) = r.write_b_as(&payload, &spub, &epub, es);
                    let _ = e.recv_handshake(&mut b);
                    e.is_handshake_complete()
                } else {
                    // Any key at all, computed with the initiator's ephemeral, which the
                    // simulator chose.
                    let ie = secret(&[sd, 22]);
                    let mut i = NoiseSession::init_session(true, &[], keypair(secret(&[sd, 23]))?);
                    i.set_ephemeral_keypair(keypair(ie)?);
                    let mut a = rng.bytes(64);
                    if let Err(x) = i.send_message(&mut a) {
                        return viol("handshake setup", x.to_string());
                    }
                    let mut y = RefSym::new(&[]);
                    y.mix_hash(&a[..32]);
                    y.mix_hash(&a[32..]);
                    let mut b = epub.to_vec();
                    y.mix_hash(&epub);
                    y.mix_key(&crypto::x25519(&ie, &epub));
                    b.extend_from_slice(&y.enc(&spub));
                    y.mix_key(&crypto::x25519(&ie, &spub));
                    b.extend_from_slice(&y.enc(&payload));
                    let _ = i.recv_message(&mut b);
                    i.is_transport()
                };
                ctx.ev(&[2, degenerate as u64, done as u64, place as u64, st.arg(3) as u64]);
                ctx.note(|| format!("initiator got e={} s={} degenerate={} complete={}", hex(&epub), hex(&spub), degenerate, done));
                if degenerate {
                    ctx.fault(if bad(&epub) { "degenerate_ephemeral_to_initiator" } else { "degenerate_static_to_initiator" });
                    if done {
                        return viol("completed with a degenerate key", format!("initiator accepted e={} s={}", hex(&epub), hex(&spub)));
                    }
                } else {
                    ctx.probe("ordinary_keys_to_initiator");
                    if !done && !listed(&epub) && !listed(&spub) {
                        return viol("an ordinary key was refused", format!("initiator refused e={} s={}", hex(&epub), hex(&spub)));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
