//! Noise sessions interoperate with an independent implementation.
use crate::crypto::{self, hex, RefInitiator, RefKeys, RefResponder};
use crate::nz::{self, keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use noiseexplorer_nx::noisesession::NoiseSession;

pub const PROP: Prop = Prop {
    id: "C14",
    gen,
    exec,
    quick: 30_000,
    thorough: 1_000_000,
    rule: "One end is the library, the other a Noise_NX_25519_ChaChaPoly_BLAKE2s implementation written from the specification; handshakes of every size in both roles, then messages both ways with rekeys on both ends, over a network that loses, duplicates, corrupts and delays; every byte, hash, key and payload must be what the specification gives.",
    real: "nx-noise sessions and primitives",
    stub: "the peer (reference Noise implementation) and the network",
    assumptions: &["the reference implementation follows the Noise specification (checked against published vectors at start-up)"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C14", 0);
    let big = idx % 6 == 0;
    s.push("shake", &[r.below(2) as i64, nz::msg_size(r, 32, big) as i64, nz::msg_size(r, 96, big) as i64, *r.pick(&[0, 0, 1, 31, 32, 33, 64, 65, 100, 300]), r.below(2) as i64, r.below(4) as i64]);
    for _ in 0..r.range(0, 25) {
        let d = r.below(2) as i64;
        match r.below(12) {
            0..=4 => s.push("msg", &[d, nz::msg_size(r, 16, big) as i64]),
            5 | 6 => s.push("rekey", &[d, r.range(1, 3)]),
            7 => s.push("lose", &[d]),
            8 => s.push("dup", &[d]),
            9 => s.push("corrupt", &[d, nz::msg_size(r, 16, false) as i64, r.tag()]),
            10 => s.push("late", &[d, nz::msg_size(r, 16, false) as i64]),
            _ => s.push("badlen", &[d, nz::bad_size(r, 16) as i64]),
        }
    }
    s
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let mut rng = Rng::from(&[s.seed, 1]);
    let sh = s.steps.iter().find(|t| t.op == "shake").cloned();
    let g = |i: usize, d: i64| sh.as_ref().map_or(d, |t| t.arg(i));
    let lib_initiates = g(0, 0) == 0;
    let (alen, blen) = (g(1, 64).clamp(32, 65535) as usize, g(2, 128).clamp(96, 65535) as usize);
    let pro = rng.bytes(g(3, 0).clamp(0, 2000) as usize);
    let set_e = g(4, 0) == 1;
    let (ps, pe, ls, le) = (secret(&[s.seed, 2]), secret(&[s.seed, 3]), secret(&[s.seed, 4]), secret(&[s.seed, 5]));
    let mut lib = NoiseSession::init_session(lib_initiates, &pro, keypair(ls)?);
    if set_e {
        // The last one set is the one used.
        for k in 0..s.seed % 4 {
            if k > 0 {
                lib.set_ephemeral_keypair(keypair(secret(&[s.seed, 50 + k]))?);
            }
        }
        lib.set_ephemeral_keypair(keypair(le)?);
    }
    // Calls that must be refused and leave no trace, before each genuine one.
    let noise = g(5, 0);
    let poke = |l: &mut NoiseSession, ctx: &mut Ctx| {
        if noise & 1 == 1 {
            ctx.fault("refused_call_in_handshake");
            let _ = l.send_message(&mut [0u8; 10]);
            let _ = l.recv_message(&mut [0u8; 20]);
        }
    };
    poke(&mut lib, ctx);
    let mut k: RefKeys;
    if lib_initiates {
        let mut a = rng.bytes(alen);
        let pa = a[32..].to_vec();
        if let Err(e) = lib.send_message(&mut a) {
            return viol("message A not sent", format!("{} bytes: {}", alen, e));
        }
        if a[32..] != pa[..] {
            return viol("message A payload altered", format!("{} bytes", alen));
        }
        if set_e && a[..32] != crypto::x25519_pub(&le) {
            return viol("public key not as specified", hex(&a[..32]));
        }
        let mut r = RefResponder::new(&pro, ps, pe);
        r.read_a(&a);
        let pb = rng.bytes(blen - 96);
        let (b, keys) = r.write_b(&pb);
        k = keys;
        poke(&mut lib, ctx);
        let mut bb = b.clone();
        if let Err(e) = lib.recv_message(&mut bb) {
            return viol("the peer's message B refused", format!("{} bytes: {}", blen, e));
        }
        if bb[80..blen - 16] != pb[..] {
            return viol("message B payload differs", format!("{} bytes", blen));
        }
        if lib.get_remote_static_public_key().map(|k| k.as_bytes()) != Some(crypto::x25519_pub(&ps)) {
            return viol("remote static key differs", "");
        }
        ctx.ev_bytes(1, &b[..b.len().min(200)]);
    } else {
        let mut i = RefInitiator::new(&pro, pe);
        let pa = rng.bytes(alen - 32);
        let a = i.write_a(&pa);
        let mut aa = a.clone();
        if let Err(e) = lib.recv_message(&mut aa) {
            return viol("the peer's message A refused", format!("{} bytes: {}", alen, e));
        }
        if aa[32..] != pa[..] {
            return viol("message A payload altered", format!("{} bytes", alen));
        }
        poke(&mut lib, ctx);
        let mut b = rng.bytes(blen);
        let pb = b[80..blen - 16].to_vec();
        if let Err(e) = lib.send_message(&mut b) {
            return viol("message B not sent", format!("{} bytes: {}", blen, e));
        }
        if set_e {
            let mut r = RefResponder::new(&pro, ls, le);
            r.read_a(&a);
            if r.write_b(&pb).0 != b {
                return viol("message B not as specified", format!("{} bytes", blen));
            }
        }
        let Some((p, keys)) = i.read_b(&b) else {
            return viol("the peer refuses our message B", format!("{} bytes", blen));
        };
        if p != pb {
            return viol("message B payload differs", format!("{} bytes", blen));
        }
        if i.rs != crypto::x25519_pub(&ls) {
            return viol("static key sent is not ours", hex(&i.rs));
        }
        k = keys;
        ctx.ev_bytes(2, &b[..b.len().min(200)]);
    }
    if !lib.is_transport() || lib.get_handshake_hash() != Some(k.hash) {
        return viol("handshake hash differs", format!("{:?}", lib.get_handshake_hash().map(|h| hex(&h))));
    }
    ctx.probe(if lib_initiates { "library_initiator" } else { "library_responder" });
    // Messages of the peer that were lost on the way and must be sent again as they were.
    let mut held: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for st in s.steps.iter().filter(|t| t.op != "shake") {
        let d = st.arg(0) & 1;
        let from_lib = (d == 0) == lib_initiates; // d 0: initiator to responder
        let dir = if d == 0 { &mut k.ir } else { &mut k.ri };
        // A held message of the peer goes first; until then its direction waits.
        if !from_lib && st.op != "late" && st.op != "rekey" {
            for (m, pt) in held.drain(..) {
                let mut x = m.clone();
                if lib.recv_message(&mut x).is_err() || x[..pt.len()] != pt[..] {
                    return viol("a delayed message of the peer is not understood", format!("{} bytes", m.len()));
                }
            }
        }
        match st.op.as_str() {
            "msg" | "dup" | "corrupt" | "lose" => {
                let len = if st.op == "msg" || st.op == "corrupt" { st.arg(1).clamp(16, 65535) as usize } else { 50 };
                let mut m = rng.bytes(len);
                let pt = m[..len - 16].to_vec();
                if from_lib {
                    if let Err(e) = lib.send_message(&mut m) {
                        return viol("message not sent", format!("{} bytes: {}", len, e));
                    }
                    let want = dir.seal(&pt);
                    if m != want {
                        return viol("message not as specified", format!("direction {} of {} bytes, number {}", d, len, dir.n - 1));
                    }
                } else {
                    let c = dir.seal(&pt);
                    match st.op.as_str() {
                        "corrupt" => {
                            ctx.fault("corrupted");
                            let mut x = c.clone();
                            let bit = st.arg(2).unsigned_abs() as usize % (len * 8);
                            x[bit / 8] ^= 1 << (bit % 8);
                            if lib.recv_message(&mut x).is_ok() {
                                return viol("a corrupted message was accepted", format!("{} bytes, bit {}", len, bit));
                            }
                        }
                        "lose" => {
                            ctx.fault("lost");
                            // The next one arrives instead.
                            let mut x = crypto::seal(&dir.key, dir.n, &[], &pt);
                            if lib.recv_message(&mut x).is_ok() {
                                return viol("accepted past a lost message", format!("number {}", dir.n));
                            }
                        }
                        _ => {}
                    }
                    let mut x = c.clone();
                    if let Err(e) = lib.recv_message(&mut x) {
                        return viol("the peer's message is not understood", format!("direction {} of {} bytes, number {}: {}", d, len, dir.n - 1, e));
                    }
                    if x[..pt.len()] != pt[..] {
                        return viol("wrong plaintext", format!("direction {} of {} bytes", d, len));
                    }
                    if st.op == "dup" {
                        ctx.fault("duplicated");
                        if lib.recv_message(&mut c.clone()).is_ok() {
                            return viol("a duplicate was accepted", format!("number {}", dir.n - 1));
                        }
                    }
                }
                ctx.ev(&[3, d as u64, len as u64, dir.n]);
                ctx.probe("messages");
            }
            "late" => {
                if !from_lib {
                    ctx.fault("delayed");
                    let pt = rng.bytes(st.arg(1).clamp(16, 3000) as usize - 16);
                    held.push((dir.seal(&pt), pt));
                }
            }
            "rekey" => {
                // Deliver what is under way before the key changes.
                if !from_lib {
                    for (m, pt) in held.drain(..) {
                        let mut x = m.clone();
                        if lib.recv_message(&mut x).is_err() || x[..pt.len()] != pt[..] {
                            return viol("a delayed message of the peer is not understood", format!("{} bytes", m.len()));
                        }
                    }
                }
                ctx.fault("rekey");
                for _ in 0..st.arg(1).clamp(1, 20) {
                    dir.rekey();
                    if d == 0 {
                        lib.rekey_local_cipherstate();
                    } else {
                        lib.rekey_remote_cipherstate();
                    }
                }
            }
            "badlen" => {
                let l = st.arg(1).clamp(0, 140_000) as usize;
                if (16..=65535).contains(&l) {
                    continue;
                }
                ctx.fault("refused_length");
                if lib.send_message(&mut vec![0; l]).is_ok() || lib.recv_message(&mut vec![0; l]).is_ok() {
                    return viol("a length outside the specification was taken", format!("{} bytes", l));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
