//! A whole deployment: pools, miners, impostors, an authority, disks, clocks and links.
use crate::crypto;
use crate::glue::{self, L};
use crate::nz::{keypair, secret};
use crate::rng::Rng;
use crate::runner::Prop;
use crate::scenario::{viol, Ctx, Outcome, Scenario, Violation};
use crate::seams;
use crate::wire::{self, K, V};
use noiseexplorer_nx::noisesession::NoiseSession;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use stratumv2::bitcoin::util::base58;
use stratumv2::error::Error;
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Peer};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder, AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate};

pub const PROP: Prop = Prop {
    id: "C17",
    gen,
    exec,
    quick: 6_000,
    thorough: 150_000,
    rule: "A discrete-event simulation of 1-3 pools, 1-4 miners and up to 3 impostors or tampering proxies: handshake, certificate, connection setup and channel requests over TCP-like links, with pool and miner crashes and restarts, torn, failed and rotted certificate writes, key rotation, partitions, resets, stalls, latency, on-path tampering and clock skew at seeded moments. Faults stop at 60 s of virtual time; every miner must then get a fresh answer within 150 s.",
    real: "stratumv2 codec, all messages used, noise sessions, certificates and their verification, Peer queues, channel ids; nx-noise; dalek and chacha crates",
    stub: "pool and miner application logic, transport records, links, disks, clocks, OS entropy, scheduler",
    assumptions: &["application logic above the library is the simulator's own", "a link is a FIFO byte stream unless an attacker touches it"],
};

const S: u64 = 1_000_000;
const STOP: u64 = 60 * S;
const BOUND: u64 = 150 * S;
const EPOCH: i64 = crate::runner::DEFAULT_CLOCK;

fn gen(r: &mut Rng, _idx: u64, thorough: bool) -> Scenario {
    let mut s = Scenario::new("C17", 0);
    let pools = r.range(1, 3);
    let miners = r.range(1, if thorough { 4 } else { 3 });
    s.push(
        "world",
        &[
            pools,
            miners,
            *r.pick(&[500, 5_000, 40_000, 300_000]),      // latency, us
            r.below(4) as i64,                              // fragmentation
            *r.pick(&[0, 1, 2, 5, 20]),                     // rekey after this many records
            *r.pick(&[20, 35, 60, 600, 86400]),             // certificate lifetime, s
            r.below(2) as i64,                              // certificate inside the handshake
        ],
    );
    for _ in 0..r.below(4) {
        s.push("host", &[r.below(7) as i64, r.below(pools as u64) as i64, r.tag()]);
    }
    let nodes = pools + miners;
    let n = match r.below(5) {
        0 => r.below(3),
        1 => 10 + r.below(if thorough { 60 } else { 25 }),
        _ => 3 + r.below(12),
    };
    for _ in 0..n {
        let t = if r.chance(1, 3) { r.below(4_000) as i64 } else { r.below(60_000) as i64 };
        let dur = *r.pick(&[50, 400, 2_000, 9_000, 15_000, 40_000]);
        let node = r.below(nodes as u64) as i64;
        match r.below(16) {
            0 | 1 => s.push("crash", &[t, node, dur, r.below(90) as i64]),
            2 | 3 => s.push("cut", &[t, r.below(miners as u64) as i64, r.below(6) as i64, dur]),
            4 => s.push("reset", &[t, r.tag()]),
            5 | 6 | 7 => s.push("tamper", &[t, r.tag(), r.below(8) as i64, r.tag()]),
            8 => s.push("stall", &[t, r.tag(), dur]),
            9 | 10 => s.push("skew", &[t, node, *r.pick(&[-86400 * 400, -3600, -90, -30, -5, -1, 1, 5, 30, 90, 3600, 86400 * 400, -1_800_000_000, 3_000_000_000, i64::MAX / 8]), dur]),
            11 => s.push("rotate", &[t, r.below(pools as u64) as i64]),
            12 => s.push("rot", &[t, r.below(pools as u64) as i64, r.tag()]),
            13 => s.push("iofail", &[t, r.below(pools as u64) as i64, dur]),
            14 => s.push("slow", &[t, r.range(2, 30), dur]),
            _ => s.push("noauth", &[t, dur]),
        }
    }
    s.steps[1..].sort_by_key(|x| if x.op == "host" { -1 } else { x.arg(0) });
    s
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Fault(usize),
    Heal(usize),
    Deliver(usize, usize),
    Rst(usize, usize),
    Tick(usize, u64),
    Flush(usize, usize),
    Up(usize),
    Commit(usize, u64),
}

struct Pool {
    up: bool,
    epoch: u64,
    sk: [u8; 32],
    rev: u64,
    /// What the disk holds, and a write under way.
    disk: Vec<u8>,
    pending: Option<Vec<u8>>,
    iofail: u64,
}
struct Miner {
    up: bool,
    epoch: u64,
    list: Vec<usize>,
    at: usize,
    fails: u32,
    conn: Option<usize>,
    due: u64,
    req: u32,
    picky: bool,
    answered: u64,
    chan: Option<u32>,
}
struct Host {
    /// 0 pool, then 1 own key and a genuine certificate of a pool, 2 certificate of a rogue
    /// authority, 3 a rotated key with its old certificate, 4 silent, 5 garbage, 6 tampering proxy
    kind: i64,
    pool: usize,
    sk: [u8; 32],
    tag: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    A,
    B,
    Cert,
    Setup,
    Open,
}
struct End {
    s: Option<NoiseSession>,
    peer: Option<Peer<ConnectionEncryptor>>,
    alive: bool,
    ph: Ph,
    rx: Vec<u8>,
    app: Vec<u8>,
    got: u64,
    sent: u64,
    /// Application history of what this end sent: messages queued, and bytes written.
    log: Vec<(K, Vec<V>)>,
    plain: Vec<u8>,
    /// What this end has received.
    seen: usize,
    seen_bytes: usize,
    last: u64,
    flushing: bool,
    reqs: BTreeMap<u32, (K, Vec<V>)>,
    setup: Vec<V>,
    wait: u64,
    chans: Vec<u32>,
}
impl End {
    fn new() -> End {
        End {
            s: None,
            peer: None,
            alive: false,
            ph: Ph::A,
            rx: vec![],
            app: vec![],
            got: 0,
            sent: 0,
            log: vec![],
            plain: vec![],
            seen: 0,
            seen_bytes: 0,
            last: 0,
            flushing: false,
            reqs: BTreeMap::new(),
            setup: vec![],
            wait: u64::MAX,
            chans: vec![],
        }
    }
}
struct Conn {
    miner: usize,
    host: usize,
    /// The pool behind it and its incarnation, once accepted.
    epoch: Option<u64>,
    e: [End; 2],
    q: [VecDeque<Vec<u8>>; 2],
    last: [u64; 2],
    stall: [u64; 2],
    tamper: VecDeque<(i64, u64)>,
    held: [Option<Vec<u8>>; 2],
    old: Vec<u8>,
    touched: bool,
    /// The static key the far end really holds.
    holds: [u8; 32],
}
struct Issued {
    key: [u8; 32],
    wire: Vec<u8>,
}

struct World<'a> {
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    r: Rng,
    pools: Vec<Pool>,
    miners: Vec<Miner>,
    hosts: Vec<Host>,
    conns: Vec<Conn>,
    auth: AuthorityKeyPair,
    auth_name: String,
    rogue: AuthorityKeyPair,
    issued: Vec<Issued>,
    /// Certificates and keys of rotated-out pool keys.
    old: Vec<([u8; 32], Vec<u8>)>,
    cuts: Vec<(usize, usize, u64)>,
    skew: Vec<i64>,
    skew_until: Vec<u64>,
    slow: (u64, u64),
    noauth: u64,
    lat: u64,
    frag: i64,
    rekey: u64,
    life: i64,
    inside: bool,
    seed: u64,
    ctx: &'a mut Ctx,
    unsat: Vec<bool>,
}

type Res<T> = Result<T, Violation>;

fn kind_of(t: u8) -> Option<K> {
    Some(match t {
        0x00 => K::SetupMining,
        0x01 => K::MinSuccess,
        0x02 => K::MinError,
        0x03 => K::EndpointChanged,
        0x10 => K::OpenStd,
        0x11 => K::OpenStdOk,
        0x12 => K::OpenStdErr,
        0x13 => K::OpenExt,
        0x14 => K::OpenExtOk,
        0x15 => K::OpenExtErr,
        0x16 => K::Update,
        _ => return None,
    })
}

/// What a pool answers to a setup: None is an error it names.
fn setup_answer(v: &[V]) -> (K, Vec<V>) {
    let flags = v[3].n();
    if flags & 4 != 0 {
        (K::MinError, vec![V::N(flags & 4), V::B(wire::CODES_SETUP[0].as_bytes().to_vec())])
    } else if v[1].n() > 2 {
        (K::MinError, vec![V::N(0), V::B(wire::CODES_SETUP[2].as_bytes().to_vec())])
    } else {
        (K::MinSuccess, vec![V::N(2), V::N(flags & 3)])
    }
}
/// What a pool answers to a channel request, the channel id aside.
fn open_answer(k: K, v: &[V], chan: u32) -> (K, Vec<V>) {
    let d = crypto::blake2s(&[v[3].b(), &(v[0].n() as u32).to_le_bytes()]);
    let err = |k: K, i: usize| (k, vec![v[0].clone(), V::B(wire::CODES_OPEN[i].as_bytes().to_vec())]);
    if k == K::OpenStd {
        if v[1].b().first() == Some(&b'x') {
            return err(K::OpenStdErr, 0);
        }
        (K::OpenStdOk, vec![v[0].clone(), V::N(chan as u64), v[3].clone(), V::B(d[..(d[0] % 33) as usize].to_vec()), V::N((chan ^ 1) as u64)])
    } else {
        if v[4].n() > 32 {
            return err(K::OpenExtErr, 1);
        }
        (K::OpenExtOk, vec![v[0].clone(), V::N(chan as u64), v[3].clone(), v[4].clone(), V::B(d[..(d[0] % 33) as usize].to_vec())])
    }
}

impl World<'_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(Reverse((t, self.seq, e)));
    }
    fn clock(&self, node: usize) -> i64 {
        EPOCH.saturating_add((self.now / S) as i64).saturating_add(self.skew[node])
    }
    fn set_clock(&self, node: usize) {
        seams::set_clock(self.clock(node), ((self.now % S) * 1000) as i64);
    }
    fn mnode(&self, m: usize) -> usize {
        self.pools.len() + m
    }
    fn cut_until(&self, m: usize, h: usize) -> u64 {
        self.cuts.iter().filter(|c| c.0 == m && c.1 == h && c.2 > self.now).map(|c| c.2).max().unwrap_or(0)
    }
    fn latency(&mut self) -> u64 {
        let base = self.lat * if self.now < self.slow.1 { self.slow.0 } else { 1 };
        base / 2 + self.r.below(base + 1)
    }

    // ---- authority and disks

    fn sign(&mut self, key: [u8; 32], rogue: bool) -> Res<Vec<u8>> {
        let pk = keypair(key)?.get_public_key();
        let now = EPOCH + (self.now / S) as i64;
        let (from, until) = ((now - 2) as u32, (now + self.life) as u32);
        let e = |w: &str, e: Error| Violation { class: "certificate not issued".into(), detail: format!("{}: {}", w, e) };
        let c = SignedCertificate::new(0, from, until, &pk).map_err(|x| e("create", x))?;
        let m = SignatureNoiseMessage::from_auth_key(if rogue { &self.rogue } else { &self.auth }, &c).map_err(|x| e("sign", x))?;
        let w = stratumv2::codec::serialize(&m).map_err(|x| e("encode", x))?;
        if !rogue {
            self.issued.push(Issued { key: pk.as_bytes(), wire: w.clone() });
            self.ctx.probe("certificates_issued");
        }
        Ok(w)
    }

    /// Does this certificate verify for this static key, by the clock now set?
    fn verifies(&self, wire: &[u8], pk: &stratumv2::noise::StaticPublicKey) -> bool {
        let Ok(L::SigM(m)) = glue::decode(K::SigMsg, wire) else { return false };
        CertificateFormat::new(&self.auth_name, pk, &m).map_or(false, |f| f.verify().is_ok())
    }

    fn pool_tick(&mut self, p: usize, epoch: u64) -> Outcome {
        if !self.pools[p].up || self.pools[p].epoch != epoch {
            return Ok(());
        }
        self.set_clock(p);
        let pk = keypair(self.pools[p].sk)?.get_public_key();
        let c = self.pools[p].disk.clone();
        let soon = c.len() == 74 && i64::from(u32::from_le_bytes(c[6..10].try_into().unwrap())) - self.clock(p) < 12;
        if self.pools[p].pending.is_none() && (soon || !self.verifies(&c, &pk)) && self.now >= self.noauth {
            let w = self.sign(self.pools[p].sk, false)?;
            if self.now < self.pools[p].iofail {
                self.ctx.fault("disk_write_error");
            } else {
                self.pools[p].pending = Some(w);
                let d = if self.r.chance(1, 3) { self.r.below(4 * S) } else { self.r.below(200_000) };
                self.at(self.now + d, Ev::Commit(p, epoch));
            }
        }
        // Idle connections go.
        for c in 0..self.conns.len() {
            let x = &self.conns[c];
            if self.hosts[x.host].kind == 0 && self.hosts[x.host].pool == p && x.e[1].alive && x.epoch == Some(epoch) && x.e[1].last + 30 * S < self.now {
                self.close(c, 1);
            }
        }
        let d = S + self.r.below(2 * S);
        self.at(self.now + d, Ev::Tick(p, epoch));
        Ok(())
    }

    // ---- links

    fn close(&mut self, c: usize, end: usize) {
        if self.conns[c].e[end].alive {
            self.conns[c].e[end].alive = false;
            self.conns[c].e[end].s = None;
            self.conns[c].e[end].peer = None;
            let l = self.latency();
            self.at(self.now + l, Ev::Rst(c, 1 - end));
        }
    }

    fn write(&mut self, c: usize, end: usize, bytes: Vec<u8>) {
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = match self.frag {
                0 => rest.len(),
                1 => 1 + self.r.below(700) as usize,
                2 => 1 + self.r.below(60) as usize,
                _ => 1 + self.r.below(7) as usize * self.r.below(200) as usize,
            }
            .min(rest.len());
            let (a, b) = rest.split_at(n);
            rest = b;
            let mut seg = a.to_vec();
            let mut out: Vec<Vec<u8>> = vec![];
            if let Some((kind, arg)) = if self.now < STOP { self.conns[c].tamper.pop_front() } else { None } {
                let x = &mut self.conns[c];
                x.touched = true;
                let i = (arg >> 8) as usize % seg.len();
                match kind {
                    0 => {
                        seg[i] ^= 1 << (arg & 7);
                        self.ctx.fault("bit_flipped");
                    }
                    1 => {
                        seg.clear();
                        self.ctx.fault("segment_dropped");
                    }
                    2 => {
                        out.push(seg.clone());
                        self.ctx.fault("segment_duplicated");
                    }
                    3 => {
                        let mut r = Rng::new(arg);
                        let k = 1 + r.below(40) as usize;
                        out.push(r.bytes(k));
                        self.ctx.fault("bytes_injected");
                    }
                    4 => {
                        seg.truncate(i);
                        self.ctx.fault("segment_truncated");
                    }
                    5 => {
                        x.held[end] = Some(std::mem::take(&mut seg));
                        self.ctx.fault("segment_reordered");
                    }
                    6 => {
                        if !x.old.is_empty() {
                            out.push(x.old.clone());
                        }
                        self.ctx.fault("segment_replayed");
                    }
                    _ => {
                        for b in seg.iter_mut().skip(2) {
                            *b = 0;
                        }
                        self.ctx.fault("segment_zeroed");
                    }
                }
            } else {
                self.conns[c].old = a.to_vec();
            }
            if !seg.is_empty() {
                out.push(seg);
                if let Some(h) = self.conns[c].held[end].take() {
                    out.push(h);
                }
            }
            for seg in out {
                let l = self.latency();
                let x = &mut self.conns[c];
                let t = x.last[end].max(self.now + l).max(x.stall[end]);
                x.last[end] = t;
                x.q[end].push_back(seg);
                self.at(t, Ev::Deliver(c, end));
            }
        }
    }

    fn record(&mut self, c: usize, end: usize, m: &[u8]) {
        let mut b = (m.len() as u16).to_le_bytes().to_vec();
        b.extend_from_slice(m);
        self.write(c, end, b);
    }

    fn deliver(&mut self, c: usize, from: usize) -> Outcome {
        let (m, h) = (self.conns[c].miner, self.conns[c].host);
        let cut = self.cut_until(m, h);
        if cut > 0 {
            self.ctx.fault("delayed_by_partition");
            self.at(cut + 1, Ev::Deliver(c, from));
            return Ok(());
        }
        let Some(seg) = self.conns[c].q[from].pop_front() else { return Ok(()) };
        self.ctx.ev_bytes(c as u64 * 2 + from as u64, &seg);
        let to = 1 - from;
        if to == 1 && self.conns[c].epoch.is_none() && !self.accept(c)? {
            self.close_other(c, 1);
            return Ok(());
        }
        if !self.conns[c].e[to].alive {
            self.close_other(c, to);
            return Ok(());
        }
        let e = &mut self.conns[c].e[to];
        e.last = self.now;
        e.rx.extend_from_slice(&seg);
        loop {
            let e = &mut self.conns[c].e[to];
            if !e.alive || e.rx.len() < 2 {
                break;
            }
            let n = u16::from_le_bytes([e.rx[0], e.rx[1]]) as usize;
            if e.rx.len() < 2 + n {
                break;
            }
            let mut m: Vec<u8> = e.rx.drain(..2 + n).collect();
            m.drain(..2);
            if to == 0 {
                self.miner_record(c, m)?;
            } else {
                self.host_record(c, m)?;
            }
        }
        Ok(())
    }

    /// The far end has no such connection.
    fn close_other(&mut self, c: usize, dead: usize) {
        let l = self.latency();
        self.at(self.now + l, Ev::Rst(c, 1 - dead));
    }

    fn accept(&mut self, c: usize) -> Res<bool> {
        let h = &self.hosts[self.conns[c].host];
        let sk = if h.kind == 0 {
            if !self.pools[h.pool].up {
                self.conns[c].epoch = Some(u64::MAX);
                return Ok(false);
            }
            self.conns[c].epoch = Some(self.pools[h.pool].epoch);
            self.pools[h.pool].sk
        } else {
            self.conns[c].epoch = Some(0);
            h.sk
        };
        self.conns[c].holds = crypto::x25519_pub(&sk);
        let e = &mut self.conns[c].e[1];
        e.alive = true;
        e.s = Some(new_noise_responder(Some(keypair(sk)?)));
        e.peer = Some(Peer::new(ConnectionEncryptor::new_inbound(None)));
        e.last = self.now;
        Ok(true)
    }

    /// The certificate a host presents.
    fn presented(&mut self, h: usize) -> Res<Vec<u8>> {
        let (kind, pool, sk) = (self.hosts[h].kind, self.hosts[h].pool, self.hosts[h].sk);
        Ok(match kind {
            0 => self.pools[pool].disk.clone(),
            1 => self.issued.last().map_or(vec![0; 74], |i| i.wire.clone()),
            2 => self.sign(sk, true)?,
            _ => self.old.iter().rev().find(|o| o.0 == sk).map_or(vec![0; 74], |o| o.1.clone()),
        })
    }

    // ---- pool side

    fn host_record(&mut self, c: usize, mut m: Vec<u8>) -> Outcome {
        let h = self.conns[c].host;
        let kind = self.hosts[h].kind;
        match kind {
            4 => return Ok(()),
            5 => {
                let k = [0, 40, 96, 120, 200][self.r.below(5) as usize];
                let b = self.r.bytes(k);
                self.record(c, 1, &b);
                return Ok(());
            }
            _ => {}
        }
        let touched = self.conns[c].touched;
        let rekey = self.rekey;
        if self.conns[c].e[1].ph == Ph::A {
            let s = self.conns[c].e[1].s.as_mut().unwrap();
            if let Err(x) = s.recv_message(&mut m) {
                if !touched {
                    return viol("untampered handshake failed", format!("responder, message A of {} bytes: {}", m.len(), x));
                }
                self.close(c, 1);
                return Ok(());
            }
            let cert = self.presented(h)?;
            let n = if self.inside { cert.len() } else { self.r.below(3) as usize * 20 };
            let mut b = vec![0u8; 96 + n];
            if self.inside {
                b[80..80 + n].copy_from_slice(&cert);
            }
            let s = self.conns[c].e[1].s.as_mut().unwrap();
            if let Err(x) = s.send_message(&mut b) {
                return viol("untampered handshake failed", format!("responder, message B of {} bytes: {}", b.len(), x));
            }
            self.conns[c].e[1].ph = Ph::Setup;
            self.record(c, 1, &b);
            if !self.inside {
                self.send_plain(c, 1, cert, false)?;
            }
            return Ok(());
        }
        if kind != 0 {
            return Ok(());
        }
        if !self.open_record(c, 1, &mut m, rekey)? {
            return Ok(());
        }
        while let Some((k, v)) = self.next_message(c, 1)? {
            let e = &mut self.conns[c].e[1];
            match k {
                K::SetupMining => {
                    e.ph = Ph::Open;
                    let (k, v) = setup_answer(&v);
                    self.queue(c, 1, k, v)?;
                }
                K::OpenStd | K::OpenExt => {
                    let chan = new_channel_id();
                    e.chans.push(chan);
                    let (k, v) = open_answer(k, &v, chan);
                    self.queue(c, 1, k, v)?;
                }
                K::Update => {
                    if self.r.chance(1, 3) {
                        self.queue(c, 1, K::EndpointChanged, vec![v[0].clone()])?;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    // ---- both sides

    fn queue(&mut self, c: usize, end: usize, k: K, v: Vec<V>) -> Outcome {
        let m = match glue::build(k, &v).and_then(|l| glue::to_frame(&l)) {
            Ok(m) => m,
            Err(x) => return viol("a valid message could not be made", format!("{:?} {:?}: {}", k, v, x)),
        };
        let e = &mut self.conns[c].e[end];
        let Some(p) = e.peer.as_ref() else { return Ok(()) };
        p.pending_msg_buffer.lock().unwrap().push(m);
        e.log.push((k, v));
        if !e.flushing {
            e.flushing = true;
            let d = self.r.below(4) * self.r.below(30_000);
            self.at(self.now + d, Ev::Flush(c, end));
        }
        Ok(())
    }

    fn flush(&mut self, c: usize, end: usize) -> Outcome {
        let e = &mut self.conns[c].e[end];
        e.flushing = false;
        if !e.alive {
            return Ok(());
        }
        let Some(p) = e.peer.as_ref() else { return Ok(()) };
        let mut out = vec![];
        for m in p.get_pending_msgs() {
            if let Err(x) = glue::encode_message(&m, &mut out) {
                return viol("a valid message could not be made", x.to_string());
            }
        }
        self.send_plain(c, end, out, true)
    }

    fn send_plain(&mut self, c: usize, end: usize, bytes: Vec<u8>, app: bool) -> Outcome {
        let mut rest = &bytes[..];
        if app {
            self.conns[c].e[end].plain.extend_from_slice(&bytes);
        }
        while !rest.is_empty() {
            let n = if !app { rest.len() } else { *self.r.clone().pick(&[rest.len(), rest.len(), 1, 3, 6, 30, 300]) }.min(rest.len());
            self.r.u64();
            let mut m = rest[..n].to_vec();
            m.extend_from_slice(&[0; 16]);
            rest = &rest[n..];
            let rekey = self.rekey;
            let e = &mut self.conns[c].e[end];
            let Some(s) = e.s.as_mut() else { return Ok(()) };
            if let Err(x) = s.send_message(&mut m) {
                return viol("a record could not be sent", format!("{} bytes: {}", m.len(), x));
            }
            e.sent += 1;
            if rekey > 0 && e.sent % rekey == 0 {
                self.ctx.probe("rekeys");
                let e = &mut self.conns[c].e[end];
                let s = e.s.as_mut().unwrap();
                if end == 0 {
                    s.rekey_local_cipherstate();
                } else {
                    s.rekey_remote_cipherstate();
                }
            }
            self.record(c, end, &m);
        }
        Ok(())
    }

    /// Decrypts a record in place and appends it to the application stream.
    fn decrypt(&mut self, c: usize, end: usize, m: &mut Vec<u8>, rekey: u64) -> Res<bool> {
        let touched = self.conns[c].touched;
        let e = &mut self.conns[c].e[end];
        let Some(s) = e.s.as_mut() else { return Ok(false) };
        if let Err(x) = s.recv_message(m) {
            if !touched {
                return viol("genuine record refused", format!("end {} record {} of {} bytes: {}", end, e.got, m.len(), x));
            }
            self.ctx.probe("tampering_detected");
            self.close(c, end);
            return Ok(false);
        }
        e.got += 1;
        if rekey > 0 && e.got % rekey == 0 {
            if end == 0 {
                s.rekey_remote_cipherstate();
            } else {
                s.rekey_local_cipherstate();
            }
        }
        m.truncate(m.len() - 16);
        Ok(true)
    }

    fn open_record(&mut self, c: usize, end: usize, m: &mut Vec<u8>, rekey: u64) -> Res<bool> {
        if !self.decrypt(c, end, m, rekey)? {
            return Ok(false);
        }
        let x = &mut self.conns[c];
        let [a, b] = &mut x.e;
        let (me, other) = if end == 0 { (a, b) } else { (b, a) };
        let want = other.plain.get(me.seen_bytes..me.seen_bytes + m.len());
        if want != Some(&m[..]) {
            return viol("received bytes are not what the peer sent", format!("connection {} end {} offset {} length {}", c, end, me.seen_bytes, m.len()));
        }
        me.seen_bytes += m.len();
        me.app.extend_from_slice(m);
        Ok(true)
    }

    fn next_message(&mut self, c: usize, end: usize) -> Res<Option<(K, Vec<V>)>> {
        let x = &mut self.conns[c];
        let [a, b] = &mut x.e;
        let (me, other) = if end == 0 { (a, b) } else { (b, a) };
        let whole = wire::decode_frame(&me.app).ok().map(|f| f.2);
        let m = match glue::decode_message_at(&me.app, 0) {
            Ok(m) => m,
            Err(Error::ParseError(_)) if whole.is_none() => {
                if !me.app.is_empty() {
                    self.ctx.probe("waited_for_rest_of_frame");
                }
                return Ok(None);
            }
            Err(x) => return viol("genuine message not understood", format!("{} bytes buffered: {}", me.app.len(), x)),
        };
        let Some(n) = whole else {
            return viol("message out of an incomplete frame", format!("{} bytes buffered", me.app.len()));
        };
        let Some((k, want)) = other.log.get(me.seen) else {
            return viol("a message nobody sent was received", crypto::hex(&me.app[..n.min(60)]));
        };
        if kind_of(me.app[2]) != Some(*k) {
            return viol("messages not received as sent", format!("message {} is {:?}, got type {}", me.seen, k, me.app[2]));
        }
        let v = match glue::from_frame(*k, &m) {
            Ok(l) => glue::values(&l),
            Err(x) => return viol("genuine message not understood", format!("{:?}: {}", k, x)),
        };
        if v != *want {
            return viol("messages not received as sent", format!("message {}, {:?}: sent {:?}, got {:?}", me.seen, k, want, v));
        }
        me.seen += 1;
        me.app.drain(..n);
        self.ctx.probe("messages_received");
        Ok(Some((*k, v)))
    }

    // ---- miner side

    fn miner_record(&mut self, c: usize, mut m: Vec<u8>) -> Outcome {
        let mi = self.conns[c].miner;
        let node = self.mnode(mi);
        let (touched, h) = (self.conns[c].touched, self.conns[c].host);
        let rekey = self.rekey;
        match self.conns[c].e[0].ph {
            Ph::B => {
                let s = self.conns[c].e[0].s.as_mut().unwrap();
                if let Err(x) = s.recv_message(&mut m) {
                    if !touched && self.hosts[h].kind != 5 {
                        return viol("untampered handshake failed", format!("initiator, message B of {} bytes: {}", m.len(), x));
                    }
                    self.give_up(mi, 0);
                    return Ok(());
                }
                self.conns[c].e[0].ph = Ph::Cert;
                if self.inside {
                    let cert = m[80..m.len() - 16].to_vec();
                    return self.judge(c, node, cert);
                }
                Ok(())
            }
            Ph::Cert => {
                if !self.decrypt(c, 0, &mut m, rekey)? {
                    self.give_up(mi, 0);
                    return Ok(());
                }
                self.judge(c, node, m)
            }
            _ => {
                if !self.open_record(c, 0, &mut m, rekey)? {
                    self.give_up(mi, 0);
                    return Ok(());
                }
                while let Some((k, v)) = self.next_message(c, 0)? {
                    self.miner_message(c, mi, k, v)?;
                    if self.miners[mi].conn != Some(c) {
                        break;
                    }
                }
                Ok(())
            }
        }
    }

    /// Decides about the peer, and checks the decision against the truth.
    fn judge(&mut self, c: usize, node: usize, cert: Vec<u8>) -> Outcome {
        let mi = self.conns[c].miner;
        self.set_clock(node);
        let now = self.clock(node);
        let h = self.conns[c].host;
        let s = self.conns[c].e[0].s.as_ref().unwrap();
        let Some(pk) = s.get_remote_static_public_key() else {
            return viol("no remote key after the handshake", "");
        };
        let ok = self.verifies(&cert, &pk);
        // The truth: the key at the other end, and what the authority signed.
        let live = |w: &[u8]| {
            let (a, b) = (i64::from(u32::from_le_bytes(w[2..6].try_into().unwrap())), i64::from(u32::from_le_bytes(w[6..10].try_into().unwrap())));
            a <= now && now < b
        };
        let held = self.conns[c].holds;
        let certified = self.issued.iter().any(|i| i.key == held && live(&i.wire));
        let exact = self.issued.iter().any(|i| i.key == held && i.wire == cert && live(&i.wire));
        self.ctx.ev(&[77, c as u64, ok as u64, certified as u64]);
        self.ctx.note(|| format!("{:>9} us miner {} judges host {} kind {}: {} (clock {})", self.now, mi, h, self.hosts[h].kind, ok, now));
        if ok && (!certified || !exact || held != pk.as_bytes()) {
            return viol("a miner trusted a peer the authority does not vouch for", format!("host kind {} by clock {}: certificate {}", self.hosts[h].kind, now, crypto::hex(&cert)));
        }
        if !ok {
            if exact && held == pk.as_bytes() {
                return viol("a certified pool was refused", format!("by clock {}: certificate {}", now, crypto::hex(&cert)));
            }
            self.ctx.probe("peers_refused");
            self.give_up(mi, 0);
            return Ok(());
        }
        self.ctx.probe("peers_verified");
        let mut r = Rng::from(&[self.seed, 9, c as u64]);
        let mut v = wire::gen(K::SetupMining, &mut r, false);
        let odd = self.miners[mi].picky && self.now < STOP;
        v[1] = V::N(if odd && r.chance(1, 2) { 3 } else { 2 });
        v[2] = V::N(3);
        v[3] = V::N(if odd { v[3].n() } else { v[3].n() & 3 });
        let e = &mut self.conns[c].e[0];
        e.ph = Ph::Setup;
        e.setup = v.clone();
        e.wait = self.now + 10 * S;
        self.queue(c, 0, K::SetupMining, v)
    }

    fn miner_message(&mut self, c: usize, mi: usize, k: K, v: Vec<V>) -> Outcome {
        let now = self.now;
        let e = &mut self.conns[c].e[0];
        match k {
            K::MinSuccess | K::MinError => {
                if e.ph != Ph::Setup || setup_answer(&e.setup) != (k, v.clone()) {
                    return viol("answer does not pair with its request", format!("{:?} {:?} in {:?}", k, v, e.ph));
                }
                if k == K::MinError {
                    self.ctx.probe("setup_refused");
                    self.miners[mi].picky = false;
                    self.give_up(mi, 1);
                    return Ok(());
                }
                e.ph = Ph::Open;
                e.wait = u64::MAX;
                self.request(c, mi)?;
            }
            K::OpenStdOk | K::OpenStdErr | K::OpenExtOk | K::OpenExtErr => {
                let id = v[0].n() as u32;
                let Some((rk, rv)) = e.reqs.remove(&id) else {
                    return viol("answer does not pair with its request", format!("{:?} for request {} which is not outstanding", k, id));
                };
                let ok = matches!(k, K::OpenStdOk | K::OpenExtOk);
                let chan = if ok { v[1].n() as u32 } else { 0 };
                if open_answer(rk, &rv, chan) != (k, v.clone()) {
                    return viol("answer does not pair with its request", format!("{:?} {:?} to {:?} {:?}", k, v, rk, rv));
                }
                e.wait = if e.reqs.is_empty() { u64::MAX } else { now + 10 * S };
                self.ctx.probe("requests_answered");
                if ok {
                    e.chans.push(chan);
                    let m = &mut self.miners[mi];
                    m.chan = Some(chan);
                    m.answered = now;
                    m.fails = 0;
                    if now >= STOP {
                        self.unsat[mi] = false;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn request(&mut self, c: usize, mi: usize) -> Outcome {
        let n = 1 + self.r.below(4);
        for _ in 0..n {
            let k = *self.r.clone().pick(&[K::OpenStd, K::OpenStd, K::OpenExt]);
            let mut r = Rng::new(self.r.u64());
            if !self.conns[c].e[0].chans.is_empty() && self.r.chance(1, 3) {
                let mut v = wire::gen(K::Update, &mut r, false);
                let ch = self.conns[c].e[0].chans[0];
                v[0] = V::N(ch as u64);
                self.queue(c, 0, K::Update, v)?;
            }
            let mut v = wire::gen(k, &mut r, false);
            let id = self.miners[mi].req;
            self.miners[mi].req = id.wrapping_add(1);
            v[0] = V::N(id as u64);
            if k == K::OpenStd {
                v[1] = V::B(if r.chance(1, 5) { b"x-unknown".to_vec() } else { wire::text(&mut r, 12).into_iter().map(|b| if b == b'x' { b'y' } else { b }).collect() });
            } else {
                v[4] = V::N(r.below(40));
            }
            let e = &mut self.conns[c].e[0];
            e.reqs.insert(id, (k, v.clone()));
            if e.wait == u64::MAX {
                e.wait = self.now + 10 * S;
            }
            self.queue(c, 0, k, v)?;
        }
        Ok(())
    }

    fn give_up(&mut self, mi: usize, soft: u64) {
        if let Some(c) = self.miners[mi].conn.take() {
            self.close(c, 0);
        }
        let m = &mut self.miners[mi];
        m.chan = None;
        if soft == 0 {
            m.at = (m.at + 1) % m.list.len();
            m.fails = (m.fails + 1).min(4);
        }
        let back = S * (1 << m.fails) / 4;
        m.due = self.now + self.r.below(back + 1);
    }

    fn miner_tick(&mut self, mi: usize, epoch: u64) -> Outcome {
        if !self.miners[mi].up || self.miners[mi].epoch != epoch {
            return Ok(());
        }
        match self.miners[mi].conn {
            None if self.now >= self.miners[mi].due => {
                let h = self.miners[mi].list[self.miners[mi].at];
                let k = self.hosts[h].kind;
                let proxy = k == 6;
                let target = if proxy { self.hosts[h].pool } else { h };
                if self.hosts[target].kind == 0 && !self.pools[self.hosts[target].pool].up {
                    self.ctx.probe("connection_refused");
                    self.give_up(mi, 0);
                } else {
                    let mut tamper = VecDeque::new();
                    if proxy && self.now < STOP {
                        let mut r = Rng::from(&[self.hosts[h].tag, self.conns.len() as u64]);
                        for _ in 0..r.below(3) {
                            tamper.push_back((r.below(8) as i64, r.u64() >> 1));
                        }
                    }
                    let c = self.conns.len();
                    let mut e0 = End::new();
                    e0.alive = true;
                    e0.s = Some(new_noise_initiator());
                    e0.peer = Some(Peer::new(ConnectionEncryptor::new_outbound()));
                    e0.wait = self.now + 10 * S;
                    let mut a = vec![0u8; 32 + [0, 0, 16, 100][self.r.below(4) as usize]];
                    if let Err(x) = e0.s.as_mut().unwrap().send_message(&mut a) {
                        return viol("untampered handshake failed", format!("initiator, message A of {} bytes: {}", a.len(), x));
                    }
                    e0.ph = Ph::B;
                    self.conns.push(Conn {
                        miner: mi,
                        host: target,
                        epoch: None,
                        e: [e0, End::new()],
                        q: [VecDeque::new(), VecDeque::new()],
                        last: [0; 2],
                        stall: [0; 2],
                        tamper,
                        held: [None, None],
                        old: vec![],
                        touched: false,
                        holds: [0; 32],
                    });
                    self.miners[mi].conn = Some(c);
                    self.ctx.probe("connections");
                    self.record(c, 0, &a);
                }
            }
            Some(c) => {
                if self.now >= self.conns[c].e[0].wait {
                    self.ctx.probe("timeouts");
                    self.give_up(mi, 0);
                } else if self.conns[c].e[0].ph == Ph::Open && self.conns[c].e[0].reqs.is_empty() {
                    self.request(c, mi)?;
                }
            }
            _ => {}
        }
        let d = 100_000 + self.r.below(if self.miners[mi].conn.is_some() { 4 * S } else { S / 2 });
        let n = self.mnode(mi);
        self.at(self.now + d, Ev::Tick(n, epoch));
        Ok(())
    }

    // ---- faults

    fn node_down(&mut self, node: usize) {
        if node < self.pools.len() {
            let p = &mut self.pools[node];
            p.up = false;
            p.epoch += 1;
            let silent = self.r.chance(1, 2);
            for c in 0..self.conns.len() {
                let h = self.conns[c].host;
                if self.hosts[h].kind == 0 && self.hosts[h].pool == node && self.conns[c].e[1].alive {
                    if silent {
                        self.conns[c].e[1].alive = false;
                        self.conns[c].e[1].s = None;
                    } else {
                        self.close(c, 1);
                    }
                }
            }
        } else {
            let m = node - self.pools.len();
            self.miners[m].up = false;
            self.miners[m].epoch += 1;
            if let Some(c) = self.miners[m].conn.take() {
                if self.r.chance(1, 2) {
                    self.conns[c].e[0].alive = false;
                    self.conns[c].e[0].s = None;
                } else {
                    self.close(c, 0);
                }
            }
        }
    }

    fn live_conn(&self, pick: u64) -> Option<usize> {
        let v: Vec<usize> = (0..self.conns.len()).filter(|c| self.conns[*c].e[0].alive).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[pick as usize % v.len()])
        }
    }

    fn fault(&mut self, s: &Scenario, i: usize) -> Outcome {
        let st = &s.steps[i];
        let nodes = self.pools.len() + self.miners.len();
        let u = |i: usize| st.arg(i).unsigned_abs();
        let dur = |i: usize| (u(i) * 1000).min(STOP - self.now);
        self.ctx.note(|| format!("{:>9} us fault {} {:?}", self.now, st.op, st.a));
        self.ctx.ev(&[5, i as u64, self.now]);
        match st.op.as_str() {
            "crash" => {
                let node = u(1) as usize % nodes;
                let up = if node < self.pools.len() { self.pools[node].up } else { self.miners[node - self.pools.len()].up };
                if up {
                    let d = dur(2);
                    if node < self.pools.len() {
                        self.ctx.fault("pool_crash");
                        // A write under way may be torn: any prefix of it over the old content.
                        if let Some(w) = self.pools[node].pending.take() {
                            let k = u(3) as usize;
                            if k < w.len() {
                                self.ctx.fault("torn_write");
                                let old = self.pools[node].disk.clone();
                                let mut x = w[..k].to_vec();
                                x.extend_from_slice(old.get(k..).unwrap_or(&[]));
                                self.pools[node].disk = x;
                            }
                        }
                    } else {
                        self.ctx.fault("miner_crash");
                    }
                    self.node_down(node);
                    self.at(self.now + d, Ev::Up(node));
                }
            }
            "cut" => {
                let m = u(1) as usize % self.miners.len();
                let h = u(2) as usize % self.hosts.len();
                let t = self.now + dur(3);
                self.ctx.fault("partition");
                self.cuts.push((m, h, t));
            }
            "reset" => {
                if let Some(c) = self.live_conn(u(1)) {
                    self.ctx.fault("connection_reset");
                    self.conns[c].q = [VecDeque::new(), VecDeque::new()];
                    self.close(c, 0);
                    self.close(c, 1);
                    let m = self.conns[c].miner;
                    if self.miners[m].conn == Some(c) {
                        self.give_up(m, 0);
                    }
                }
            }
            "tamper" => {
                if let Some(c) = self.live_conn(u(1)) {
                    self.conns[c].tamper.push_back((st.arg(2).rem_euclid(8), u(3)));
                }
            }
            "stall" => {
                if let Some(c) = self.live_conn(u(1)) {
                    self.ctx.fault("stall");
                    let t = self.now + dur(2);
                    let d = (u(1) >> 20 & 1) as usize;
                    self.conns[c].stall[d] = t;
                }
            }
            "skew" => {
                let node = u(1) as usize % nodes;
                self.ctx.fault("clock_skew");
                self.skew[node] = st.arg(2);
                let t = self.now + dur(3);
                self.skew_until[node] = t;
                self.at(t, Ev::Heal(node));
            }
            "rotate" => {
                let p = u(1) as usize % self.pools.len();
                if self.pools[p].pending.is_none() && self.pools[p].up {
                    self.ctx.fault("key_rotation");
                    let (sk, d) = (self.pools[p].sk, self.pools[p].disk.clone());
                    self.old.push((sk, d));
                    for h in self.hosts.iter_mut().filter(|h| h.kind == 3 && h.pool == p) {
                        h.sk = sk;
                    }
                    self.node_down(p);
                    self.pools[p].rev += 1;
                    self.pools[p].sk = secret(&[self.seed, 100 + p as u64, self.pools[p].rev]);
                    self.at(self.now + 100_000, Ev::Up(p));
                }
            }
            "rot" => {
                let p = u(1) as usize % self.pools.len();
                if !self.pools[p].disk.is_empty() {
                    self.ctx.fault("disk_bit_rot");
                    let i = u(2) as usize % (self.pools[p].disk.len() * 8);
                    self.pools[p].disk[i / 8] ^= 1 << (i % 8);
                }
            }
            "iofail" => {
                let p = u(1) as usize % self.pools.len();
                self.pools[p].iofail = self.now + dur(2);
            }
            "slow" => {
                self.ctx.fault("slow_network");
                self.slow = (u(1).clamp(1, 50), self.now + dur(2));
            }
            "noauth" => {
                self.ctx.fault("authority_unreachable");
                self.noauth = self.now + dur(1);
            }
            _ => {}
        }
        Ok(())
    }
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let w = s.steps.iter().find(|t| t.op == "world").cloned();
    let g = |i: usize, d: i64| w.as_ref().map_or(d, |t| t.arg(i));
    let (np, nm) = (g(0, 1).clamp(1, 3) as usize, g(1, 1).clamp(1, 4) as usize);
    let auth = generate_authority_keypair();
    let mut wd = World {
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        r: Rng::from(&[s.seed, 1]),
        pools: vec![],
        miners: vec![],
        hosts: vec![],
        conns: vec![],
        auth_name: base58::encode_slice(&auth.public.to_bytes()),
        auth,
        rogue: generate_authority_keypair(),
        issued: vec![],
        old: vec![],
        cuts: vec![],
        skew: vec![0; np + nm],
        skew_until: vec![0; np + nm],
        slow: (1, 0),
        noauth: 0,
        lat: g(2, 5000).clamp(1, 300_000) as u64,
        frag: g(3, 0).clamp(0, 3),
        rekey: g(4, 0).clamp(0, 1000) as u64,
        life: g(5, 600).clamp(16, 1_000_000),
        inside: g(6, 0) == 1,
        seed: s.seed,
        ctx,
        unsat: vec![true; nm],
    };
    for p in 0..np {
        let sk = secret(&[s.seed, 100 + p as u64, 0]);
        wd.pools.push(Pool { up: true, epoch: 0, sk, rev: 0, disk: vec![], pending: None, iofail: 0 });
        wd.hosts.push(Host { kind: 0, pool: p, sk: [0; 32], tag: 0 });
        wd.at(0, Ev::Tick(p, 0));
    }
    for (i, t) in s.steps.iter().filter(|t| t.op == "host").take(3).enumerate() {
        let pool = t.arg(1).unsigned_abs() as usize % np;
        let kind = t.arg(0).rem_euclid(7).max(1);
        wd.hosts.push(Host { kind, pool, sk: secret(&[s.seed, 200 + i as u64]), tag: t.arg(2) as u64 });
    }
    for m in 0..nm {
        let mut list: Vec<usize> = (0..wd.hosts.len()).collect();
        for i in (1..list.len()).rev() {
            let j = wd.r.below(i as u64 + 1) as usize;
            list.swap(i, j);
        }
        let picky = wd.r.chance(1, 4);
        let req = *wd.r.clone().pick(&[0, 1, 1000, u32::MAX - 2]);
        wd.miners.push(Miner { up: true, epoch: 0, list, at: 0, fails: 0, conn: None, due: 0, req, picky, answered: 0, chan: None });
        let t = wd.r.below(S);
        wd.at(t, Ev::Tick(np + m, 0));
    }
    for (i, t) in s.steps.iter().enumerate() {
        if t.op != "world" && t.op != "host" {
            wd.at((t.arg(0).unsigned_abs() * 1000).min(STOP - 1), Ev::Fault(i));
        }
    }
    // Everything that is still wrong is put right when faults stop: durations end by then.
    let mut steps = 0u64;
    while let Some(Reverse((t, _, e))) = wd.heap.pop() {
        if t > STOP + BOUND || !wd.unsat.iter().any(|x| *x) {
            break;
        }
        wd.now = t;
        steps += 1;
        if steps > 400_000 {
            return viol("no progress", "the deployment is spinning");
        }
        match e {
            Ev::Fault(i) => wd.fault(s, i)?,
            Ev::Heal(n) => {
                if wd.now >= wd.skew_until[n] {
                    wd.skew[n] = 0;
                }
            }
            Ev::Deliver(c, d) => wd.deliver(c, d)?,
            Ev::Rst(c, end) => {
                if wd.conns[c].e[end].alive {
                    wd.conns[c].e[end].alive = false;
                    wd.conns[c].e[end].s = None;
                    let m = wd.conns[c].miner;
                    if end == 0 && wd.miners[m].conn == Some(c) {
                        wd.give_up(m, 0);
                    }
                }
            }
            Ev::Tick(n, ep) => {
                if n < np {
                    wd.pool_tick(n, ep)?;
                } else {
                    wd.miner_tick(n - np, ep)?;
                }
            }
            Ev::Flush(c, end) => wd.flush(c, end)?,
            Ev::Up(n) => {
                let t = wd.now;
                if n < np {
                    if !wd.pools[n].up {
                        wd.pools[n].up = true;
                        wd.pools[n].pending = None;
                        let ep = wd.pools[n].epoch;
                        wd.at(t, Ev::Tick(n, ep));
                    }
                } else if !wd.miners[n - np].up {
                    let m = &mut wd.miners[n - np];
                    m.up = true;
                    m.fails = 0;
                    m.due = t;
                    m.chan = None;
                    let ep = m.epoch;
                    wd.at(t, Ev::Tick(n, ep));
                }
            }
            Ev::Commit(p, ep) => {
                if wd.pools[p].up && wd.pools[p].epoch == ep {
                    if let Some(w) = wd.pools[p].pending.take() {
                        wd.pools[p].disk = w;
                    }
                }
            }
        }
    }
    let end = wd.now;
    let late: Vec<usize> = (0..nm).filter(|m| wd.unsat[*m]).collect();
    let _ = wd.miners.iter().map(|m| m.answered).max();
    let n = wd.conns.len() as u64;
    ctx.sim_ns += end * 1000;
    ctx.max("connections_in_one_run", n);
    ctx.max("events_in_one_run", steps);
    ctx.max("ms_from_end_of_faults_to_last_miner_served", end.saturating_sub(STOP) / 1000);
    if !late.is_empty() {
        return viol("a miner has no channel after faults stopped", format!("miners {:?} unserved {} s after the last fault", late, BOUND / S));
    }
    Ok(())
}
