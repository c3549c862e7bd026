//! What a node is configured with and has open reads back exactly as given.
use crate::glue::{self, L};
use crate::rng::{mix, Rng};
use crate::runner::{take_panic, Prop};
use crate::scenario::{viol, Ctx, Outcome, Scenario, Step};
use crate::sched::{self, Pre};
use crate::seams;
use crate::wire::{self, K};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use stratumv2::codec::serialize;
use stratumv2::mining::SetupConnectionFlags;
use stratumv2::network::{new_channel_id, ChanID, Channel, ChannelManager, NetworkConfig, ServerConfig};

pub const PROP: Prop = Prop {
    id: "C27",
    gen,
    exec,
    quick: 5_000,
    thorough: 400_000,
    rule: "Nodes are configured and threads of each open, copy, look up, list and close channels of several connections on several channel managers under a scheduler that preempts them at chosen machine instructions and synchronisation points; each channel must read back byte for byte as the message it was opened with, in copies too, each listing must hold what was open then on that connection of that manager and nothing else, and configurations and their copies must read back what they were given while others are changed and dropped.",
    real: "stratumv2 channel manager, channels, channel ids, messages, network and server configurations, std Mutex (single-stepped)",
    stub: "the thread scheduler and futex, OS entropy",
    assumptions: &["sequential consistency", "fewer than some thousand 32-bit channel ids do not collide by chance (a collision makes the run count for nothing)", "the C library's allocator is not preempted"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C27", 0);
    for _ in 0..r.below(4) {
        match r.below(2) {
            0 => s.push("net", &[r.tag(), wire::size(r, 400) as i64, r.below(2) as i64, r.below(5) as i64]),
            _ => s.push("server", &[r.below(8) as i64, r.below(5) as i64, r.tag()]),
        }
    }
    if idx % 23 == 0 {
        // Many channels, no threads.
        s.push("many", &[r.range(1, 3000), r.range(1, 5), r.tag()]);
    }
    let threads = r.range(1, 5);
    let ops = r.range(threads, 16);
    let conns = r.range(1, 4);
    let mgrs = r.range(1, 3);
    for _ in 0..ops {
        let t = r.below(threads as u64) as i64;
        let c = match r.below(conns as u64) as i64 {
            // Connection numbers are the caller's business.
            0 if r.chance(1, 2) => u32::MAX as i64,
            c => c,
        };
        let m = r.below(mgrs as u64) as i64;
        match r.below(8) {
            0..=3 => s.push("open", &[t, c, r.below(2) as i64, r.tag(), m]),
            4 => s.push("close", &[t, r.below(8) as i64]),
            5 => s.push("look", &[t, r.below(8) as i64]),
            _ => s.push("list", &[t, c, m]),
        }
    }
    for _ in 0..r.below(7) {
        let (op, most) = match r.below(8) {
            0..=2 => ("at_instr", 60 + ops * 300),
            3..=5 => ("at_sync", 2 + ops * 4),
            6 => ("at_new", 4 + threads * 12),
            _ => ("at_static", 4 + ops * 3),
        };
        s.push(op, &[r.range(1, most), r.below(8) as i64]);
    }
    s
}

/// A channel-opening message and its reference encoding.
fn message(kind: i64, tag: i64) -> (L, Vec<u8>) {
    let k = if kind == 0 { K::OpenStd } else { K::OpenExt };
    let mut r = Rng::from(&[tag as u64, 0x27]);
    loop {
        let v = wire::gen(k, &mut r, false);
        if wire::rules(k, &v) {
            if let Ok(l) = glue::build(k, &v) {
                return (l, wire::encode(k, &v));
            }
        }
    }
}

fn channel(kind: i64, tag: i64, id: ChanID) -> Option<(Channel, Vec<u8>)> {
    Some(match message(kind, tag) {
        (L::Std(channel), b) => (Channel::StandardMiningChannel { id, channel }, b),
        (L::Ext(channel), b) => (Channel::ExtendedMiningChannel { id, channel }, b),
        _ => return None,
    })
}

/// The id, kind and encoding a channel shows.
fn shown(c: &Channel) -> (ChanID, i64, Vec<u8>) {
    match c {
        Channel::StandardMiningChannel { id, channel } => (*id, 0, serialize(channel).unwrap_or_default()),
        Channel::ExtendedMiningChannel { id, channel } => (*id, 1, serialize(channel).unwrap_or_default()),
    }
}

struct Done {
    inv: u64,
    res: u64,
    mgr: usize,
    conn: u32,
    what: What,
}
enum What {
    Open(ChanID, i64, Vec<u8>),
    Close(ChanID),
    Found(ChanID, Option<(ChanID, i64, Vec<u8>)>),
    List(Vec<(ChanID, (ChanID, i64, Vec<u8>))>),
}

#[derive(Default)]
struct Hist {
    clock: u64,
    ops: Vec<Done>,
    bad: Option<(String, String)>,
}

fn configs(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let (mut nets, mut servers): (Vec<(NetworkConfig, String, bool)>, Vec<(ServerConfig, u32)>) = (vec![], vec![]);
    for st in &s.steps {
        match st.op.as_str() {
            "net" => {
                let mut r = Rng::from(&[st.arg(0) as u64, 3]);
                let a = String::from_utf8_lossy(&wire::text(&mut r, st.arg(1).clamp(0, 2000) as usize)).to_string();
                let b = st.arg(2) == 1;
                let mut c = NetworkConfig::new(a.clone(), b);
                for i in 0..st.arg(3).clamp(0, 8) {
                    let mut d = c.clone();
                    // A changed or dropped copy is no business of the others.
                    match i % 3 {
                        0 => d.listening_addr.push('x'),
                        1 => {
                            nets.push((c, a.clone(), b));
                            c = d;
                            continue;
                        }
                        _ => d.local_network_encryption = !b,
                    }
                    drop(d);
                }
                nets.push((c, a, b));
                ctx.probe("network_configs");
            }
            "server" => {
                // As the flags of this or another node came in.
                let Some(f) = SetupConnectionFlags::from_bits(st.arg(0).rem_euclid(8) as u32) else { continue };
                servers.push((ServerConfig::new(f), f.bits()));
                ctx.probe("server_configs");
            }
            _ => {}
        }
        for (c, a, b) in &nets {
            if c.listening_addr != *a || c.local_network_encryption != *b {
                return viol("a network configuration is not what was given", format!("{:?} {} instead of {:?} {}", c.listening_addr, c.local_network_encryption, a, b));
            }
        }
        for (c, f) in &servers {
            if c.mining_flags.bits() != *f {
                return viol("a server configuration is not what was given", format!("{:#x} instead of {:#x}", c.mining_flags.bits(), f));
            }
        }
    }
    ctx.ev(&[nets.len() as u64, servers.len() as u64]);
    Ok(())
}

fn many(st: &Step, ctx: &mut Ctx) -> Outcome {
    let (m, other) = (ChannelManager::new(), ChannelManager::new());
    let conns = st.arg(1).clamp(1, 8) as u64;
    let mut want: HashMap<(u32, ChanID), (i64, i64)> = HashMap::new();
    for i in 0..st.arg(0).clamp(1, 20_000) {
        let id = new_channel_id();
        let conn = mix(&[i as u64, 5]) % conns;
        let tag = st.arg(2).wrapping_add(i / 7);
        let Some((c, _)) = channel(i % 2, tag, id) else { continue };
        if want.insert((conn as u32, id), (i % 2, tag)).is_some() {
            return Ok(());
        }
        m.channels.lock().unwrap().entry(conn as u32).or_default().insert(id, c);
        if i % 5 == 0 {
            want.remove(&(conn as u32, id));
            if m.channels.lock().unwrap().get_mut(&(conn as u32)).and_then(|h| h.remove(&id)).is_none() {
                return viol("an open channel was not found", format!("channel {} of {}", i, id));
            }
        }
    }
    let g = m.channels.lock().unwrap();
    let n: usize = g.values().map(|h| h.len()).sum();
    if n != want.len() {
        return viol("the open channels are not what was opened", format!("{} instead of {}", n, want.len()));
    }
    for ((conn, id), (kind, tag)) in &want {
        let got = g.get(conn).and_then(|h| h.get(id)).map(|c| shown(&c.clone()));
        let w = (*id, *kind, message(*kind, *tag).1);
        if got.as_ref() != Some(&w) {
            return viol("a channel is not what it was opened with", format!("{:?} instead of {:?}", got, w));
        }
    }
    if !other.channels.lock().unwrap().is_empty() {
        return viol("a channel showed on another manager", String::new());
    }
    ctx.max("channels_open", n as u64);
    Ok(())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    configs(s, ctx)?;
    for st in s.steps.iter().filter(|t| t.op == "many") {
        many(st, ctx)?;
    }
    let mgrs: Vec<Arc<ChannelManager>> = (0..2).map(|_| Arc::new(ChannelManager::new())).collect();
    let hist = Arc::new(Mutex::new(Hist::default()));
    let mut progs: Vec<Vec<Step>> = vec![];
    let mut plan = vec![];
    for st in &s.steps {
        match st.op.as_str() {
            "open" | "close" | "look" | "list" => {
                let t = (st.arg(0).unsigned_abs() % sched::MAX as u64) as usize;
                while progs.len() <= t {
                    progs.push(vec![]);
                }
                progs[t].push(st.clone());
            }
            "at_instr" | "at_sync" | "at_static" | "at_new" => plan.push(Pre { kind: ["at_instr", "at_sync", "at_static", "at_new"].iter().position(|x| *x == st.op).unwrap_or(0) as u8, at: st.arg(0).max(1) as u64, to: st.arg(1).unsigned_abs(), used: false }),
            _ => {}
        }
    }
    if progs.is_empty() || progs.iter().map(|p| p.len()).sum::<usize>() > 60 {
        return Ok(());
    }
    let seam = seams::with(|s| *s);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, prog) in progs.into_iter().enumerate() {
        let (mgrs, hist) = (mgrs.clone(), hist.clone());
        bodies.push(Box::new(move || {
            seams::with(|s| {
                *s = seam;
                s.ent_seed = mix(&[seam.ent_seed, t as u64, 0x27]);
            });
            // What this thread has opened and not closed.
            let mut mine: Vec<(usize, u32, ChanID)> = vec![];
            for st in prog {
                let stamp = || {
                    let mut h = hist.lock().unwrap();
                    h.clock += 1;
                    h.clock
                };
                let pick = |m: &Vec<(usize, u32, ChanID)>| if m.is_empty() { None } else { Some(st.arg(1).unsigned_abs() as usize % m.len()) };
                let (mut mgr, mut conn) = ((st.arg(2).unsigned_abs() % 2) as usize, st.arg(1) as u32);
                let inv = stamp();
                let what = match st.op.as_str() {
                    "open" => {
                        mgr = (st.arg(4).unsigned_abs() % 2) as usize;
                        let id = new_channel_id();
                        let Some((c, b)) = channel(st.arg(2) & 1, st.arg(3), id) else { continue };
                        mine.push((mgr, conn, id));
                        sched::stepped(|| {
                            let c2 = c.clone();
                            drop(c);
                            mgrs[mgr].channels.lock().unwrap().entry(conn).or_default().insert(id, c2);
                        })
                        .map(|_| What::Open(id, st.arg(2) & 1, b))
                    }
                    "close" => {
                        let Some(i) = pick(&mine) else { continue };
                        let (m, c, id) = mine.remove(i);
                        (mgr, conn) = (m, c);
                        sched::stepped(|| {
                            if let Some(h) = mgrs[m].channels.lock().unwrap().get_mut(&c) {
                                h.remove(&id);
                            }
                        })
                        .map(|_| What::Close(id))
                    }
                    "look" => {
                        let Some(i) = pick(&mine) else { continue };
                        let (m, c, id) = mine[i];
                        (mgr, conn) = (m, c);
                        sched::stepped(|| mgrs[m].channels.lock().unwrap().get(&c).and_then(|h| h.get(&id)).cloned()).map(|r| What::Found(id, r.as_ref().map(shown)))
                    }
                    _ => sched::stepped(|| mgrs[mgr].channels.lock().unwrap().get(&conn).cloned()).map(|r| What::List(r.unwrap_or_default().iter().map(|(k, c)| (*k, shown(c))).collect())),
                };
                let res = stamp();
                let mut h = hist.lock().unwrap();
                let Some(what) = what else {
                    h.bad.get_or_insert(("panic in a channel operation".into(), take_panic().unwrap_or_default().1));
                    break;
                };
                h.ops.push(Done { inv, res, mgr, conn, what });
            }
            seams::with(|s| *s = seams::OFF);
        }));
    }
    let rep = sched::run(s.seed, &plan, 4_000_000, bodies);
    ctx.ev(&[rep.digest, rep.steps, rep.syncs]);
    ctx.faults("preemption", rep.preempts);
    ctx.faults("blocked_on_lock", rep.blocks);
    ctx.sim_ns += rep.steps;
    match rep.fatal {
        1 => return viol("deadlock", format!("no thread can run after {} steps", rep.steps)),
        2 => return viol("no progress", format!("threads still running after {} steps", rep.steps)),
        _ => {}
    }
    let mut h = hist.lock().unwrap();
    if let Some((c, d)) = h.bad.take() {
        return viol(&c, d);
    }
    // When each channel was opened and closed.
    let mut life: HashMap<ChanID, (u64, u64, u64, u64, usize, u32, i64, Vec<u8>)> = HashMap::new();
    for d in &h.ops {
        if let What::Open(id, kind, b) = &d.what {
            if life.insert(*id, (d.inv, d.res, u64::MAX, u64::MAX, d.mgr, d.conn, *kind, b.clone())).is_some() {
                return Ok(());
            }
            ctx.probe("channels_opened");
        }
    }
    for d in &h.ops {
        if let What::Close(id) = &d.what {
            if let Some(l) = life.get_mut(id) {
                (l.2, l.3) = (d.inv, d.res);
            }
        }
    }
    let same = |id: &ChanID, got: &(ChanID, i64, Vec<u8>)| -> Outcome {
        let Some(l) = life.get(id) else { return viol("a channel nobody opened", format!("{}", id)) };
        if got.0 != *id || got.1 != l.6 || got.2 != l.7 {
            return viol("a channel is not what it was opened with", format!("{:?} instead of {:?}", got, (id, l.6, &l.7)));
        }
        Ok(())
    };
    for d in &h.ops {
        ctx.ev(&[d.inv, d.res, d.mgr as u64, d.conn as u64]);
        match &d.what {
            What::Found(id, Some(g)) => same(id, g)?,
            What::Found(id, None) => return viol("an open channel was not found", format!("{}", id)),
            What::List(v) => {
                for (id, g) in v {
                    same(id, g)?;
                    let l = &life[id];
                    if l.4 != d.mgr || l.5 != d.conn || l.0 > d.res || l.3 < d.inv {
                        return viol("a channel was listed where it was not open", format!("{}", id));
                    }
                }
                let missing = life.iter().find(|(id, l)| l.4 == d.mgr && l.5 == d.conn && l.1 < d.inv && l.2 > d.res && !v.iter().any(|(k, _)| k == *id));
                if let Some((id, _)) = missing {
                    return viol("an open channel was not listed", format!("{}", id));
                }
                if v.len() > 1 {
                    ctx.probe("long_listings");
                }
            }
            _ => {}
        }
    }
    if rep.blocks > 0 {
        ctx.probe("contended_runs");
    }
    Ok(())
}
