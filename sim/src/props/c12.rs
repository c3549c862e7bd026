//! Queued outgoing messages are drained exactly once and in order.
use crate::rng::{mix, Rng};
use crate::runner::{take_panic, Prop};
use crate::scenario::{viol, Ctx, Outcome, Scenario};
use crate::sched::{self, Pre};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use stratumv2::codec::Message;
use stratumv2::network::{ConnectionEncryptor, Peer};
use stratumv2::types::MessageType;

pub const PROP: Prop = Prop {
    id: "C12",
    gen,
    exec,
    quick: 5_000,
    thorough: 600_000,
    rule: "Threads queue and drain messages on one connection under a scheduler that preempts them at chosen machine instructions and synchronisation points (all blocking simulated); the recorded history must be linearizable to a queue whose drain takes everything, nothing may be left or lost, and no state without a runnable thread may be reached.",
    real: "stratumv2 Peer queue and drain, std Mutex (its own code, single-stepped)",
    stub: "the thread scheduler and futex",
    assumptions: &["sequential consistency: exactly one thread executes at a time, so weak-memory reorderings are not explored", "the C library's allocator is not preempted"],
};

fn gen(r: &mut Rng, idx: u64, _t: bool) -> Scenario {
    let mut s = Scenario::new("C12", 0);
    let threads = r.range(2, 5);
    let ops = r.range(threads, 13);
    if r.chance(1, 3) {
        // Already in the queue when the threads start.
        s.push("fill", &[*r.pick(&[1, 2, 3, 4, 5, 8, 16, 17, 64, 65, 255, 256, 257, 1000])]);
    }
    if r.chance(1, 4) {
        // Long queues of repeating messages, before any thread starts.
        let k = r.range(1, 4);
        for _ in 0..r.range(1, 4) {
            let big = idx % 97 == 0;
            s.push("bulk", &[if big { r.range(4000, 140_000) } else { r.range(0, 3000) }, k]);
        }
    }
    if r.chance(1, 400) {
        // Few, but as large as a message can be, or many of a usual size.
        match r.below(3) {
            0 => s.push("bulk", &[r.range(1, 5), r.range(1, 4), r.range(1 << 20, 1 << 23)]),
            1 => s.push("bulk", &[r.range(50, 400), 3, r.range(1 << 14, 1 << 16)]),
            _ => s.push("bulk", &[r.range(2000, 20_000), 4, r.range(50, 500)]),
        }
    }
    let drainer = r.below(4);
    for _ in 0..ops {
        let t = r.below(threads as u64) as i64;
        // Some runs have a dedicated drain thread, as a connection would.
        let drain = if drainer == 0 { t == 0 } else { r.chance(2, 5) };
        if drain {
            s.push("drain", &[t]);
        } else {
            s.push("push", &[t, if r.chance(1, 4) { r.range(2, 6) } else { 1 }, r.below(40) as i64]);
        }
    }
    for _ in 0..r.below(9) {
        let (op, most) = match r.below(8) {
            0..=2 => ("at_instr", 60 + ops * 150),
            3..=5 => ("at_sync", 2 + ops * 4),
            6 => ("at_new", 4 + threads * 12),
            _ => ("at_static", 4 + ops * 3),
        };
        s.push(op, &[r.range(1, most), r.below(8) as i64]);
    }
    s
}

#[derive(Clone, Debug)]
struct Op {
    thread: u64,
    inv: u64,
    res: u64,
    /// Message ids queued, or returned by a drain.
    drain: bool,
    ids: Vec<u64>,
}

#[derive(Default)]
struct Hist {
    clock: u64,
    ops: Vec<Op>,
    bad: Option<(String, String)>,
}

fn msg(seed: u64, id: u64, len: usize) -> Message {
    let mut p = id.to_le_bytes().to_vec();
    p.extend_from_slice(&Rng::from(&[seed, id]).bytes(len));
    let t = if id % 2 == 0 { MessageType::SetupConnection } else { MessageType::OpenStandardMiningChannel };
    Message::new(t, p)
}

/// Is there an order of the operations, consistent with real time, in which each drain
/// returns exactly what is queued?
fn linearizable(ops: &[Op]) -> bool {
    fn go(ops: &[Op], done: u64, queue: &mut Vec<u64>, seen: &mut HashSet<u64>) -> bool {
        if done.count_ones() as usize == ops.len() {
            return true;
        }
        let key = {
            let mut k = vec![done];
            k.extend_from_slice(queue);
            mix(&k)
        };
        if !seen.insert(key) {
            return false;
        }
        // An operation may come next if no other outstanding one had ended before it began.
        let first_end = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.res).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if done >> i & 1 == 1 || o.inv > first_end {
                continue;
            }
            if o.drain {
                if *queue != o.ids {
                    continue;
                }
                let keep = std::mem::take(queue);
                if go(ops, done | 1 << i, queue, seen) {
                    return true;
                }
                *queue = keep;
            } else {
                let l = queue.len();
                queue.extend_from_slice(&o.ids);
                if go(ops, done | 1 << i, queue, seen) {
                    return true;
                }
                queue.truncate(l);
            }
        }
        false
    }
    go(ops, 0, &mut vec![], &mut HashSet::new())
}

fn exec(s: &Scenario, ctx: &mut Ctx) -> Outcome {
    let peer = Arc::new(Peer::new(ConnectionEncryptor::new_inbound(None)));
    let hist = Arc::new(Mutex::new(Hist::default()));
    let seed = s.seed;
    let mut next_id = 0u64;
    let mut lens: Vec<usize> = vec![];
    let mut fresh = |n: i64, len: i64| -> Vec<u64> {
        (0..n.clamp(1, 5000))
            .map(|_| {
                lens.push(len.clamp(0, 200) as usize);
                next_id += 1;
                next_id - 1
            })
            .collect()
    };
    for st in s.steps.iter().filter(|t| t.op == "bulk") {
        // Messages here repeat on purpose: each queued copy is one message.
        let mut rr = Rng::from(&[seed, st.arg(0) as u64, 77]);
        let kinds = st.arg(1).clamp(1, 8) as u64;
        let want: Vec<Message> = (0..st.arg(0).clamp(0, 200_000)).map(|_| msg(7, rr.below(kinds), st.arg(2).clamp(2, 1 << 24) as usize)).collect();
        peer.pending_msg_buffer.lock().unwrap().extend(want.iter().cloned());
        ctx.max("longest_queue", want.len() as u64);
        ctx.max("most_bytes_queued", want.iter().map(|m| m.payload.len() as u64).sum());
        let got = peer.get_pending_msgs();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b);
            return viol("a drain differs from what was queued", format!("{} queued, {} drained, first difference {:?}", want.len(), got.len(), at));
        }
        if !peer.get_pending_msgs().is_empty() {
            return viol("a message was drained twice", format!("after a drain of {} messages", want.len()));
        }
    }
    let mut progs: Vec<Vec<Option<(Vec<u64>, usize)>>> = vec![];
    let mut plan = vec![];
    for st in &s.steps {
        let t = (st.arg(0).unsigned_abs() % sched::MAX as u64) as usize;
        match st.op.as_str() {
            "fill" => {
                for id in fresh(st.arg(0), 3) {
                    let ids = vec![id];
                    peer.pending_msg_buffer.lock().unwrap().push(msg(seed, id, 3));
                    let mut h = hist.lock().unwrap();
                    if h.ops.is_empty() {
                        h.ops.push(Op { thread: 99, inv: 1, res: 2, drain: false, ids });
                        h.clock = 2;
                    } else {
                        h.ops[0].ids.extend(ids);
                    }
                }
            }
            "push" | "drain" => {
                while progs.len() <= t {
                    progs.push(vec![]);
                }
                progs[t].push(if st.op == "push" { Some((fresh(st.arg(1).min(20), st.arg(2)), st.arg(2).clamp(0, 200) as usize)) } else { None });
            }
            "at_instr" | "at_sync" | "at_static" | "at_new" => plan.push(Pre { kind: ["at_instr", "at_sync", "at_static", "at_new"].iter().position(|x| *x == st.op).unwrap_or(0) as u8, at: st.arg(0).max(1) as u64, to: st.arg(1).unsigned_abs(), used: false }),
            _ => {}
        }
    }
    if progs.iter().map(|p| p.len()).sum::<usize>() > 50 {
        return Ok(());
    }
    if progs.is_empty() {
        return Ok(());
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, prog) in progs.into_iter().enumerate() {
        let (peer, hist) = (peer.clone(), hist.clone());
        bodies.push(Box::new(move || {
            for o in prog {
                // Not preempted outside `stepped`: recording is the controller's business.
                let stamp = || {
                    let mut h = hist.lock().unwrap();
                    h.clock += 1;
                    h.clock
                };
                match o {
                    Some((ids, len)) => {
                        let msgs: Vec<Message> = ids.iter().map(|i| msg(seed, *i, len)).collect();
                        let inv = stamp();
                        let r = sched::stepped(|| {
                            let mut q = peer.pending_msg_buffer.lock().unwrap();
                            for m in msgs {
                                q.push(m);
                            }
                        });
                        let res = stamp();
                        let mut h = hist.lock().unwrap();
                        if r.is_none() {
                            h.bad.get_or_insert(("panic while queueing".into(), take_panic().unwrap_or_default().1));
                            return;
                        }
                        h.ops.push(Op { thread: t as u64, inv, res, drain: false, ids });
                    }
                    None => {
                        let inv = stamp();
                        let r = sched::stepped(|| peer.get_pending_msgs());
                        let res = stamp();
                        let mut h = hist.lock().unwrap();
                        let Some(got) = r else {
                            h.bad.get_or_insert(("panic while draining".into(), take_panic().unwrap_or_default().1));
                            return;
                        };
                        let mut ids = vec![];
                        for m in &got {
                            let mut b = [0u8; 8];
                            b[..m.payload.len().min(8)].copy_from_slice(&m.payload[..m.payload.len().min(8)]);
                            let id = u64::from_le_bytes(b);
                            if m.payload.len() < 8 || *m != msg(seed, id, m.payload.len() - 8) {
                                h.bad.get_or_insert(("a drained message was altered".into(), format!("{:?}", m)));
                            }
                            ids.push(id);
                        }
                        h.ops.push(Op { thread: t as u64, inv, res, drain: true, ids });
                    }
                }
            }
        }));
    }
    let rep = sched::run(seed, &plan, 3_000_000, bodies);
    ctx.ev(&[rep.digest, rep.steps, rep.syncs]);
    ctx.faults("preemption", rep.preempts);
    ctx.faults("blocked_on_lock", rep.blocks);
    ctx.max("machine_steps", rep.steps);
    ctx.sim_ns += rep.steps;
    match rep.fatal {
        1 => return viol("deadlock", format!("no thread can run after {} steps", rep.steps)),
        2 => return viol("no progress", format!("threads still running after {} steps", rep.steps)),
        _ => {}
    }
    if let Some((c, d)) = hist.lock().unwrap().bad.take() {
        return viol(&c, d);
    }
    // What is left, then whether the queue still works.
    let mut ops = hist.lock().unwrap().ops.clone();
    let ids = |v: Vec<Message>| -> Vec<u64> { v.iter().map(|m| u64::from_le_bytes(m.payload[..8].try_into().unwrap())).collect() };
    let left = ids(peer.get_pending_msgs());
    let again = ids(peer.get_pending_msgs());
    let t = hist.lock().unwrap().clock;
    ops.push(Op { thread: 98, inv: t + 1, res: t + 2, drain: true, ids: left });
    ops.push(Op { thread: 98, inv: t + 3, res: t + 4, drain: true, ids: again });
    let last = next_id;
    peer.pending_msg_buffer.lock().unwrap().push(msg(seed, last, 1));
    ops.push(Op { thread: 98, inv: t + 5, res: t + 6, drain: false, ids: vec![last] });
    let end = ids(peer.get_pending_msgs());
    ops.push(Op { thread: 98, inv: t + 7, res: t + 8, drain: true, ids: end });
    let mut count = vec![0u64; last as usize + 1];
    for o in &ops {
        ctx.ev(&[o.thread, o.inv, o.res, o.drain as u64, o.ids.len() as u64, o.ids.first().copied().unwrap_or(9999)]);
        ctx.note(|| format!("thread {} [{}..{}] {} {:?}", o.thread, o.inv, o.res, if o.drain { "drained" } else { "queued" }, o.ids));
        if o.drain {
            for i in &o.ids {
                match count.get_mut(*i as usize) {
                    Some(c) => *c += 1,
                    None => return viol("a drain returned a message never queued", format!("{}", i)),
                }
            }
        }
    }
    if let Some(i) = count.iter().position(|c| *c > 1) {
        return viol("a message was drained twice", format!("message {}", i));
    }
    if let Some(i) = count.iter().position(|c| *c == 0) {
        return viol("a queued message was never drained", format!("message {}", i));
    }
    if !linearizable(&ops) {
        return viol("drains are not in order", format!("{:?}", ops.iter().filter(|o| o.ids.len() < 20).collect::<Vec<_>>()));
    }
    let nonempty = ops.iter().filter(|o| o.drain && !o.ids.is_empty()).count();
    if nonempty > 1 {
        ctx.probe("several_productive_drains");
    }
    if rep.blocks > 0 {
        ctx.probe("contended_runs");
    }
    Ok(())
}
