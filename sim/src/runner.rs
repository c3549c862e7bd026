//! Runs scenarios: one fresh thread per run with the seams switched on, worker
//! processes for isolation, confirmation in a fresh process, minimisation, evidence.
use crate::rng::{mix, mix_str, Rng};
use crate::scenario::{Ctx, Outcome, Scenario, Violation};
use crate::seams;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> Scenario,
    pub exec: fn(&Scenario, &mut Ctx) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const LIMIT_S: f64 = 100.0;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        let msg = format!("{} at {}", i.payload_as_str().unwrap_or("?"), i.location().map(|l| l.to_string()).unwrap_or_default());
        if let Ok(mut g) = LAST_PANIC.lock() {
            if g.is_none() {
                *g = Some((loc, msg));
            }
        }
    }));
}

/// Takes the location and text of the first panic since the last call.
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.lock().ok().and_then(|mut g| g.take())
}

pub const DEFAULT_CLOCK: i64 = 1_700_000_000;

/// Switches the calling thread's seams on for the scenario.
pub fn arm_seams(seed: u64) {
    let d = mix(&[seed, 0xA11]);
    seams::with(|s| {
        *s = seams::OFF;
        s.ent_seed = mix(&[seed, 0xE27]);
        s.ent_eintr = [0, 0, 10, 40][(d & 3) as usize];
        s.ent_short = [0, 0, 10, 60][((d >> 2) & 3) as usize];
        s.secs = DEFAULT_CLOCK;
        s.active = true;
    });
}

/// Executes one scenario; a pure function of it and of the code under test.
pub fn execute(p: &Prop, scn: &Scenario, trace: bool) -> (Outcome, Ctx) {
    take_panic();
    let exec = p.exec;
    let scn2 = scn.clone();
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let mut ctx = Ctx::default();
            if trace {
                ctx.trace = Some(vec![]);
            }
            arm_seams(scn2.seed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&scn2, &mut ctx)));
            let s = seams::with(|s| {
                s.active = false;
                *s
            });
            ctx.faults("entropy_read_interrupted", s.n_eintr);
            ctx.faults("entropy_read_short", s.n_short);
            ctx.faults("entropy_read_failed", s.n_out);
            (r, ctx)
        })
        .expect("spawn");
    match h.join() {
        // The genuine handshake a run needs before it can judge its own property did not
        // come about: C07 and C14 judge that, everything else has nothing to judge.
        Ok((Ok(Err(v)), mut c)) if v.class == "handshake setup" => {
            c.probe("nothing_to_judge_handshake_failed");
            (Ok(()), c)
        }
        Ok((Ok(o), c)) => (o, c),
        Ok((Err(_), c)) => {
            let (file, msg) = take_panic().unwrap_or_default();
            if file.starts_with("src/") {
                eprintln!("internal error: the harness panicked: {}\n{}", msg, scn.to_json());
                std::process::exit(2);
            }
            let short = file.rsplit('/').next().unwrap_or("").to_string();
            (Err(Violation { class: format!("panic in {}", short), detail: msg }), c)
        }
        Err(_) => {
            eprintln!("internal error: run thread died");
            std::process::exit(2);
        }
    }
}

pub fn scenario(p: &Prop, seed: u64, idx: u64, thorough: bool) -> Scenario {
    let s = mix(&[seed, mix_str(p.id), idx]);
    let mut r = Rng::new(s);
    let mut scn = (p.gen)(&mut r, idx, thorough);
    scn.prop = p.id.into();
    scn.seed = mix(&[s, 1]) >> 1;
    scn
}

fn map_progress(path: &Path) -> *mut u64 {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress");
    f.set_len(16).expect("progress");
    use std::os::fd::AsRawFd;
    unsafe {
        libc::mmap(std::ptr::null_mut(), 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) as *mut u64
    }
}

fn viol_json(scn: &Scenario, v: &Violation, idx: u64) -> Value {
    let mut j = scn.to_json();
    j["class"] = json!(v.class);
    j["detail"] = json!(v.detail);
    j["index"] = json!(idx);
    j
}

/// The run that worker w of n performs in round b: a permutation of each round, so that
/// expensive kinds of run spread over the workers.
fn run_of(w: u64, n: u64, b: u64) -> u64 {
    b * n + (w + mix(&[b]) % n) % n
}

pub fn worker(p: &Prop, seed: u64, thorough: bool, w: u64, n: u64, total: u64, cap_s: f64, dir: &Path) -> i32 {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let prog = map_progress(&dir.join(format!("p{}", w)));
    let t0 = seams::real_now();
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut runs, mut events, mut sim_ns, mut rechecks, mut mismatches) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut digests: Vec<u8> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut violation = Value::Null;
    let mut truncated = false;
    for b in 0..total.div_ceil(n) {
        let i = run_of(w, n, b);
        if i >= total {
            continue;
        }
        if runs % 16 == 0 && seams::real_now() - t0 > cap_s {
            truncated = true;
            break;
        }
        let scn = scenario(p, seed, i, thorough);
        unsafe {
            std::ptr::write_volatile(prog, i + 1);
        }
        let (o, c) = execute(p, &scn, false);
        runs += 1;
        events += c.events;
        sim_ns += c.sim_ns;
        for (k, v) in &c.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &c.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in &c.maxes {
            let e = maxes.entry(k).or_insert(0);
            *e = (*e).max(*v);
        }
        if c.events > 0 && c.faults.keys().any(|k| !k.starts_with("entropy_read")) {
            digests.extend_from_slice(&c.digest.to_le_bytes());
        }
        if samples.len() < 2 && scn.steps.len() > 2 && scn.steps.len() < 14 {
            samples.push(scn.to_json());
        }
        if let Err(v) = o {
            violation = viol_json(&scn, &v, i);
            break;
        }
        if repeated(runs) {
            let (o2, c2) = execute(p, &scn, false);
            rechecks += 1;
            if o2.is_err() || c2.digest != c.digest || c2.events != c.events {
                mismatches += 1;
            }
        }
    }
    let out = json!({"runs": runs, "events": events, "sim_ns": sim_ns.to_string(), "rechecks": rechecks, "mismatches": mismatches,
        "faults": faults, "probes": probes, "maxes": maxes, "samples": samples, "violation": violation, "truncated": truncated});
    std::fs::write(dir.join(format!("d{}", w)), &digests).expect("digests");
    std::fs::write(dir.join(format!("r{}.tmp", w)), out.to_string()).expect("report");
    std::fs::rename(dir.join(format!("r{}.tmp", w)), dir.join(format!("r{}", w))).expect("report");
    0
}

/// Which runs of a process are executed twice to check that they repeat exactly.
fn repeated(runs: u64) -> bool {
    runs % 61 == 7
}

/// Result of running a replay file in a fresh process: None if nothing failed, else the
/// class and detail.
fn exec_child(file: &Path, limit: f64) -> Option<(String, String)> {
    let exe = std::env::current_exe().expect("exe");
    let out = file.with_extension("out");
    let f = std::fs::File::create(&out).expect("out");
    let mut ch = Command::new(exe).arg("exec").arg(file).stdout(f).stderr(Stdio::null()).spawn().expect("spawn");
    let (mut awake, mut polled) = (0.0f64, seams::real_now());
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break Some(s);
        }
        let t = seams::real_now();
        awake += (t - polled).min(0.5);
        polled = t;
        if awake > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => Some(("hang".into(), format!("no end within {} s", limit))),
        Some(s) if s.code() == Some(0) => None,
        Some(s) if s.code() == Some(1) => {
            let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            Some((v["class"].as_str().unwrap_or("?").into(), v["detail"].as_str().unwrap_or("").into()))
        }
        Some(s) if s.signal().is_some() => Some(("crash".into(), format!("killed by signal {}", s.signal().unwrap()))),
        Some(s) => {
            eprintln!("internal error: replay child ended with {:?}", s);
            None
        }
    }
}

fn write_scn(path: &Path, list: &[Scenario]) {
    let v = if list.len() == 1 {
        list[0].to_json()
    } else {
        json!({"property": list[0].prop, "batch": list.iter().map(|s| s.to_json()).collect::<Vec<_>>()})
    };
    std::fs::write(path, v.to_string()).expect("write scenario");
}

pub fn read_scn(v: &Value) -> Option<Vec<Scenario>> {
    match v["batch"].as_array() {
        Some(b) => b.iter().map(Scenario::from_json).collect(),
        None => Scenario::from_json(v).map(|s| vec![s]),
    }
}

/// Delta debugging over the steps, then over their arguments, keeping the class.
fn shrink(scn: &Scenario, class: &str, dir: &Path, budget_s: f64) -> Scenario {
    let t0 = seams::real_now();
    let f = dir.join("shrink.json");
    let fails = |s: &Scenario| {
        write_scn(&f, std::slice::from_ref(s));
        exec_child(&f, 20.0).map_or(false, |(c, _)| c == class)
    };
    let over = || seams::real_now() - t0 > budget_s;
    let mut best = scn.clone();
    let mut chunk = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() && !over() {
            let mut c = best.clone();
            let e = (i + chunk).min(c.steps.len());
            c.steps.drain(i..e);
            if fails(&c) {
                best = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if over() || (chunk == 1 && !any) {
            break;
        }
        if !any {
            chunk = (chunk / 2).max(1);
        }
    }
    'outer: for _ in 0..3 {
        let mut any = false;
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].a.len() {
                let cur = best.steps[i].a[j];
                for cand in [0, 1, cur / 2, cur - 1] {
                    if over() {
                        break 'outer;
                    }
                    if cand == cur || cand.abs() > cur.abs() {
                        continue;
                    }
                    let mut c = best.clone();
                    c.steps[i].a[j] = cand;
                    if fails(&c) {
                        best = c;
                        any = true;
                        break;
                    }
                }
            }
        }
        if !any {
            break;
        }
    }
    best
}

fn nworkers() -> u64 {
    std::env::var("VSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
    })
}

pub fn check(p: &Prop, seed: u64, tier: &str, verif: &Path) -> i32 {
    let thorough = tier == "thorough";
    let total = std::env::var("VSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 3000.0 } else { 240.0 };
    let n = nworkers().min(total.max(1));
    let dir = std::env::temp_dir().join(format!("vsim.{}.{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let t0 = seams::real_now();
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for w in 0..n {
        let _ = map_progress(&dir.join(format!("p{}", w)));
        let c = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), tier, &w.to_string(), &n.to_string(), &total.to_string(), &cap.to_string()])
            .arg(&dir)
            .stdin(Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push(Some(c));
    }
    // A pause of the whole machine counts as one poll, not as its length.
    let (mut awake, mut polled) = (0.0f64, t0);
    let mut last = vec![(0u64, 0.0f64); n as usize];
    let mut found: Option<(u64, u64, String, String)> = None; // worker, index, class, detail
    let mut internal = false;
    while kids.iter().any(|k| k.is_some()) && found.is_none() && !internal {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let t = seams::real_now();
        awake += (t - polled).min(0.5);
        polled = t;
        for w in 0..n as usize {
            let Some(k) = kids[w].as_mut() else { continue };
            let idx = || {
                let b = std::fs::read(dir.join(format!("p{}", w))).unwrap_or_default();
                if b.len() >= 8 {
                    u64::from_le_bytes(b[..8].try_into().unwrap())
                } else {
                    0
                }
            };
            match k.try_wait().expect("wait") {
                Some(st) => {
                    kids[w] = None;
                    use std::os::unix::process::ExitStatusExt;
                    if st.code() == Some(0) {
                        let t = std::fs::read_to_string(dir.join(format!("r{}", w))).unwrap_or_default();
                        let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                        if !v["violation"].is_null() {
                            let x = &v["violation"];
                            found = Some((
                                w as u64,
                                x["index"].as_u64().unwrap_or(0),
                                x["class"].as_str().unwrap_or("").into(),
                                x["detail"].as_str().unwrap_or("").into(),
                            ));
                        }
                    } else if let Some(sig) = st.signal() {
                        let i = idx();
                        if i == 0 || sig == libc::SIGKILL {
                            eprintln!("internal error: worker killed by signal {}", sig);
                            internal = true;
                        } else {
                            found = Some((w as u64, i - 1, "crash".into(), format!("killed by signal {}", sig)));
                        }
                    } else {
                        eprintln!("internal error: worker ended with {:?}", st);
                        internal = true;
                    }
                }
                None => {
                    let i = idx();
                    if i != last[w].0 {
                        last[w] = (i, awake);
                    } else if awake - last[w].1 > LIMIT_S && i > 0 {
                        found = Some((w as u64, i - 1, "hang".into(), format!("no end within {} s", LIMIT_S)));
                    }
                }
            }
            if found.is_some() {
                break;
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let mut code = 0;
    if internal {
        code = 2;
    }
    let mut viol_note = Value::Null;
    if let Some((w, idx, class, detail)) = &found {
        let scn = scenario(p, seed, *idx, thorough);
        let f = dir.join("confirm.json");
        write_scn(&f, std::slice::from_ref(&scn));
        let mut min = vec![scn.clone()];
        let mut confirmed = false;
        let (mut cls, mut det) = (class.clone(), detail.clone());
        if let Some((c, d)) = exec_child(&f, LIMIT_S) {
            confirmed = true;
            cls = c;
            det = d;
            if cls != "hang" {
                let s = shrink(&scn, &cls, &dir, 40.0);
                write_scn(&f, std::slice::from_ref(&s));
                if let Some((c, d)) = exec_child(&f, LIMIT_S) {
                    if c == cls {
                        det = d;
                        min = vec![s];
                    }
                }
            }
        } else {
            // It depends on what ran before it in the same process.
            let mut k = 2u64;
            loop {
                let round = idx / n;
                let list0 = round.saturating_sub(k - 1)..=round;
                // As the worker did it, with the runs it repeated.
                let again = |b: u64| if b < round && repeated(b + 1) { 2 } else { 1 };
                let mut list: Vec<Scenario> = list0.flat_map(|b| vec![scenario(p, seed, run_of(*w, n, b), thorough); again(b)]).collect();
                write_scn(&f, &list);
                if let Some((c, d)) = exec_child(&f, LIMIT_S) {
                    confirmed = true;
                    cls = c;
                    det = d;
                    // Drop runs from the front and the middle while it still fails.
                    let t1 = seams::real_now();
                    let mut j = 0;
                    while j + 1 < list.len() && seams::real_now() - t1 < 30.0 {
                        let mut l2 = list.clone();
                        l2.remove(j);
                        write_scn(&f, &l2);
                        if exec_child(&f, LIMIT_S).map_or(false, |(c, _)| c == cls) {
                            list = l2;
                        } else {
                            j += 1;
                        }
                    }
                    min = list;
                    break;
                }
                if i64::try_from(k).unwrap_or(i64::MAX) > (*idx / n) as i64 + 1 || k > 100_000 {
                    break;
                }
                k *= 4;
            }
        }
        if !confirmed && class == "hang" && std::env::var_os("VSIM_AGAIN").is_none() {
            // It ended when repeated, alone and after the same runs: a stalled machine.
            println!("run {} had not ended within {} s, but did when repeated; starting over", idx, LIMIT_S);
            let _ = std::fs::remove_dir_all(&dir);
            use std::os::unix::process::CommandExt;
            let e = Command::new(&exe).args(std::env::args_os().skip(1)).env("VSIM_AGAIN", "1").exec();
            eprintln!("internal error: exec: {}", e);
            return 2;
        }
        let rdir = verif.join("replays");
        std::fs::create_dir_all(&rdir).expect("replays");
        let path = rdir.join(format!("{}-seed{}-run{}.json", p.id, seed, idx));
        let mut j = if min.len() == 1 {
            min[0].to_json()
        } else {
            json!({"property": p.id, "batch": min.iter().map(|s| s.to_json()).collect::<Vec<_>>()})
        };
        j["class"] = json!(cls);
        j["detail"] = json!(det);
        j["reproduced_in_fresh_process"] = json!(confirmed);
        j["found"] = json!({"verif_seed": seed, "tier": tier, "run": idx, "worker": w, "original_steps": scn.steps.len()});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        println!("violation class: {}", cls);
        println!("detail: {}", det);
        println!("minimised from {} to {} steps; reproduced in a fresh process: {}", scn.steps.len(), min.last().map_or(0, |s| s.steps.len()), confirmed);
        println!("replay: {} replay {}", exe.display(), path.display());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        viol_note = json!({"class": cls, "detail": det, "replay": path.display().to_string()});
        code = 1;
    }
    // Evidence.
    let (mut runs, mut events, mut rechecks, mut mism, mut sim_ns, mut trunc) = (0u64, 0u64, 0u64, 0u64, 0u128, false);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    for w in 0..n {
        let t = std::fs::read_to_string(dir.join(format!("r{}", w))).unwrap_or_default();
        let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
        let g = |k: &str| v[k].as_u64().unwrap_or(0);
        runs += g("runs");
        events += g("events");
        rechecks += g("rechecks");
        mism += g("mismatches");
        sim_ns += v["sim_ns"].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
        trunc |= v["truncated"].as_bool().unwrap_or(false);
        for (src, dst, is_max) in [("faults", &mut faults, false), ("probes", &mut probes, false), ("maxes", &mut maxes, true)] {
            if let Some(o) = v[src].as_object() {
                for (k, x) in o {
                    let e = dst.entry(k.clone()).or_insert(0);
                    let x = x.as_u64().unwrap_or(0);
                    *e = if is_max { (*e).max(x) } else { *e + x };
                }
            }
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        }
        let d = std::fs::read(dir.join(format!("d{}", w))).unwrap_or_default();
        for c in d.chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    if samples.is_empty() {
        samples.push(scenario(p, seed, 0, thorough).to_json());
    }
    let wall = seams::real_now() - t0;
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("{} Non-trivial: the run executed at least one step against the code under test and injected at least one fault other than entropy-read faults; distinct: by a digest of the run's whole event log (schedule, faults, bytes exchanged, outcomes).", p.rule),
            "samples": samples,
            "simulated_runs": runs,
            "simulated_runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": (sim_ns as f64 / 1e9),
            "events": events,
            "faults_injected": faults,
            "probes": probes,
            "largest": maxes,
            "determinism_rechecks": rechecks,
            "determinism_mismatches": mism,
            "planned_runs": total,
            "stopped_at_wall_cap": trunc,
            "components_real": p.real,
            "components_stubbed": p.stub,
            "hook_build": cfg!(verif_sim),
            "violation": viol_note,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": if found.is_some() { 1 } else { 0 },
    });
    let edir = verif.join("evidence");
    std::fs::create_dir_all(&edir).expect("evidence");
    std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        if mism > 0 {
            println!("note: {} of {} repeated runs differed from their first execution", mism, rechecks);
        }
        println!("OK property={} runs={} distinct={} events={} wall={:.1}s", p.id, runs, distinct.len(), events, wall);
    }
    let _ = std::io::stdout().flush();
    code
}

/// Runs a replay file in this process.
pub fn exec_file(props: &[Prop], path: &Path, verbose: bool) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path.display(), e);
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
    let Some(list) = read_scn(&v) else {
        eprintln!("not a replay file: {}", path.display());
        return 2;
    };
    for (i, s) in list.iter().enumerate() {
        let Some(p) = props.iter().find(|p| p.id == s.prop) else {
            eprintln!("unknown property {}", s.prop);
            return 2;
        };
        let (o, c) = execute(p, s, verbose);
        if verbose {
            for l in c.trace.unwrap_or_default() {
                println!("  {}", l);
            }
            println!("  [{} events, digest {:016x}]", c.events, c.digest);
        }
        if let Err(viol) = o {
            if verbose {
                println!("violation class: {}\ndetail: {}", viol.class, viol.detail);
                println!("VIOLATION property={} replay={}", s.prop, path.display());
            } else {
                println!("{}", viol_json(s, &viol, i as u64));
            }
            return 1;
        }
    }
    if verbose {
        println!("OK: the scenario no longer fails");
    }
    0
}

/// Prints a digest of each of a range of runs, for comparing whole processes.
pub fn digests(p: &Prop, seed: u64, thorough: bool, from: u64, to: u64) {
    for i in from..to {
        let s = scenario(p, seed, i, thorough);
        let (o, c) = execute(p, &s, false);
        println!("{} {} {:016x} {} {}", p.id, i, c.digest, c.events, o.err().map_or("ok".into(), |v| v.class));
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VSIM_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
