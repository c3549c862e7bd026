//! A scenario is one complete simulated execution written down: executing it is a
//! pure function of it and of the code under test.
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub a: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    /// Entropy stream, content and (where used) schedule of the run.
    pub seed: u64,
    pub steps: Vec<Step>,
}

impl Scenario {
    pub fn new(prop: &str, seed: u64) -> Scenario {
        Scenario {
            prop: prop.into(),
            seed,
            steps: vec![],
        }
    }
    pub fn push(&mut self, op: &str, a: &[i64]) {
        self.steps.push(Step {
            op: op.into(),
            a: a.to_vec(),
        });
    }
    pub fn to_json(&self) -> Value {
        let steps: Vec<Value> = self
            .steps
            .iter()
            .map(|s| {
                let mut v = vec![json!(s.op)];
                v.extend(s.a.iter().map(|x| json!(x)));
                Value::Array(v)
            })
            .collect();
        json!({"property": self.prop, "seed": self.seed.to_string(), "steps": steps})
    }
    pub fn from_json(v: &Value) -> Option<Scenario> {
        Some(Scenario {
            prop: v["property"].as_str()?.into(),
            seed: v["seed"].as_str()?.parse().ok()?,
            steps: v["steps"]
                .as_array()?
                .iter()
                .map(|s| {
                    let s = s.as_array()?;
                    Some(Step {
                        op: s[0].as_str()?.into(),
                        a: s[1..].iter().map(|x| x.as_i64()).collect::<Option<_>>()?,
                    })
                })
                .collect::<Option<_>>()?,
        })
    }
}

impl Step {
    /// Argument i, 0 when absent.
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable name of what went wrong; shrinking preserves it.
    pub class: String,
    pub detail: String,
}

pub type Outcome = Result<(), Violation>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

/// What a run leaves behind besides its outcome.
#[derive(Clone, Default)]
pub struct Ctx {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub trace: Option<Vec<String>>,
    /// Probes that hold a maximum rather than a sum.
    pub maxes: BTreeMap<&'static str, u64>,
}
impl Ctx {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn faults(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(k).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    /// Appends one event to the run's log (as a digest, and as text when tracing).
    pub fn ev(&mut self, parts: &[u64]) {
        self.events += 1;
        let mut h = self.digest;
        for p in parts {
            h = (h ^ p).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        self.digest = h.wrapping_add(0x632BE59BD9B4E019);
    }
    pub fn ev_bytes(&mut self, tag: u64, b: &[u8]) {
        let mut h = tag ^ b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 32;
        }
        self.ev(&[tag, h]);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
}
