//! Simulated byte streams: a writer that misbehaves by script.
use crate::scenario::{Ctx, Scenario};
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    /// Accept at most so many bytes (at least one).
    Short(usize),
    Eintr,
    /// Accept nothing and report zero bytes.
    Zero,
    Fail(u8),
}

pub struct FaultyWriter {
    pub script: VecDeque<W>,
    /// Largest write accepted once the script is used up (0: any).
    pub limit: usize,
    pub delivered: Vec<u8>,
    pub count: u64,
    pub keep: usize,
    pub calls: u64,
    pub n_short: u64,
    pub n_eintr: u64,
    pub n_zero: u64,
    pub n_fail: u64,
    pub flushes: u64,
}
impl FaultyWriter {
    pub fn new(script: VecDeque<W>, limit: usize) -> FaultyWriter {
        FaultyWriter {
            script,
            limit,
            delivered: vec![],
            count: 0,
            keep: 40 << 20,
            calls: 0,
            n_short: 0,
            n_eintr: 0,
            n_zero: 0,
            n_fail: 0,
            flushes: 0,
        }
    }
    /// Did the stream do anything worse than split or interrupt writes?
    pub fn failed(&self) -> bool {
        self.n_fail + self.n_zero > 0
    }
    pub fn report(&self, c: &mut Ctx) {
        c.faults("short_write", self.n_short);
        c.faults("interrupted_write", self.n_eintr);
        c.faults("zero_write", self.n_zero);
        c.faults("failed_write", self.n_fail);
    }
}
impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if self.limit > 0 {
            n = n.min(self.limit);
        }
        match self.script.pop_front() {
            Some(W::Short(k)) => n = n.min(k.max(1)),
            Some(W::Eintr) => {
                self.n_eintr += 1;
                return Err(Error::from(ErrorKind::Interrupted));
            }
            Some(W::Zero) => {
                self.n_zero += 1;
                return Ok(0);
            }
            Some(W::Fail(k)) => {
                self.n_fail += 1;
                return Err(Error::from(
                    [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::StorageFull, ErrorKind::Other]
                        [k as usize % 6],
                ));
            }
            None => {}
        }
        if n < b.len() {
            self.n_short += 1;
        }
        let room = self.keep.saturating_sub(self.delivered.len());
        self.delivered.extend_from_slice(&b[..n.min(room)]);
        self.count += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}

/// The writer script written in a scenario: steps "short n", "eintr", "zero", "fail k".
pub fn script(s: &Scenario) -> VecDeque<W> {
    s.steps
        .iter()
        .filter_map(|t| match t.op.as_str() {
            "short" => Some(W::Short(t.arg(0).max(1) as usize)),
            "eintr" => Some(W::Eintr),
            "zero" => Some(W::Zero),
            "fail" => Some(W::Fail(t.arg(0) as u8)),
            _ => None,
        })
        .collect()
}
