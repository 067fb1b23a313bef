//! Per-run context: choices, virtual clock, event log, fault and probe counters.
use crate::choice::Choices;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable class, what minimisation preserves and the known-findings file names
    pub class: String,
    pub detail: String,
}
pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::ctx::viol($class, format!($($arg)*));
        }
    };
}

#[derive(Default, Clone)]
pub struct Cov {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub messages: u64,
    pub deliveries: u64,
    pub lib_calls: u64,
}

pub struct Ctx {
    pub ch: Choices,
    pub now: u64,
    pub seq: u64,
    pub cov: Cov,
    pub tracing: bool,
    pub trace: Vec<String>,
    /// hash of the complete event log (replay identity)
    pub log_hash: u64,
    /// coarse signature of the run: event kinds with bucketed sizes
    pub sig: u64,
    pub perturbed: bool,
    pub progressed: bool,
    pub events: u64,
}

#[inline]
fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23)
}
#[inline]
fn bucket(v: u64) -> u64 {
    if v < 4 { v } else { 64 - v.leading_zeros() as u64 + 4 }
}

impl Ctx {
    pub fn new(ch: Choices, tracing: bool) -> Ctx {
        Ctx {
            ch, now: 0, seq: 0, cov: Cov::default(), tracing, trace: vec![],
            log_hash: 0xcbf29ce484222325, sig: 0xcbf29ce484222325,
            perturbed: false, progressed: false, events: 0,
        }
    }
    /// Record an event. Numbers enter the log hash exactly and the signature bucketed.
    pub fn ev(&mut self, label: &'static str, nums: &[u64]) {
        self.events += 1;
        let mut lh = self.log_hash;
        let mut sg = self.sig;
        for b in label.bytes() {
            lh = fnv(lh, b as u64);
            sg = fnv(sg, b as u64);
        }
        lh = fnv(lh, self.now);
        for n in nums {
            lh = fnv(lh, *n);
            sg = fnv(sg, bucket(*n));
        }
        self.log_hash = lh;
        self.sig = sg;
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("t={} {} {:?}", self.now, label, nums));
        }
    }
    pub fn bytes_ev(&mut self, label: &'static str, data: &[u8]) {
        let mut h = 0u64;
        for b in data {
            h = fnv(h, *b as u64);
        }
        self.events += 1;
        self.log_hash = fnv(self.log_hash, h);
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("t={} {} {}", self.now, label, show(data)));
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing && self.trace.len() < 4000 {
            let s = f();
            self.trace.push(format!("t={} {}", self.now, s));
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        self.perturbed = true;
        *self.cov.faults.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.cov.probes.entry(k).or_insert(0) += 1;
    }
    pub fn message(&mut self) {
        self.progressed = true;
        self.cov.messages += 1;
    }
}

pub fn show(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() + 8);
    s.push_str(&format!("[{}]\"", data.len()));
    for (i, b) in data.iter().enumerate() {
        if i >= 400 {
            s.push_str("...");
            break;
        }
        match *b {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*b as char),
            _ => s.push_str(&format!("\\x{:02x}", b)),
        }
    }
    s.push('"');
    s
}
