//! Discrete-event network: byte streams with segmentation, latency, stalls, cuts and corruption.
use crate::ctx::Ctx;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, BTreeMap};

pub struct Queue<E> {
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, E>,
}

impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { heap: BinaryHeap::new(), evs: BTreeMap::new() }
    }
    pub fn push(&mut self, cx: &mut Ctx, at: u64, e: E) {
        cx.seq += 1;
        self.heap.push(Reverse((at, cx.seq)));
        self.evs.insert(cx.seq, e);
    }
    pub fn pop(&mut self, cx: &mut Ctx) -> Option<E> {
        let Reverse((t, s)) = self.heap.pop()?;
        if t > cx.now {
            cx.now = t;
        }
        self.evs.remove(&s)
    }
    pub fn is_empty(&self) -> bool {
        self.heap.is_empty()
    }
}

/// How one direction of a connection cuts its byte stream (chosen once per link: swarm style).
#[derive(Clone, Debug)]
pub struct Link {
    pub mode: u64,
    pub k: usize,
    pub lat: u64,
    pub jitter: u64,
    pub stall: bool,
    last_at: u64,
}

impl Link {
    pub fn new(cx: &mut Ctx) -> Link {
        let mode = cx.ch.below(6);
        let k = 1 + cx.ch.below(40) as usize;
        let lat = cx.ch.below(50);
        let jitter = cx.ch.below(30);
        let stall = cx.ch.chance(1, 6);
        Link { mode, k, lat, jitter, stall, last_at: 0 }
    }
    /// Offsets at which `data` is cut. `marks` are interesting offsets (line ends, frame boundaries).
    pub fn cuts(&self, cx: &mut Ctx, len: usize, marks: &[usize]) -> Vec<usize> {
        let mut cuts = vec![];
        if len == 0 {
            return cuts;
        }
        // receivers look at everything they have on each delivery: long messages are cut less often
        let most = if len > 4096 { (400 * 4096 / len).max(8) } else { 600 };
        let k = self.k.max(len / most);
        match self.mode {
            0 => {}
            1 => {
                let mut p = k;
                while p < len && cuts.len() < 600 {
                    cuts.push(p);
                    p += k;
                }
            }
            2 => {
                let mut p = 0;
                loop {
                    p += 1 + cx.ch.below(k as u64) as usize;
                    if p >= len || cuts.len() >= most.min(400) {
                        break;
                    }
                    cuts.push(p);
                }
            }
            3 => {
                // byte by byte over a window, elsewhere whole
                let w = most.min(200).min(len);
                let start = cx.ch.below((len - w + 1) as u64) as usize;
                for p in start.max(1)..(start + w).min(len) {
                    cuts.push(p);
                }
            }
            4 => {
                // around interesting offsets
                for m in marks {
                    let d = cx.ch.below(4) as i64 - 1;
                    let p = *m as i64 + d;
                    if p > 0 && (p as usize) < len && cx.ch.chance(2, 3) {
                        cuts.push(p as usize);
                    }
                    if cuts.len() > most.min(400) {
                        break;
                    }
                }
            }
            _ => {
                // a single cut anywhere
                cuts.push(cx.ch.range(1, len as u64) as usize);
            }
        }
        cuts.retain(|p| *p > 0 && *p < len);
        cuts.sort();
        cuts.dedup();
        if !cuts.is_empty() {
            cx.fault("segment_split");
        }
        cuts
    }
    pub fn arrival(&mut self, cx: &mut Ctx) -> u64 {
        let mut d = self.lat;
        if self.jitter > 0 {
            d += cx.ch.below(self.jitter + 1);
        }
        if self.stall && cx.ch.chance(1, 8) {
            d += 1000;
            cx.fault("stall");
        }
        // coalescing: sometimes arrive at the same instant as the previous segment
        let at = (cx.now + d).max(self.last_at);
        self.last_at = at;
        at
    }
    /// Segments with arrival times, in order.
    pub fn segments(&mut self, cx: &mut Ctx, data: &[u8], marks: &[usize]) -> Vec<(u64, Vec<u8>)> {
        let cuts = self.cuts(cx, data.len(), marks);
        let mut out = vec![];
        let mut p = 0;
        for c in cuts.into_iter().chain(std::iter::once(data.len())) {
            if c > p {
                let at = self.arrival(cx);
                out.push((at, data[p..c].to_vec()));
                p = c;
            }
        }
        out
    }
}

/// Corrupt a byte stream in flight. Returns whether anything changed.
pub fn corrupt(cx: &mut Ctx, data: &mut Vec<u8>, special: &[u8]) -> bool {
    if data.is_empty() {
        return false;
    }
    let before = data.clone();
    let n = 1 + cx.ch.below(3);
    for _ in 0..n {
        if data.is_empty() {
            break;
        }
        let kind = cx.ch.below(7);
        let i = cx.ch.below(data.len() as u64) as usize;
        match kind {
            0 => {
                data[i] ^= 1 << cx.ch.below(8);
                cx.fault("bit_flip");
            }
            1 => {
                data.remove(i);
                cx.fault("byte_lost");
            }
            2 => {
                let b = data[i];
                data.insert(i, b);
                cx.fault("byte_duplicated");
            }
            3 => {
                let b = if special.is_empty() { cx.ch.below(256) as u8 } else { cx.ch.pick(special) };
                data[i] = b;
                cx.fault("byte_replaced");
            }
            4 => {
                let b = if special.is_empty() { cx.ch.below(256) as u8 } else { cx.ch.pick(special) };
                data.insert(i, b);
                cx.fault("byte_inserted");
            }
            5 => {
                let l = 1 + cx.ch.below((data.len() - i).min(16) as u64) as usize;
                data.drain(i..(i + l).min(data.len()));
                cx.fault("range_lost");
            }
            _ => {
                let l = 1 + cx.ch.below((data.len() - i).min(16) as u64) as usize;
                let part: Vec<u8> = data[i..(i + l).min(data.len())].to_vec();
                let j = cx.ch.below(data.len() as u64 + 1) as usize;
                for (o, b) in part.into_iter().enumerate() {
                    data.insert(j + o, b);
                }
                cx.fault("range_duplicated");
            }
        }
    }
    *data != before
}
