//! The I/O seam: simulator-owned source and sink handed to the library's generic parsers and encoders.
use algorithm::buf::{Binary, Bt, BtMut};
use std::cell::Cell;
use std::mem::MaybeUninit;

/// Panic payload: the library made no progress within its step budget.
pub struct StepBudget;

pub struct SimBuf {
    data: Vec<u8>,
    pos: usize,
    budget: Cell<u64>,
}

impl SimBuf {
    pub fn new(data: &[u8]) -> SimBuf {
        SimBuf { data: data.to_vec(), pos: 0, budget: Cell::new(2_000 + 64 * data.len() as u64) }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    #[inline]
    fn tick(&self) {
        let b = self.budget.get();
        if b == 0 {
            std::panic::panic_any(StepBudget);
        }
        self.budget.set(b - 1);
    }
}

impl Bt for SimBuf {
    fn remaining(&self) -> usize {
        self.tick();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.tick();
        &self.data[self.pos..]
    }
    fn advance(&mut self, n: usize) {
        self.tick();
        assert!(n <= self.data.len() - self.pos, "advance beyond the end of the received data");
        self.pos += n;
    }
    fn advance_chunk(&mut self, n: usize) -> &[u8] {
        self.tick();
        assert!(n <= self.data.len() - self.pos, "advance beyond the end of the received data");
        let p = self.pos;
        self.pos += n;
        &self.data[p..p + n]
    }
    fn into_binary(self) -> Binary {
        Binary::from(self.data[self.pos..].to_vec())
    }
}

/// A sink whose free space comes in windows of `window` bytes, possibly holding earlier output.
pub struct SimSink {
    data: Vec<u8>,
    pos: usize,
    scratch: Vec<MaybeUninit<u8>>,
    window: usize,
    budget: u64,
}

impl SimSink {
    pub fn new(prefill: &[u8], window: usize) -> SimSink {
        SimSink { data: prefill.to_vec(), pos: 0, scratch: vec![MaybeUninit::new(0xAA); window.max(1)], window: window.max(1), budget: 50_000_000 }
    }
    pub fn written(&self) -> &[u8] {
        &self.data
    }
}

impl Bt for SimSink {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.data.len() - self.pos, "advance beyond the end of a sink");
        self.pos += n;
    }
    fn advance_chunk(&mut self, n: usize) -> &[u8] {
        let p = self.pos;
        self.advance(n);
        &self.data[p..p + n]
    }
    fn into_binary(self) -> Binary {
        Binary::from(self.data[self.pos..].to_vec())
    }
}

unsafe impl BtMut for SimSink {
    fn remaining_mut(&self) -> usize {
        usize::MAX / 2
    }
    unsafe fn advance_mut(&mut self, cnt: usize) {
        assert!(cnt <= self.window);
        if self.budget < cnt as u64 + 1 {
            std::panic::panic_any(StepBudget);
        }
        self.budget -= cnt as u64 + 1;
        for i in 0..cnt {
            self.data.push(self.scratch[i].assume_init());
        }
    }
    fn chunk_mut(&mut self) -> &mut [MaybeUninit<u8>] {
        &mut self.scratch[..]
    }
}

impl webparse::http2::frame::Truncate for SimBuf {
    fn truncate(&mut self, len: usize) {
        assert!(len <= self.data.len() - self.pos, "truncate beyond the end of the received data");
        self.data.truncate(self.pos + len);
    }
}
