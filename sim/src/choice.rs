//! The single source of randomness. A run is a pure function of its list of choices.
//! In random mode choices come from one PRNG and are recorded; in replay mode they come from a list
//! (missing ones are 0, the simplest option).

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn run_seed(verif_seed: u64, property: &str, index: u64) -> u64 {
    let mut h = mix(verif_seed ^ 0x5eed_0001);
    for b in property.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index)
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

pub struct Choices {
    mode: Mode,
    pos: usize,
    over: usize,
    pub rec: Vec<u64>,
    pub spill: Option<std::fs::File>,
}

const MAX_DRAWS: usize = 400_000;

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices { mode: Mode::Random(seed), pos: 0, over: 0, rec: Vec::new(), spill: None }
    }
    pub fn replay(list: Vec<u64>) -> Self {
        Choices { mode: Mode::Replay(list), pos: 0, over: 0, rec: Vec::new(), spill: None }
    }
    /// A value in 0..n; 0 is always the simplest.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.pos >= MAX_DRAWS {
            self.over += 1;
            // a shortened choice list can keep a generator trying for ever
            if self.over > 4 * MAX_DRAWS && matches!(self.mode, Mode::Replay(_)) {
                panic!("choices exhausted");
            }
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let r = mix(*s);
                ((r as u128 * n as u128) >> 64) as u64
            }
            Mode::Replay(l) => l.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.spill {
            use std::io::Write;
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }
    /// lo..=hi, lo simplest
    #[inline]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        if span == u64::MAX {
            return self.below(u64::MAX);
        }
        lo + self.below(span + 1)
    }
    #[inline]
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; choice 0 is false
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) >= den - num
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// A size biased to small values but reaching hi: picks a magnitude first.
    pub fn skew(&mut self, hi: u64) -> u64 {
        if hi == 0 {
            return 0;
        }
        let bits = 64 - hi.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let top = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        self.below(top.min(hi).saturating_add(1).max(1))
    }
    pub fn draws(&self) -> usize {
        self.pos
    }
}
