//! Choice source: every random decision of a case goes through `Src`, is recorded,
//! and can be replayed / shrunk.

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
    /// the given choices, then random ones
    Mixed(Vec<u64>, u64),
}

pub struct Src {
    mode: Mode,
    /// normalised choices made so far
    pub out: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(seed),
            out: vec![],
        }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay(v),
            out: vec![],
        }
    }
    pub fn mixed(v: Vec<u64>, seed: u64) -> Self {
        Src {
            mode: Mode::Mixed(v, seed),
            out: vec![],
        }
    }
    /// uniform in [0, n); n > 0. In replay, missing choices are 0 (the simplest).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let r = splitmix(s);
                ((r as u128 * n as u128) >> 64) as u64
            }
            Mode::Mixed(v, s) => match v.get(self.out.len()) {
                Some(x) => *x % n,
                None => {
                    let r = splitmix(s);
                    ((r as u128 * n as u128) >> 64) as u64
                }
            },
            Mode::Replay(v) => v.get(self.out.len()).copied().unwrap_or(0) % n,
        };
        self.out.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// index by weight; shrinks to index 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
}
