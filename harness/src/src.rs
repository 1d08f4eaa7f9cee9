//! Recorded choice sequences: every generated value is a function of the choices drawn here.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xd6e8_feb8_6659_fd93) ^ b);
    r.next();
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// Source of choices: fresh (seeded) or replayed.  Zero is always the simplest choice.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    log: Option<std::sync::Arc<std::fs::File>>,
}

impl Src {
    pub fn fresh(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: vec![], log: None }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { rng: None, replay: choices.to_vec(), pos: 0, rec: vec![], log: None }
    }
    /// Also append every choice to a file, for cases that never return.
    pub fn log_to(&mut self, p: &std::path::Path) {
        self.log = std::fs::File::create(p).ok().map(std::sync::Arc::new);
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.rng.as_mut() {
            Some(r) => r.below(n),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &self.log {
            use std::io::Write;
            let _ = (&**f).write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in [lo, hi].
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// True with probability num/den (false is the simple choice).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Index chosen with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut v = self.below(tot as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    /// Roughly log-uniform in [lo, hi].
    pub fn logrange(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        let bits = 64 - (span as u64).leading_zeros() as u64;
        let b = self.below(bits + 1);
        let cap = if b == 0 { 0 } else { ((1u128 << b) - 1).min(span as u128) as u64 };
        lo + self.below(cap + 1) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
}
