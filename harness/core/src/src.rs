//! A recorded stream of choices. Generators draw every decision from it, so a
//! failing case is a `Vec<u64>` which can be shrunk and replayed.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Upper limit of choices, afterwards every draw is 0 (the "simplest").
    pub limit: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        let mut s = seed ^ 0xA5A5_5A5A_1234_9876;
        splitmix(&mut s);
        Self { rng: s, replay: None, pos: 0, rec: vec![], limit: 60_000 }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Self { rng: 0, replay: Some(c), pos: 0, rec: vec![], limit: 60_000 }
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.rec.len() >= self.limit {
            0
        } else {
            match &self.replay {
                Some(r) => {
                    let v = r.get(self.pos).copied().unwrap_or(0);
                    v % n
                }
                None => splitmix(&mut self.rng) % n,
            }
        };
        self.pos += 1;
        if self.rec.len() < self.limit {
            self.rec.push(v);
        }
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// true with probability a/b; "false" is simplest.
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) >= b - a
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// Index by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        unreachable!()
    }
    /// Geometric-ish length in 0..=max, mean about `mean`.
    pub fn len(&mut self, mean: usize, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.below(mean as u64 + 1) != 0 {
            n += 1;
        }
        n
    }
}
