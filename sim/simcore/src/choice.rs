//! Every nondeterministic decision of a run is one `choose` call. In search mode the decision is
//! drawn from a seeded generator and logged; in replay mode it is read back from the log, and 0
//! (the simplest alternative) once the log is exhausted.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5851_F42D_4C95_7F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn permille(&mut self, p: u32) -> bool {
        (self.below(1000) as u32) < p
    }
    pub fn pct(&mut self, p: u32) -> bool {
        (self.below(100) as u32) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

#[derive(Clone, Debug)]
pub struct Chooser {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pub log: Vec<u32>,
}

impl Chooser {
    pub fn search(seed: u64) -> Chooser {
        Chooser { rng: Some(Rng::new(seed)), replay: vec![], log: vec![] }
    }
    pub fn replay(list: Vec<u32>) -> Chooser {
        Chooser { rng: None, replay: list, log: vec![] }
    }
    fn take(&mut self, n: usize, draw: impl FnOnce(&mut Rng) -> usize) -> usize {
        let v = match &mut self.rng {
            Some(r) => draw(r),
            None => *self.replay.get(self.log.len()).unwrap_or(&0) as usize,
        };
        let v = v.min(n.saturating_sub(1));
        self.log.push(v as u32);
        v
    }
    /// Chooses one of n alternatives, uniformly. 0 is the simplest.
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.take(n, |r| r.below(n))
    }
    /// Chooses according to weights (zero weights are never drawn in search mode).
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        if weights.len() <= 1 {
            return 0;
        }
        self.take(weights.len(), |r| {
            let total: u32 = weights.iter().sum();
            if total == 0 {
                return 0;
            }
            let mut x = r.below(total as usize) as u32;
            for (i, w) in weights.iter().enumerate() {
                if x < *w {
                    return i;
                }
                x -= w;
            }
            0
        })
    }
    /// True with the given probability; false is the simpler alternative.
    pub fn flip(&mut self, permille: u32) -> bool {
        if permille == 0 {
            return false;
        }
        self.take(2, |r| r.permille(permille) as usize) == 1
    }
}
