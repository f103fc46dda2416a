//! The single source of decisions. Every generated value, schedule decision
//! and fault comes from a `Chooser`; in search it is backed by a seeded PRNG
//! and logs what it decided, in replay it is backed by such a log. 0 is always
//! the simplest choice, which is also what a replay gets when its log is used up.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
}

pub struct Chooser {
    rng: Option<Rng>,
    src: Vec<u32>,
    pos: usize,
    pub log: Vec<u32>,
}

impl Chooser {
    pub fn seeded(seed: u64) -> Self {
        Chooser { rng: Some(Rng::new(seed)), src: vec![], pos: 0, log: vec![] }
    }
    pub fn replay(src: Vec<u32>) -> Self {
        Chooser { rng: None, src, pos: 0, log: vec![] }
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if let Some(rng) = &mut self.rng {
            (rng.next() % n as u64) as usize
        } else if self.pos < self.src.len() {
            self.src[self.pos] as usize % n
        } else {
            0
        };
        self.pos += 1;
        self.log.push(v as u32);
        v
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) + num >= den
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn in proportion to the weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total.max(1) as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
}
