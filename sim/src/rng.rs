//! The only source of randomness of the harness: SplitMix64, seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15)
            ^ mix(stream.wrapping_add(0x51_7c_c1_b7_27_22_0a_95))
            ^ mix(index.wrapping_mul(0xd1342543de82ef95).wrapping_add(77)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Log-uniform-ish size in 1..=hi.
    pub fn size(&mut self, hi: usize) -> usize {
        let bits = (usize::BITS - hi.leading_zeros()) as usize;
        let b = self.range(1, bits);
        (1 + self.below(1 << b)).min(hi)
    }
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
