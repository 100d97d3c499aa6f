/// xoshiro256** seeded by splitmix64: every random choice of a case comes from
/// (property, VERIF_SEED, suite, index).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let r = if span > u64::MAX as u128 { self.u64() } else { self.below(span as u64) };
        (lo as i128 + r as i128) as i64
    }
    pub fn bool(&mut self) -> bool { self.u64() >> 63 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.usize(v.len())] }
    /// a value of a random bit length, hitting powers of two and their neighbours often
    pub fn edgy(&mut self, max: u64) -> u64 {
        let v = match self.below(6) {
            0 => self.u64(),
            1 => { let b = self.below(64); 1u64 << b }
            2 => { let b = self.below(64); (1u64 << b).wrapping_sub(1) }
            3 => { let b = self.below(64); (1u64 << b).wrapping_add(1) }
            4 => { let b = self.below(64); self.u64() >> b }
            _ => { if self.bool() { max } else { max.wrapping_sub(self.below(4)) } }
        };
        if max == u64::MAX { v } else { v % (max + 1) }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
}
