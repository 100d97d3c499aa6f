//! An independent model of the entropy coder.  It keeps the whole code value as one unbounded
//! binary number (carry is ordinary addition), so it shares no bookkeeping with the code under
//! test (no pending-bit counters, no 16-bit register), and adapts distributions by the closed
//! form of the draft's rule.

/// floor(log2(n)), n > 0
pub fn ilog(n: u64) -> u32 { 63 - n.leading_zeros() }

/// The draft's adaptation of a distribution of N symbols (N+1 entries, last is the use counter).
pub fn adapt(cdf: &mut [i32], symbol: usize) {
    let n = cdf.len() - 1;
    let rate = 4 + if cdf[n] >= 32 { 1 } else { 0 } + ilog(n as u64);
    let top = (32768 - 32 * n as i64) / (1 << rate) * (1 << rate);
    for i in 0..n - 1 {
        let target = 32 * (i as i64 + 1) + if i >= symbol { top } else { 0 };
        let d = cdf[i] as i64 - target;
        // floor division
        let step = d.div_euclid(1 << rate);
        cdf[i] = (cdf[i] as i64 - step) as i32;
    }
    if cdf[n] < 32 { cdf[n] += 1; }
}

pub struct RefEncoder { low: Vec<u8>, pub range: u64, pub cost_bits: f64 }
impl RefEncoder {
    /// `low` is a binary fraction: low[0] is the most significant of 15+shifts bits.
    pub fn new() -> RefEncoder { RefEncoder { low: vec![0; 15], range: 1 << 15, cost_bits: 0.0 } }
    pub fn split(range: u64, inv: u64) -> u64 { ((range >> 8) * inv) >> 7 }
    pub fn encode(&mut self, symbol: usize, cdf: &[i32]) {
        let hi = if symbol == 0 { self.range } else { Self::split(self.range, 32768 - cdf[symbol - 1] as u64) };
        let lo = Self::split(self.range, 32768 - cdf[symbol] as u64);
        self.cost_bits += (self.range as f64 / (hi - lo) as f64).log2();
        self.add(self.range - hi);
        self.range = hi - lo;
        while self.range < 1 << 15 { self.range <<= 1; self.low.push(0); }
    }
    fn add(&mut self, mut v: u64) {
        let mut i = self.low.len();
        let mut carry = 0u64;
        while v > 0 || carry > 0 {
            assert!(i > 0, "reference encoder: code value out of range");
            i -= 1;
            let s = self.low[i] as u64 + (v & 1) + carry;
            self.low[i] = (s & 1) as u8;
            carry = s >> 1;
            v >>= 1;
        }
    }
    pub fn shifts(&self) -> usize { self.low.len() - 15 }
    pub fn bits(&self) -> &[u8] { &self.low }
}

/// Decoder by interval search on the code value: it never forms the complemented register of
/// the code under test.
pub struct RefDecoder<'a> { bits: &'a [u8], pos: usize, diff: u64, pub range: u64 }
impl<'a> RefDecoder<'a> {
    pub fn new(bits: &'a [u8]) -> Option<RefDecoder<'a>> {
        if bits.len() < 15 { return None; }
        let mut d = 0u64;
        for b in &bits[..15] { d = d * 2 + *b as u64; }
        Some(RefDecoder { bits, pos: 15, diff: d, range: 1 << 15 })
    }
    /// `diff` is (code value - low), which must stay below range
    pub fn decode(&mut self, cdf: &[i32]) -> Option<usize> {
        let n = cdf.len() - 1;
        if self.diff >= self.range { return None; }
        let mut hi = self.range;
        for s in 0..n {
            let lo = RefEncoder::split(self.range, 32768 - cdf[s] as u64);
            // symbol s occupies code values [range-hi, range-lo)
            if self.diff < self.range - lo {
                self.diff -= self.range - hi;
                self.range = hi - lo;
                while self.range < 1 << 15 {
                    self.range <<= 1;
                    if self.pos >= self.bits.len() { return None; }
                    self.diff = self.diff * 2 + self.bits[self.pos] as u64;
                    self.pos += 1;
                }
                return Some(s);
            }
            hi = lo;
        }
        None
    }
    pub fn consumed(&self) -> usize { self.pos }
}

/// distribution of a bit with probability p/256 of being zero, as the draft defines read_bool
pub fn p_cdf(p: i32) -> Vec<i32> { vec![((p << 15) + 256 - p) >> 8, 1 << 15, 0] }

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn roundtrip() {
        let mut r = crate::rng::Rng::new(5);
        for _ in 0..200 {
            let n = 2 + r.usize(15);
            let mut c: Vec<i32> = (1..=n).map(|i| (i * 32768 / n) as i32).collect(); c.push(0);
            let c0 = c.clone();
            let s: Vec<usize> = (0..300).map(|_| if r.chance(3,4) { n-1 } else { r.usize(n) }).collect();
            let mut e = RefEncoder::new();
            for x in &s { e.encode(*x, &c); adapt(&mut c, *x); }
            let mut c = c0;
            let b = e.bits().to_vec();
            let mut d = RefDecoder::new(&b).unwrap();
            for x in &s { assert_eq!(d.decode(&c), Some(*x)); adapt(&mut c, *x); }
            assert_eq!(d.consumed(), b.len());
        }
    }
}
