//! Reading and writing bit vectors (one bit per byte) the way the AV1 draft defines its
//! descriptors; used as oracle for the writers under test.

#[derive(Clone)]
pub struct BitReader<'a> { pub b: &'a [u8], pub pos: usize }
impl<'a> BitReader<'a> {
    pub fn new(b: &'a [u8]) -> BitReader<'a> { BitReader { b, pos: 0 } }
    pub fn left(&self) -> usize { self.b.len() - self.pos }
    pub fn bit(&mut self) -> Result<u64, String> {
        if self.pos >= self.b.len() { return Err(format!("bitstream ends at bit {}", self.pos)); }
        let x = self.b[self.pos];
        if x > 1 { return Err(format!("element {} of the bit vector is {}", self.pos, x)); }
        self.pos += 1;
        Ok(x as u64)
    }
    pub fn flag(&mut self) -> Result<bool, String> { Ok(self.bit()? == 1) }
    pub fn f(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0u64;
        for _ in 0..n { v = (v << 1) | self.bit()?; }
        Ok(v)
    }
    pub fn su(&mut self, n: usize) -> Result<i64, String> {
        let v = self.f(n)? as i64;
        Ok(if v >= 1i64 << (n - 1) { v - (1i64 << n) } else { v })
    }
    pub fn ns(&mut self, n: u64) -> Result<u64, String> {
        let mut w = 0; while (n >> w) != 0 { w += 1; }
        let m = (1u64 << w) - n;
        let v = self.f(w - 1)?;
        if v < m { return Ok(v); }
        Ok((v << 1) - m + self.bit()?)
    }
    pub fn uvlc(&mut self) -> Result<u64, String> {
        let mut lz = 0;
        while self.bit()? == 0 { lz += 1; }
        if lz >= 32 { return Ok((1 << 32) - 1); }
        Ok(self.f(lz)? + (1 << lz) - 1)
    }
    pub fn le(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0;
        for i in 0..n { v |= self.f(8)? << (8 * i); }
        Ok(v)
    }
    pub fn leb128(&mut self) -> Result<u64, String> {
        let mut v = 0;
        for i in 0..8 { let b = self.f(8)?; v |= (b & 0x7f) << (7 * i); if b & 0x80 == 0 { break; } }
        Ok(v)
    }
}

pub fn f(v: u64, n: usize) -> Vec<u8> { (0..n).rev().map(|i| ((v >> i) & 1) as u8).collect() }
pub fn su(v: i64, n: usize) -> Vec<u8> { f((v as i128).rem_euclid(1i128 << n) as u64, n) }
pub fn ns(v: u64, n: u64) -> Vec<u8> {
    let mut w = 0; while (n >> w) != 0 { w += 1; }
    let m = (1u64 << w) - n;
    if v < m { f(v, w - 1) } else { let x = v - m; let mut o = f(m + (x >> 1), w - 1); o.push((x & 1) as u8); o }
}
pub fn uvlc(v: u64) -> Vec<u8> {
    if v == (1 << 32) - 1 { let mut o = vec![0; 32]; o.push(1); return o; }
    let x = v + 1;
    let mut n = 0; while (x >> (n + 1)) != 0 { n += 1; }
    let mut o = vec![0; n];
    o.extend(f(x, n + 1));
    o
}
pub fn le(v: u64, n: usize) -> Vec<u8> { (0..n).flat_map(|i| f((v >> (8 * i)) & 0xff, 8)).collect() }
pub fn leb128(v: u64) -> Vec<u8> {
    let mut o = vec![]; let mut v = v;
    loop { let b = v % 128; v /= 128; o.extend(f(b | if v > 0 { 128 } else { 0 }, 8)); if v == 0 { return o; } }
}
pub fn to_bytes(b: &[u8]) -> Vec<u8> {
    b.chunks(8).map(|c| { let mut v = 0u8; for (i, x) in c.iter().enumerate() { v |= (x & 1) << (7 - i); } v }).collect()
}
pub fn from_bytes(b: &[u8]) -> Vec<u8> { b.iter().flat_map(|x| f(*x as u64, 8)).collect() }
pub fn show(b: &[u8]) -> String { b.iter().take(200).map(|x| char::from(b'0' + (*x).min(9))).collect() }
