//! Shared by C23 and C24: a reader of coded blocks and random tile surroundings.
use crate::syntax::*;
use av1enc::cdf::CDF;
use av1enc::constants::*;
use av1enc::frame::Frame;
use mon::refcoder::*;
use mon::*;

pub fn flat(c: &CDF) -> Vec<(String, Vec<i32>)> { let mut v = vec![]; crate::cdfs::visit(c, &mut |f, p, l| v.push((crate::cdfs::name(f, p), l.to_vec()))); v }

/// The draft's symbol and literal decoding over a stream.
/// frozen: the frame does not let distributions adapt
pub struct Rd<'a> { pub d: RefDecoder<'a>, pub e: RefEncoder, pub frozen: bool }
impl<'a> Rd<'a> {
    pub fn new(out: &'a [u8]) -> Result<Rd<'a>, String> { Ok(Rd { d: RefDecoder::new(out).ok_or("no stream")?, e: RefEncoder::new(), frozen: false }) }
    pub fn sym(&mut self, cdf: &mut [i32]) -> Result<usize, String> {
        let s = self.d.decode(cdf).ok_or("stream ends early or leaves the code range")?;
        self.e.encode(s, cdf);
        if !self.frozen { adapt(cdf, s); }
        Ok(s)
    }
    pub fn lit(&mut self, n: u32) -> Result<i64, String> {
        let mut v = 0;
        for _ in 0..n {
            let h = [16384, 32768, 0];
            let b = self.d.decode(&h).ok_or("stream ends early or leaves the code range")?;
            self.e.encode(b, &h);
            v = v * 2 + b as i64;
        }
        Ok(v)
    }
    /// a symbol whose distribution is derived and does not adapt
    pub fn derived(&mut self, cdf: &[i32]) -> Result<usize, String> { let mut c = cdf.to_vec(); self.sym(&mut c) }
    pub fn ns(&mut self, n: i64) -> Result<i64, String> {
        let w = 64 - (n as u64).leading_zeros();
        let m = (1i64 << w) - n;
        let v = self.lit(w - 1)?;
        if v < m { return Ok(v); }
        Ok(v * 2 - m + self.lit(1)?)
    }
    /// a run of intervals of 2^k, 2^k, 2^(k+1), ... values, the last one uniform
    pub fn subexp(&mut self, n: i64, k: u32) -> Result<i64, String> {
        let (mut base, mut b, mut first) = (0i64, k, true);
        loop {
            let a = 1i64 << b;
            if n <= base + 3 * a { return Ok(base + self.ns(n - base)?); }
            if self.lit(1)? == 0 { return Ok(base + self.lit(b)?); }
            base += a;
            if first { first = false; } else { b += 1; }
        }
    }
    /// values ranked by distance from the reference, larger first, within [lo, hi]
    pub fn signed_with_ref(&mut self, lo: i64, hi: i64, k: u32, r: i64) -> Result<i64, String> {
        let n = hi - lo + 1;
        let rank = self.subexp(n, k)?;
        let (r, mirrored) = if 2 * (r - lo) <= n { (r - lo, false) } else { (hi - r, true) };
        let v = if rank > 2 * r { rank } else if rank % 2 == 1 { r - (rank + 1) / 2 } else { r + rank / 2 };
        Ok(if mirrored { hi - v } else { lo + v })
    }
    /// bits the symbols read so far need, plus what closing the coder may add
    pub fn limit(&self) -> usize { self.e.shifts() + 16 + 8 + 7 }
}

pub fn w4(b: usize) -> usize { mon::spec::BLOCKS[b].0 / 4 }
pub fn h4(b: usize) -> usize { mon::spec::BLOCKS[b].1 / 4 }

/// A frame with one tile of it surrounded by unavailable blocks: (frame, row start, row end, column start, column end)
pub fn tile(r: &mut Rng, sb4: usize) -> (Frame, usize, usize, usize, usize) {
    let edge = |r: &mut Rng| if r.bool() { 8 + r.usize(150) } else { 8 * (1 + r.usize(40)) };
    let (w, h) = (edge(r), edge(r));
    tile_of(r, sb4, w, h)
}
pub fn tile_of(r: &mut Rng, sb4: usize, w: usize, h: usize) -> (Frame, usize, usize, usize, usize) {
    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    let (rows, cols) = (2 * ((h + 7) >> 3), 2 * ((w + 7) >> 3));
    let cut = |r: &mut Rng, n: usize| { let k = (n + sb4 - 1) / sb4; let a = r.usize(k); let b = a + 1 + r.usize(k - a); if r.bool() { (0, n) } else { (a * sb4, (b * sb4).min(n)) } };
    let ((r0, r1), (c0, c1)) = (cut(r, rows), cut(r, cols));
    f.mis = (0..rows).map(|y| (0..cols).map(|x| if y >= r0 && y < r1 && x >= c0 && x < c1 { Some(random_mi(r)) } else { None }).collect()).collect();
    let ss = r.pick(&[(true, true), (true, false), (false, false)]);
    f.subsampling_x = ss.0; f.subsampling_y = ss.1;
    (f, r0, r1, c0, c1)
}
/// a position for a block inside the tile, aligned as partitioning aligns it, often at an edge
pub fn place(r: &mut Rng, b: usize, r0: usize, r1: usize, c0: usize, c1: usize) -> (usize, usize) {
    let p = |r: &mut Rng, lo: usize, hi: usize, n: usize| { let k = (hi - lo + n - 1) / n; lo + n * match r.below(4) { 0 => 0, 1 => k - 1, _ => r.usize(k) } };
    (p(r, r0, r1, h4(b)), p(r, c0, c1, w4(b)))
}
