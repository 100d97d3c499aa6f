//! Normative data restated from the AV1 draft, independent of the code under test.  Block sizes,
//! transform sizes, modes etc. are plain indices here, in the draft's numbering.

/// (width, height) of the 22 block sizes
pub const BLOCKS: [(usize, usize); 22] = [
    (4, 4), (4, 8), (8, 4), (8, 8), (8, 16), (16, 8), (16, 16), (16, 32), (32, 16), (32, 32), (32, 64), (64, 32),
    (64, 64), (64, 128), (128, 64), (128, 128), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)];
/// (width, height) of the 19 transform sizes
pub const TXS: [(usize, usize); 19] = [
    (4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32), (32, 16), (32, 64),
    (64, 32), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)];
pub fn lg(n: usize) -> usize { (usize::BITS - 1 - n.leading_zeros()) as usize }
pub fn block_of(w: usize, h: usize) -> Option<usize> { BLOCKS.iter().position(|b| *b == (w, h)) }
pub fn tx_of(w: usize, h: usize) -> Option<usize> { TXS.iter().position(|b| *b == (w, h)) }
/// smaller / larger square transform
pub fn tx_sqr(t: usize) -> usize { lg(TXS[t].0.min(TXS[t].1)) - 2 }
pub fn tx_sqr_up(t: usize) -> usize { lg(TXS[t].0.max(TXS[t].1)) - 2 }
/// 64-point transforms code only 32 coefficients per direction
pub fn tx_adjusted(t: usize) -> usize { tx_of(TXS[t].0.min(32), TXS[t].1.min(32)).unwrap() }
/// the block that a block covers in a subsampled plane, None where the draft has no such block
pub fn subsampled(b: usize, ssx: bool, ssy: bool) -> Option<usize> {
    let (w, h) = BLOCKS[b];
    if ssx && !ssy && h > w { return None; }
    if ssy && !ssx && w > h { return None; }
    block_of((w >> ssx as usize).max(4), (h >> ssy as usize).max(4))
}
/// context class of block sizes for intra modes inside inter frames
pub fn size_group(b: usize) -> usize { (lg(BLOCKS[b].0.min(BLOCKS[b].1)) - 2).min(3) }
/// DC V H D45 D135 D113 D157 D203 D67 SMOOTH SMOOTH_V SMOOTH_H PAETH
pub const INTRA_CTX: [usize; 13] = [0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0];

// partitions
pub const P_NONE: usize = 0; pub const P_HORZ: usize = 1; pub const P_VERT: usize = 2; pub const P_SPLIT: usize = 3;
pub const P_HORZ_A: usize = 4; pub const P_HORZ_B: usize = 5; pub const P_VERT_A: usize = 6; pub const P_VERT_B: usize = 7;
pub const P_HORZ_4: usize = 8; pub const P_VERT_4: usize = 9;
/// the size of a partition's (first) block; None where the partition does not exist
pub fn partition_subsize(p: usize, b: usize) -> Option<usize> {
    let (w, h) = BLOCKS[b];
    if w != h { return None; }
    if w == 4 { return if p == P_NONE { Some(b) } else { None }; }
    let (sw, sh) = match p {
        P_NONE => (w, h), P_HORZ | P_HORZ_A | P_HORZ_B => (w, h / 2), P_VERT | P_VERT_A | P_VERT_B => (w / 2, h), P_SPLIT => (w / 2, h / 2),
        P_HORZ_4 => (w, h / 4), _ => (w / 4, h) };
    if (p == P_HORZ_4 || p == P_VERT_4) && (w == 8 || w == 128) { return None; }
    block_of(sw, sh)
}

// transform types
pub const DCT_DCT: usize = 0; pub const ADST_DCT: usize = 1; pub const DCT_ADST: usize = 2; pub const ADST_ADST: usize = 3;
pub const IDTX: usize = 9; pub const V_DCT: usize = 10; pub const H_DCT: usize = 11;
/// 0: two-dimensional, 1: horizontal only, 2: vertical only
pub fn tx_class(t: usize) -> usize { match t { 10 | 12 | 14 => 2, 11 | 13 | 15 => 1, _ => 0 } }
/// number of the set a transform size codes its type from: 0 is DCT only
pub fn tx_set(t: usize, inter: bool, reduced: bool) -> usize {
    let (s, u) = (tx_sqr(t), tx_sqr_up(t));
    if u > 3 { return 0; }
    if inter { if reduced || u == 3 { 3 } else if s == 2 { 2 } else { 1 } }
    else if u == 3 { 0 } else if reduced || s == 2 { 2 } else { 1 }
}
/// the types of a set in coding order (index = symbol)
pub fn tx_set_types(set: usize, inter: bool) -> &'static [usize] {
    match (inter, set) {
        (_, 0) => &[0],
        (false, 1) => &[9, 0, 10, 11, 3, 1, 2],
        (false, _) => &[9, 0, 3, 1, 2],
        (true, 1) => &[9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 4, 5, 3, 6, 7, 8],
        (true, 2) => &[9, 10, 11, 0, 1, 2, 4, 5, 3, 6, 7, 8],
        (true, _) => &[9, 0],
    }
}
/// transform type implied by a chroma intra mode (13: chroma from luma)
pub fn mode_tx(m: usize) -> usize { [0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0][m] }

// reference frames: 0 none, 1 intra, 2.. LAST LAST2 LAST3 GOLDEN BWDREF ALTREF2 ALTREF, i.e. draft number + 1
pub fn backward(r: i32) -> bool { r >= 5 }
pub fn samedir(a: i32, b: i32) -> bool { a > 0 && b > 0 && (a >= 5) == (b >= 5) }
pub fn ref_ctx(a: usize, b: usize) -> usize { if a < b { 0 } else if a == b { 1 } else { 2 } }

/// signed distance of two order hints of `bits` bits
pub fn relative_dist(a: i64, b: i64, enabled: bool, bits: u32) -> i64 {
    if !enabled { return 0; }
    let m = 1i64 << bits;
    let d = (a - b).rem_euclid(m);
    if d >= m / 2 { d - m } else { d }
}
