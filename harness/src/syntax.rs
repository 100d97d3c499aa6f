//! Syntax-element writers: generators of calls with the distribution and symbol the draft
//! prescribes for them, and the monitor that runs sequences of them in one coding session.
use crate::cdfs;
use av1enc::bool_coder::BoolCoder;
use av1enc::cdf::{default_cdf, CDF};
use av1enc::common::MotionVector;
use av1enc::constants::*;
use av1enc::frame::Frame;
use mon::refcoder::*;
use mon::spec;
use mon::*;
use num::FromPrimitive;
use std::collections::HashMap;
use std::sync::OnceLock;

pub use av1enc::constants::BlockSize::*;
pub use av1enc::constants::TxType::*;
pub const BS: [BlockSize; 22] = [BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32, BLOCK_32X16, BLOCK_32X32,
    BLOCK_32X64, BLOCK_64X32, BLOCK_64X64, BLOCK_64X128, BLOCK_128X64, BLOCK_128X128, BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8, BLOCK_16X64, BLOCK_64X16];
pub const TT: [TxType; 16] = [DCT_DCT, ADST_DCT, DCT_ADST, ADST_ADST, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST,
    IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST];
pub const PT: [Partition; 10] = [Partition::PARTITION_NONE, Partition::PARTITION_HORZ, Partition::PARTITION_VERT, Partition::PARTITION_SPLIT, Partition::PARTITION_HORZ_A,
    Partition::PARTITION_HORZ_B, Partition::PARTITION_VERT_A, Partition::PARTITION_VERT_B, Partition::PARTITION_HORZ_4, Partition::PARTITION_VERT_4];
pub const IF: [InterpFilter; 4] = [InterpFilter::EIGHTTAP, InterpFilter::EIGHTTAP_SMOOTH, InterpFilter::EIGHTTAP_SHARP, InterpFilter::BILINEAR];
pub fn tx(i: usize) -> TxSize { TxSize::from_usize(i).unwrap() }
pub fn ym(i: usize) -> YMode { YMode::from_usize(i).unwrap() }
pub fn rf(i: i32) -> RefFrame { RefFrame::from_i32(i).unwrap() }

pub struct Leafs { pub index: HashMap<String, usize>, pub len: Vec<usize>, pub names: Vec<String> }
pub fn leafs() -> &'static Leafs {
    static L: OnceLock<Leafs> = OnceLock::new();
    L.get_or_init(|| {
        let c: Box<CDF> = Box::new(default_cdf);
        let mut l = Leafs { index: HashMap::new(), len: vec![], names: vec![] };
        cdfs::visit(&c, &mut |f, p, s| { let n = cdfs::name(f, p); l.index.insert(n.clone(), l.len.len()); l.len.push(s.len()); l.names.push(n); });
        l
    })
}
fn flat(c: &CDF) -> Vec<&[i32]> { let mut v = Vec::with_capacity(5000); cdfs::visit(c, &mut |_f, _p, l| v.push(l)); v }

pub struct W { pub e: BoolCoder, pub out: Vec<u8>, pub cdf: Box<CDF>, pub f: Frame, pub r: usize, pub c: usize, pub log: String }
/// what the draft says about one call
pub struct Exp { pub dist: String, pub fixed: Option<Vec<i32>>, pub sym: usize }
pub type Elem = (&'static str, fn(&mut Rng, &mut W) -> Exp);

impl W {
    fn n(&self, dist: &str) -> usize { leafs().len[*leafs().index.get(dist).unwrap_or_else(|| panic!("no distribution {}", dist))] - 1 }
    fn cur(&self, dist: &str) -> Vec<i32> { flat(&self.cdf)[leafs().index[dist]].to_vec() }
    fn above(&self) -> Option<ModeInfo> { if self.r == 0 { None } else { self.f.mis[self.r - 1][self.c] } }
    fn left(&self) -> Option<ModeInfo> { if self.c == 0 { None } else { self.f.mis[self.r][self.c - 1] } }
}
fn named(dist: String, sym: usize) -> Exp { Exp { dist, fixed: None, sym } }

pub fn random_mi(r: &mut Rng) -> ModeInfo {
    let intra = r.chance(1, 3);
    let single = intra || r.bool();
    let r0 = if intra { 0 } else { r.range(1, 7) as i32 };
    let r1 = if single { r.range(-1, 0) as i32 } else { r.range(1, 7) as i32 };
    let lv = |r: &mut Rng| match r.below(5) { 0 => 0, 1 => r.usize(5), 2 => 255, 3 => 256 + r.usize(100), _ => r.usize(64) };
    ModeInfo {
        mi_size: BS[r.usize(22)], tx_size: tx(r.usize(19)), tx_type: TT[r.usize(16)], is_inter: !intra, skip: r.bool(), intra, single,
        seg_id_predicted: r.usize(2), skip_mode: r.usize(2), ref_frame: [rf(r0), rf(r1)],
        interp_filter: [r.pick(&IF), r.pick(&IF)], level_context: [lv(r), lv(r), lv(r)], dc_context: [r.usize(3), r.usize(3), r.usize(3)],
        palette_size: [if r.bool() { 0 } else { 2 + r.usize(7) }, if r.bool() { 0 } else { 2 + r.usize(7) }, 0], comp_group_idx: r.usize(2), compound_idx: r.usize(2),
        segment_id: r.usize(8), y_mode: ym(r.usize(13)), mvs: [MotionVector::new(r.range(-2000, 2000) as isize, r.range(-2000, 2000) as isize), MotionVector::new(r.range(-9, 9) as isize, 0)],
    }
}
pub fn random_frame(r: &mut Rng, full: bool) -> Frame {
    let (w, h) = (8 * (1 + r.usize(8)), 8 * (1 + r.usize(8)));
    let mut f = Frame::new(FrameType::INTER_FRAME, w, h);
    let none = if full { 0 } else { r.below(4) };
    f.mis = (0..h / 4).map(|_| (0..w / 4).map(|_| if r.below(10) < none { None } else { Some(random_mi(r)) }).collect()).collect();
    // coefficient contexts are often zero almost everywhere, so that single units decide
    if r.bool() { let keep = 1 + r.below(5); for row in f.mis.iter_mut() { for m in row.iter_mut() { if let Some(ref mut m) = *m { if r.below(20) >= keep { m.level_context = [0; 3]; m.dc_context = [0; 3]; } } } } }
    let ss = r.pick(&[(true, true), (true, false), (false, false)]);
    f.subsampling_x = ss.0; f.subsampling_y = ss.1;
    f
}

macro_rules! el { ($n:expr, |$r:ident, $w:ident| $b:block) => { ($n, { fn f($r: &mut Rng, $w: &mut W) -> Exp { $b } f }) } }

// ---------------------------------------------------------------- block structure and modes
const SQ: [usize; 5] = [3, 6, 9, 12, 15];
fn part_dist(r: &mut Rng, b: usize, a: bool, l: bool) -> String { let _ = r; format!("partition_w{}[{}]", spec::BLOCKS[b].0, 2 * l as usize + a as usize) }
fn psum(c: &[i32], b: usize, ps: &[usize]) -> i32 {
    let w = spec::BLOCKS[b].0;
    ps.iter().filter(|p| **p < 4 || (w > 8 && **p < 8) || (w > 8 && w < 128)).map(|p| c[*p] - c[*p - 1]).sum()
}
pub fn mode_elems() -> Vec<Elem> { vec![
    el!("intra_frame_y_mode", |r, w| { let (y, a, l) = (r.usize(13), r.usize(13), r.usize(13));
        w.e.encode_intra_frame_y_mode(&mut w.out, &mut w.cdf, ym(y), ym(a), ym(l));
        named(format!("intra_frame_y_mode[{}][{}]", spec::INTRA_CTX[a], spec::INTRA_CTX[l]), y) }),
    el!("y_mode", |r, w| { let (y, b) = (r.usize(13), r.usize(22)); w.e.encode_y_mode(&mut w.out, &mut w.cdf, ym(y), BS[b]); named(format!("y_mode[{}]", spec::size_group(b)), y) }),
    el!("uv_mode", |r, w| {
        let ss = r.pick(&[(true, true), (true, false), (false, false)]);
        let b = loop { let b = r.usize(22); if spec::subsampled(b, ss.0, ss.1).is_some() { break b; } };
        let lossless = r.chance(1, 3); let y = r.usize(13);
        let (bw, bh) = spec::BLOCKS[b];
        let cfl = if lossless { spec::subsampled(b, ss.0, ss.1) == Some(0) } else { bw.max(bh) <= 32 };
        let d = format!("uv_mode_cfl_{}[{}]", if cfl { "allowed" } else { "not_allowed" }, y);
        let s = r.usize(w.n(&d));
        w.e.encode_uv_mode(&mut w.out, &mut w.cdf, ym(s), ym(y), BS[b], lossless, ss.0, ss.1);
        named(d, s) }),
    el!("angle_delta_y", |r, w| { let (m, s) = (1 + r.usize(8), r.usize(7)); w.e.encode_angle_delta_y(&mut w.out, &mut w.cdf, ym(m), s); named(format!("angle_delta[{}]", m - 1), s) }),
    el!("angle_delta_uv", |r, w| { let (m, s) = (1 + r.usize(8), r.usize(7)); w.e.encode_angle_delta_uv(&mut w.out, &mut w.cdf, ym(m), s); named(format!("angle_delta[{}]", m - 1), s) }),
    el!("partition", |r, w| { let b = r.pick(&SQ); let (a, l) = (r.bool(), r.bool()); let d = part_dist(r, b, a, l); let s = r.usize(w.n(&d));
        w.e.encode_partition(&mut w.out, &mut w.cdf, BS[b], a, l, PT[s]); named(d, s) }),
    el!("split_or_horz", |r, w| { let b = r.pick(&SQ); let (a, l) = (r.bool(), r.bool()); let d = part_dist(r, b, a, l); let c = w.cur(&d); let s = r.usize(2);
        let p = psum(&c, b, &[spec::P_VERT, spec::P_SPLIT, spec::P_HORZ_A, spec::P_VERT_A, spec::P_VERT_B, spec::P_VERT_4]);
        w.e.encode_split_or_horz(&mut w.out, &mut w.cdf, BS[b], a, l, s as i32);
        Exp { dist: d, fixed: Some(vec![32768 - p, 32768, 0]), sym: s } }),
    el!("split_or_vert", |r, w| { let b = r.pick(&SQ); let (a, l) = (r.bool(), r.bool()); let d = part_dist(r, b, a, l); let c = w.cur(&d); let s = r.usize(2);
        let p = psum(&c, b, &[spec::P_HORZ, spec::P_SPLIT, spec::P_HORZ_A, spec::P_HORZ_B, spec::P_VERT_A, spec::P_HORZ_4]);
        w.e.encode_split_or_vert(&mut w.out, &mut w.cdf, BS[b], a, l, s as i32);
        Exp { dist: d, fixed: Some(vec![32768 - p, 32768, 0]), sym: s } }),
    el!("tx_depth", |r, w| {
        let t = r.usize(19); let depth = 1 + r.usize(4);
        let up = w.above().map_or(0, |m| if m.is_inter { spec::BLOCKS[m.mi_size as usize].0 } else { spec::TXS[m.tx_size as usize].0 });
        let le = w.left().map_or(0, |m| if m.is_inter { spec::BLOCKS[m.mi_size as usize].1 } else { spec::TXS[m.tx_size as usize].1 });
        let ctx = (up >= spec::TXS[t].0) as usize + (le >= spec::TXS[t].1) as usize;
        let d = format!("tx_{0}x{0}[{1}]", [8, 16, 32, 64][depth - 1], ctx);
        let s = r.usize(w.n(&d));
        w.e.encode_tx_depth(&mut w.out, &mut w.cdf, w.r, w.c, tx(t), depth, &mut w.f, s);
        named(d, s) }),
    el!("txfm_split", |r, w| {
        // a block of at least 8 samples in its larger direction, a transform inside it; the
        // transform either touches the block's top / left edge or lies further inside
        let b = loop { let b = r.usize(22); if spec::BLOCKS[b].0.max(spec::BLOCKS[b].1) >= 8 { break b; } };
        let (bw, bh) = spec::BLOCKS[b];
        let max = spec::lg(bw.max(bh).min(64)) - 2;
        let t = loop { let t = r.usize(19); let (tw, th) = spec::TXS[t]; if tw <= bw && th <= bh { break t; } };
        let (row, col) = (w.r, w.c);
        let mr = if row > 0 && w.above().is_some() && r.bool() { row - 1 } else { row };
        let mc = if col > 0 && w.left().is_some() && r.bool() { col - 1 } else { col };
        let up = if mr == row { w.above().map_or(64, |m| if m.skip && m.is_inter { spec::BLOCKS[m.mi_size as usize].0 } else { spec::TXS[m.tx_size as usize].0 }) } else { spec::TXS[w.above().unwrap().tx_size as usize].0 };
        let le = if mc == col { w.left().map_or(64, |m| if m.skip && m.is_inter { spec::BLOCKS[m.mi_size as usize].1 } else { spec::TXS[m.tx_size as usize].1 }) } else { spec::TXS[w.left().unwrap().tx_size as usize].1 };
        let nb = (up < spec::TXS[t].0) as usize + (le < spec::TXS[t].1) as usize;
        let ctx = if spec::tx_sqr_up(t) != max && max > 1 { 3 } else { 0 } + (4 - max) * 6 + nb;
        let s = r.usize(2);
        w.e.encode_txfm_split(&mut w.out, &mut w.cdf, row, col, mr, mc, &mut w.f, tx(t), BS[b], s);
        named(format!("txfm_split[{}]", ctx), s) }),
    el!("segment_id", |r, w| { let (u, l, ul) = (r.range(-1, 2), r.range(-1, 2), r.range(-1, 2)); let s = r.usize(8);
        let ctx = if u < 0 || l < 0 || ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 };
        w.e.encode_segment_id(&mut w.out, &mut w.cdf, s, u as isize, l as isize, ul as isize);
        named(format!("segment_id[{}]", ctx), s) }),
    el!("seg_id_predicted", |r, w| { let s = r.usize(2); let ctx = w.above().map_or(0, |m| m.seg_id_predicted) + w.left().map_or(0, |m| m.seg_id_predicted);
        w.e.encode_seg_id_predicted(&mut w.out, &mut w.cdf, s, w.r, w.c, &mut w.f); named(format!("segment_id_predicted[{}]", ctx), s) }),
    el!("use_filter_intra", |r, w| { let (s, b) = (r.usize(2), r.usize(22)); w.e.encode_use_filter_intra(&mut w.out, &mut w.cdf, s, b); named(format!("filter_intra[{}]", b), s) }),
    el!("filter_intra_mode", |r, w| { let s = r.usize(5); w.e.encode_filter_intra_mode(&mut w.out, &mut w.cdf, s); named("filter_intra_mode".into(), s) }),
    el!("skip_mode", |r, w| { let s = r.usize(2); let ctx = w.above().map_or(0, |m| m.skip_mode) + w.left().map_or(0, |m| m.skip_mode);
        w.e.encode_skip_mode(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("skip_mode[{}]", ctx), s) }),
    el!("skip", |r, w| { let s = r.usize(2); let ctx = w.above().map_or(0, |m| m.skip as usize) + w.left().map_or(0, |m| m.skip as usize);
        w.e.encode_skip(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("skip[{}]", ctx), s) }),
    el!("has_palette_y", |r, w| { let (s, b) = (r.usize(2), r.usize(7)); let ctx = w.above().map_or(0, |m| (m.palette_size[0] > 0) as usize) + w.left().map_or(0, |m| (m.palette_size[0] > 0) as usize);
        w.e.encode_has_palette_y(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c, b); named(format!("palette_y_mode[{}][{}]", b, ctx), s) }),
    el!("has_palette_uv", |r, w| { let s = r.usize(2); let p = if r.bool() { 0 } else { 2 + r.usize(7) };
        w.e.encode_has_palette_uv(&mut w.out, &mut w.cdf, s, p); named(format!("palette_uv_mode[{}]", (p > 0) as usize), s) }),
    el!("palette_size_y_minus_2", |r, w| { let (s, b) = (r.usize(7), r.usize(7)); w.e.encode_palette_size_y_minus_2(&mut w.out, &mut w.cdf, s, b); named(format!("palette_y_size[{}]", b), s) }),
    el!("palette_size_uv_minus_2", |r, w| { let (s, b) = (r.usize(7), r.usize(7)); w.e.encode_palette_size_uv_minus_2(&mut w.out, &mut w.cdf, s, b); named(format!("palette_uv_size[{}]", b), s) }),
    el!("palette_color_idx_y", |r, w| { let n = 2 + r.usize(7); let s = r.usize(n); let (h, ctx) = r.pick(&[(2, 0), (5, 4), (6, 3), (7, 2), (8, 1)]);
        w.e.encode_palette_color_idx_y(&mut w.out, &mut w.cdf, s, h, n); named(format!("palette_size_{}_y_color[{}]", n, ctx), s) }),
    el!("palette_color_idx_uv", |r, w| { let n = 2 + r.usize(7); let s = r.usize(n); let (h, ctx) = r.pick(&[(2, 0), (5, 4), (6, 3), (7, 2), (8, 1)]);
        w.e.encode_palette_color_idx_uv(&mut w.out, &mut w.cdf, s, h, n); named(format!("palette_size_{}_uv_color[{}]", n, ctx), s) }),
    el!("delta_q_abs", |r, w| { let s = r.usize(4); w.e.encode_delta_q_abs(&mut w.out, &mut w.cdf, s); named("delta_q".into(), s) }),
    el!("delta_lf_abs", |r, w| { let (s, m, i) = (r.usize(4), r.usize(2), r.usize(4)); w.e.encode_delta_lf_abs(&mut w.out, &mut w.cdf, s, m, i);
        named(if m == 0 { "delta_lf".into() } else { format!("delta_lf_multi[{}]", i) }, s) }),
    el!("cfl_alpha_signs", |r, w| { let s = r.usize(8); w.e.encode_cfl_alpha_signs(&mut w.out, &mut w.cdf, s); named("cfl_sign".into(), s) }),
    // joint sign = 3*sign_u + sign_v - 1 over (zero, negative, positive); a plane with sign zero codes no magnitude
    el!("cfl_alpha_u", |r, w| { let s = r.usize(16); let (su, sv) = (1 + r.usize(2), r.usize(3)); let j = 3 * su + sv - 1;
        w.e.encode_cfl_alpha_u(&mut w.out, &mut w.cdf, s, j); named(format!("cfl_alpha[{}]", (su - 1) * 3 + sv), s) }),
    el!("cfl_alpha_v", |r, w| { let s = r.usize(16); let (su, sv) = (r.usize(3), 1 + r.usize(2)); let j = 3 * su + sv - 1;
        w.e.encode_cfl_alpha_v(&mut w.out, &mut w.cdf, s, j); named(format!("cfl_alpha[{}]", (sv - 1) * 3 + su), s) }),
    el!("use_wiener", |r, w| { let s = r.usize(2); w.e.encode_use_wiener(&mut w.out, &mut w.cdf, s); named("use_wiener".into(), s) }),
    el!("use_sgrproj", |r, w| { let s = r.usize(2); w.e.encode_use_sgrproj(&mut w.out, &mut w.cdf, s); named("use_sgrproj".into(), s) }),
    el!("restoration_type", |r, w| { let s = r.usize(3); w.e.encode_restoration_type(&mut w.out, &mut w.cdf, s); named("restoration_type".into(), s) }),
] }

// ---------------------------------------------------------------- inter prediction
fn rc(w: &W, a: &[i32], b: &[i32]) -> usize { ref_ctx_of(w.above(), w.left(), a, b) }
pub const FWD: &[i32] = &[1, 2, 3, 4];
pub const BWD: &[i32] = &[5, 6, 7];
macro_rules! refel { ($name:expr, $call:ident, $field:expr, $k:expr, $a:expr, $b:expr) => {
    el!($name, |r, w| { let s = r.usize(2); let ctx = rc(w, $a, $b); w.e.$call(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("{}[{}][{}]", $field, ctx, $k), s) }) } }
pub fn is_inter_ctx(a: Option<ModeInfo>, l: Option<ModeInfo>) -> usize {
    match (l, a) { (Some(l), Some(a)) => match (l.intra, a.intra) { (true, true) => 3, (false, false) => 0, _ => 1 }, (Some(m), None) | (None, Some(m)) => if m.intra { 2 } else { 0 }, _ => 0 }
}
pub fn comp_mode_ctx(a: Option<ModeInfo>, l: Option<ModeInfo>) -> usize {
    let back = |m: &ModeInfo| spec::backward(m.ref_frame[0] as i32);
    match (a, l) {
        (Some(a), Some(l)) => match (a.single, l.single) {
            (true, true) => (back(&a) != back(&l)) as usize,
            (true, false) => 2 + (back(&a) || a.intra) as usize,
            (false, true) => 2 + (back(&l) || l.intra) as usize,
            _ => 4 },
        (Some(m), None) | (None, Some(m)) => if m.single { back(&m) as usize } else { 3 },
        _ => 1 }
}
pub fn ref_ctx_of(a: Option<ModeInfo>, l: Option<ModeInfo>, x: &[i32], y: &[i32]) -> usize {
    let n = |fs: &[i32]| -> usize { [a, l].iter().flatten().map(|m| fs.iter().filter(|f| m.ref_frame[0] as i32 == **f).count() + fs.iter().filter(|f| m.ref_frame[1] as i32 == **f).count()).sum() };
    spec::ref_ctx(n(x), n(y))
}
pub fn comp_ref_type_ctx(a: Option<ModeInfo>, l: Option<ModeInfo>) -> usize {
    // unavailable neighbours count as intra for the purposes of the availability tests below
    let comp = |m: &Option<ModeInfo>| m.map_or(false, |m| !m.intra && !m.single);
    let uni = |m: &Option<ModeInfo>| comp(m) && spec::samedir(m.unwrap().ref_frame[0] as i32, m.unwrap().ref_frame[1] as i32);
    let (ac, lc, au, lu) = (comp(&a), comp(&l), uni(&a), uni(&l));
    match (a, l) {
        (Some(x), Some(y)) if !x.intra && !y.intra => {
            let (a0, l0) = (x.ref_frame[0] as i32, y.ref_frame[0] as i32);
            let same = spec::samedir(a0, l0) as usize;
            match (ac, lc) {
                (false, false) => 1 + 2 * same,
                (false, true) => if lu { 3 + same } else { 1 },
                (true, false) => if au { 3 + same } else { 1 },
                (true, true) => match (au, lu) { (false, false) => 0, (true, true) => 3 + ((a0 == 5) == (l0 == 5)) as usize, _ => 2 },
            }
        }
        (Some(_), Some(_)) => if ac { 1 + 2 * au as usize } else if lc { 1 + 2 * lu as usize } else { 2 },
        _ => if ac { 4 * au as usize } else if lc { 4 * lu as usize } else { 2 },
    }
}
pub fn inter_elems() -> Vec<Elem> { vec![
    el!("new_mv", |r, w| { let (s, c) = (r.usize(2), r.usize(6)); w.e.encode_new_mv(&mut w.out, &mut w.cdf, s, c); named(format!("new_mv[{}]", c), s) }),
    el!("zero_mv", |r, w| { let (s, c) = (r.usize(2), r.usize(2)); w.e.encode_zero_mv(&mut w.out, &mut w.cdf, s, c); named(format!("zero_mv[{}]", c), s) }),
    el!("ref_mv", |r, w| { let (s, c) = (r.usize(2), r.usize(6)); w.e.encode_ref_mv(&mut w.out, &mut w.cdf, s, c); named(format!("ref_mv[{}]", c), s) }),
    el!("drl_mode", |r, w| { let st: Vec<usize> = (0..1 + r.usize(8)).map(|_| r.usize(3)).collect(); let i = r.usize(st.len()); let s = r.usize(2);
        w.e.encode_drl_mode(&mut w.out, &mut w.cdf, s, i, &st); named(format!("drl_mode[{}]", st[i]), s) }),
    el!("is_inter", |r, w| { let s = r.usize(2);
        let ctx = is_inter_ctx(w.above(), w.left());
        w.e.encode_is_inter(&mut w.out, &mut w.cdf, s == 1, w.r, w.c, &mut w.f); named(format!("is_inter[{}]", ctx), s) }),
    el!("comp_mode", |r, w| { let s = r.usize(2);
        let ctx = comp_mode_ctx(w.above(), w.left());
        w.e.encode_comp_mode(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("comp_mode[{}]", ctx), s) }),
    refel!("comp_ref", encode_comp_ref, "comp_ref", 0, &[1, 2], &[3, 4]),
    refel!("comp_ref_p1", encode_comp_ref_p1, "comp_ref", 1, &[1], &[2]),
    refel!("comp_ref_p2", encode_comp_ref_p2, "comp_ref", 2, &[3], &[4]),
    refel!("comp_bwdref", encode_comp_bwdref, "comp_bwd_ref", 0, &[5, 6], &[7]),
    refel!("comp_bwdref_p1", encode_comp_bwdref_p1, "comp_bwd_ref", 1, &[5], &[6]),
    refel!("single_ref_p1", encode_single_ref_p1, "single_ref", 0, FWD, BWD),
    refel!("single_ref_p2", encode_single_ref_p2, "single_ref", 1, &[5, 6], &[7]),
    refel!("single_ref_p3", encode_single_ref_p3, "single_ref", 2, &[1, 2], &[3, 4]),
    refel!("single_ref_p4", encode_single_ref_p4, "single_ref", 3, &[1], &[2]),
    refel!("single_ref_p5", encode_single_ref_p5, "single_ref", 4, &[3], &[4]),
    refel!("single_ref_p6", encode_single_ref_p6, "single_ref", 5, &[5], &[6]),
    refel!("uni_comp_ref", encode_uni_comp_ref, "uni_comp_ref", 0, FWD, BWD),
    refel!("uni_comp_ref_p1", encode_uni_comp_ref_p1, "uni_comp_ref", 1, &[2], &[3, 4]),
    refel!("uni_comp_ref_p2", encode_uni_comp_ref_p2, "uni_comp_ref", 2, &[3], &[4]),
    el!("comp_ref_type", |r, w| { let s = r.usize(2); let ctx = comp_ref_type_ctx(w.above(), w.left());
        w.e.encode_comp_ref_type(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("comp_ref_type[{}]", ctx), s) }),
    el!("compound_mode", |r, w| { let (s, rm, nm) = (r.usize(8), r.usize(6), r.usize(6));
        let ctx = [[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]][rm / 2][nm.min(4)];
        w.e.encode_compound_mode(&mut w.out, &mut w.cdf, s, rm, nm); named(format!("compound_mode[{}]", ctx), s) }),
    el!("interp_filter", |r, w| { let (s, dir) = (r.usize(3), r.usize(2));
        // the block itself: a real inter block
        let mut m = random_mi(r); m.intra = false; m.is_inter = true; let r0 = r.range(1, 7) as i32; let r1 = r.range(-1, 7) as i32; m.ref_frame = [rf(r0), rf(r1)];
        w.f.mis[w.r][w.c] = Some(m);
        let ty = |n: Option<ModeInfo>| match n { Some(n) if n.ref_frame[0] as i32 == r0 || n.ref_frame[1] as i32 == r0 => n.interp_filter[dir] as usize, _ => 3 };
        let (l, a) = (ty(w.left()), ty(w.above()));
        let ctx = (dir * 2 + (r1 > 0) as usize) * 4 + if l == a { l } else if l == 3 { a } else if a == 3 { l } else { 3 };
        w.e.encode_interp_filter(&mut w.out, &mut w.cdf, IF[s], &mut w.f, w.r, w.c, dir);
        named(format!("interp_filter[{}]", ctx), s) }),
    el!("motion_mode", |r, w| { let (s, b) = (r.usize(3), r.usize(22)); w.e.encode_motion_mode(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("motion_mode[{}]", b), s) }),
    el!("mv_joint", |r, w| { let (s, c) = (r.usize(4), r.usize(2));
        let j = match s { 0 => MvJoint::MV_JOINT_ZERO, 1 => MvJoint::MV_JOINT_HNZVZ, 2 => MvJoint::MV_JOINT_HZVNZ, _ => MvJoint::MV_JOINT_HNZVNZ };
        w.e.encode_mv_joint(&mut w.out, &mut w.cdf, j, c); named(format!("mv_joint[{}]", c), s) }),
    el!("mv_sign", |r, w| { let (s, c, k) = (r.usize(2), r.usize(2), r.usize(2));
        w.e.encode_mv_sign(&mut w.out, &mut w.cdf, s, c, k); named(format!("mv_sign[{}][{}]", c, k), s) }),
    el!("mv_class", |r, w| { let (s, c, k) = (r.usize(11), r.usize(2), r.usize(2)); w.e.encode_mv_class(&mut w.out, &mut w.cdf, s, c, k); named(format!("mv_class[{}][{}]", c, k), s) }),
    el!("mv_class0_bit", |r, w| { let (s, c, k) = (r.usize(2), r.usize(2), r.usize(2)); w.e.encode_mv_class0_bit(&mut w.out, &mut w.cdf, s, c, k); named(format!("mv_class0_bit[{}][{}]", c, k), s) }),
    el!("mv_class0_fr", |r, w| { let (b, c, k) = (r.usize(2), r.usize(2), r.usize(2)); let d = format!("mv_class0_fr[{}][{}][{}]", c, k, b); let s = r.usize(w.n(&d).min(4));
        w.e.encode_mv_class0_fr(&mut w.out, &mut w.cdf, s, b, c, k); named(d, s) }),
    el!("mv_class0_hp", |r, w| { let (s, c, k) = (r.usize(2), r.usize(2), r.usize(2)); w.e.encode_mv_class0_hp(&mut w.out, &mut w.cdf, s, c, k); named(format!("mv_class0_hp[{}][{}]", c, k), s) }),
    el!("mv_fr", |r, w| { let (c, k) = (r.usize(2), r.usize(2)); let d = format!("mv_fr[{}][{}]", c, k); let s = r.usize(w.n(&d).min(4)); w.e.encode_mv_fr(&mut w.out, &mut w.cdf, s, c, k); named(d, s) }),
    el!("mv_hp", |r, w| { let (s, c, k) = (r.usize(2), r.usize(2), r.usize(2)); w.e.encode_mv_hp(&mut w.out, &mut w.cdf, s, c, k); named(format!("mv_hp[{}][{}]", c, k), s) }),
    el!("mv_bit", |r, w| { let (s, i, c, k) = (r.usize(2), r.usize(10), r.usize(2), r.usize(2)); w.e.encode_mv_bit(&mut w.out, &mut w.cdf, s, i, c, k); named(format!("mv_bit[{}][{}][{}]", c, k, i), s) }),
    el!("comp_group_idx", |r, w| { let s = r.usize(2); let v = |m: Option<ModeInfo>| m.map_or(0, |m| if !m.single { m.comp_group_idx } else if m.ref_frame[0] as i32 == 7 { 3 } else { 0 });
        let ctx = (v(w.above()) + v(w.left())).min(5);
        w.e.encode_comp_group_idx(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c); named(format!("comp_group_idx[{}]", ctx), s) }),
    el!("compound_idx", |r, w| { let s = r.usize(2); let bits = 1 + r.below(8) as u32; let en = r.chance(3, 4);
        let small = r.bool();
        let hints: Vec<usize> = (0..8).map(|_| if small { r.usize((1usize << bits).min(4)) } else { r.usize(1 << bits) }).collect(); let cur = r.usize(1 << bits);
        let (a, b) = (r.range(1, 7) as i32, r.range(1, 7) as i32);
        let d = |k: i32| spec::relative_dist(hints[k as usize] as i64, cur as i64, en, bits).abs();
        let v = |m: Option<ModeInfo>| m.map_or(0, |m| if !m.single { m.compound_idx } else { (m.ref_frame[0] as i32 == 7) as usize });
        let ctx = if d(a) == d(b) { 3 } else { 0 } + v(w.above()) + v(w.left());
        w.e.encode_compound_idx(&mut w.out, &mut w.cdf, s, &hints, cur, &[rf(a), rf(b)], &mut w.f, w.r, w.c, en, bits as usize);
        named(format!("compound_idx[{}]", ctx), s) }),
    el!("compound_type", |r, w| { let (s, b) = (r.usize(2), r.usize(22)); w.e.encode_compound_type(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("compound_type[{}]", b), s) }),
    el!("interintra", |r, w| { let (s, b) = (r.usize(2), r.usize(22)); w.e.encode_interintra(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("inter_intra[{}]", spec::size_group(b)), s) }),
    el!("interintra_mode", |r, w| { let (s, b) = (r.usize(4), r.usize(22)); w.e.encode_interintra_mode(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("inter_intra_mode[{}]", spec::size_group(b)), s) }),
    el!("wedge_index", |r, w| { let (s, b) = (r.usize(16), r.usize(22)); w.e.encode_wedge_index(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("wedge_index[{}]", b), s) }),
    el!("wedge_interintra", |r, w| { let (s, b) = (r.usize(2), r.usize(22)); w.e.encode_wedge_interintra(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("wedge_inter_intra[{}]", b), s) }),
    el!("use_obmc", |r, w| { let (s, b) = (r.usize(2), r.usize(22)); w.e.encode_use_obmc(&mut w.out, &mut w.cdf, s, BS[b]); named(format!("use_obmc[{}]", b), s) }),
] }

// ---------------------------------------------------------------- transform types and coefficients
/// the transform type in force for a block of a plane
pub fn ref_tx_type(w: &W, plane: usize, t: usize, x4: usize, y4: usize, lossless: bool, inter: bool, reduced: bool, uv: usize) -> usize {
    if lossless || spec::tx_sqr_up(t) > 3 { return 0; }
    let set = spec::tx_set_types(spec::tx_set(t, inter, reduced), inter);
    let ty = if plane == 0 { w.f.mis[w.r][w.c].map_or(0, |m| m.tx_type as usize) }
        else if inter { let x = w.c.max(x4 << w.f.subsampling_x as usize); let y = w.r.max(y4 << w.f.subsampling_y as usize); w.f.mis[y][x].map_or(0, |m| m.tx_type as usize) }
        else { spec::mode_tx(uv) };
    if set.contains(&ty) { ty } else { 0 }
}
/// arguments shared by the coefficient elements
pub struct Co { pub plane: usize, pub t: usize, pub x4: usize, pub y4: usize, pub lossless: bool, pub inter: bool, pub reduced: bool, pub uv: usize, pub ptype: usize, pub txc: usize, pub class: usize, pub ty: usize }
pub fn co(r: &mut Rng, w: &W) -> Co {
    let plane = r.usize(3); let t = r.usize(19); let inter = r.bool();
    let (sx, sy) = if plane > 0 { (w.f.subsampling_x as usize, w.f.subsampling_y as usize) } else { (0, 0) };
    let (cols, rows) = (w.f.mis[0].len(), w.f.mis.len());
    // positions in units of 4x4 blocks of the plane, inside the frame
    let (x4, y4) = (r.usize(cols >> sx), r.usize(rows >> sy));
    let lossless = r.chance(1, 8); let reduced = r.chance(1, 4); let uv = r.usize(14);
    let ty = ref_tx_type(w, plane, t, x4, y4, lossless, inter, reduced, uv);
    Co { plane, t, x4, y4, lossless, inter, reduced, uv, ptype: (plane > 0) as usize, txc: (spec::tx_sqr(t) + spec::tx_sqr_up(t) + 1) >> 1, class: spec::tx_class(ty), ty }
}
pub fn levels(r: &mut Rng, n: usize, signed: bool) -> Vec<isize> {
    let kind = r.below(5);
    (0..n).map(|_| { let m = match kind { 0 => 0, 1 => r.below(3), 2 => r.below(5), 3 => r.below(40), _ => r.edgy(1 << 20) } as isize; if signed && r.bool() { -m } else { m } }).collect()
}
pub fn ref_coeff_base_ctx(t: usize, class: usize, pos: usize, q: &[isize]) -> usize {
    let (w, h) = spec::TXS[spec::tx_adjusted(t)];
    let (row, col) = (pos / w, pos % w);
    let offs: [(usize, usize); 5] = match class { 0 => [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)], 1 => [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)], _ => [(0, 1), (1, 0), (2, 0), (3, 0), (4, 0)] };
    let mag: usize = offs.iter().filter(|(dr, dc)| row + dr < h && col + dc < w).map(|(dr, dc)| (q[(row + dr) * w + col + dc].unsigned_abs()).min(3)).sum();
    let ctx = ((mag + 1) / 2).min(4);
    match class {
        0 => if pos == 0 { 0 } else {
            let (tw, th) = spec::TXS[t];
            ctx + if tw < th && row < 2 { 11 } else if tw > th && col < 2 { 16 } else if tw == th && row + col < 2 { 1 } else if row + col < 4 { 6 } else { 21 } },
        1 => ctx + 26 + 5 * col.min(2),
        _ => ctx + 26 + 5 * row.min(2),
    }
}
pub fn ref_coeff_br_ctx(t: usize, class: usize, pos: usize, q: &[isize]) -> usize {
    let (w, h) = spec::TXS[spec::tx_adjusted(t)];
    let (row, col) = (pos / w, pos % w);
    let offs: [(usize, usize); 3] = match class { 0 => [(0, 1), (1, 0), (1, 1)], 1 => [(0, 1), (1, 0), (0, 2)], _ => [(0, 1), (1, 0), (2, 0)] };
    let mag: usize = offs.iter().filter(|(dr, dc)| row + dr < h && col + dc < w).map(|(dr, dc)| (q[(row + dr) * w + col + dc] as usize).min(15)).sum();
    let mag = ((mag + 1) / 2).min(6);
    if pos == 0 { return mag; }
    let near = match class { 0 => row < 2 && col < 2, 1 => col == 0, _ => row == 0 };
    mag + if near { 7 } else { 14 }
}
macro_rules! eobel { ($name:expr, $call:ident) => { el!($name, |r, w| {
    let c = co(r, w); let d = format!("{}[0][{}][{}]", $name, c.ptype, (c.class != 0) as usize); let s = r.usize(w.n(&d));
    w.e.$call(&mut w.out, &mut w.cdf, s, &mut w.f, w.r, w.c, ym(c.uv), c.lossless, c.inter, c.reduced, c.plane, tx(c.t), c.x4, c.y4, c.ptype);
    named(d, s) }) } }
/// the units along the upper or left edge of a transform block of n units that have been coded, inside the frame
fn edge(w: &W, c: &Co, n: usize, above: bool) -> Vec<ModeInfo> {
    let (sx, sy) = if c.plane > 0 { (w.f.subsampling_x as usize, w.f.subsampling_y as usize) } else { (0, 0) };
    let (rows, cols) = (w.f.mis.len() as isize, w.f.mis[0].len() as isize);
    (0..n).filter_map(|k| {
        // in the units of the plane, then the last luma unit that belongs to it
        let (y, x) = if above { (c.y4 as isize - 1, (c.x4 + k) as isize) } else { ((c.y4 + k) as isize, c.x4 as isize - 1) };
        let (y, x) = (((y + 1) << sy) - 1, ((x + 1) << sx) - 1);
        if y < 0 || x < 0 || y >= rows || x >= cols { None } else { w.f.mis[y as usize][x as usize] }
    }).collect()
}
fn span(r: &mut Rng, c: &Co) -> (usize, usize) { let _ = r; (spec::TXS[c.t].0 / 4, spec::TXS[c.t].1 / 4) }
pub fn coeff_elems() -> Vec<Elem> { vec![
    el!("all_zero", |r, w| {
        let mut c = co(r, w);
        let (sx, sy) = (w.f.subsampling_x, w.f.subsampling_y);
        let b = loop { let b = r.usize(22); if c.plane == 0 || spec::subsampled(b, sx, sy).is_some() { break b; } };
        let pb = if c.plane == 0 { b } else { spec::subsampled(b, sx, sy).unwrap() };
        let (bw, bh) = spec::BLOCKS[pb];
        // a transform that fits the block, often the largest
        c.t = match spec::tx_of(bw, bh) { Some(t) if r.bool() => t, _ => loop { let t = r.usize(19); if spec::TXS[t].0 <= bw && spec::TXS[t].1 <= bh { break t; } } };
        let (tw, th) = spec::TXS[c.t];
        let txc = r.usize(5);
        let (w4, h4) = span(r, &c);
        let ctx = if c.plane == 0 {
            let top = edge(w, &c, w4, true).iter().map(|m| m.level_context[0]).max().unwrap_or(0).min(255); let left = edge(w, &c, h4, false).iter().map(|m| m.level_context[0]).max().unwrap_or(0).min(255);
            let (lo, hi) = (top.min(left), top.max(left));
            if bw == tw && bh == th { 0 } else if hi == 0 { 1 } else if lo == 0 { if hi > 3 { 3 } else { 2 } } else if hi <= 3 { 4 } else if lo <= 3 { 5 } else { 6 }
        } else {
            let nz = |v: Vec<ModeInfo>| v.iter().any(|m| m.level_context[c.plane] != 0 || m.dc_context[c.plane] != 0) as usize;
            7 + nz(edge(w, &c, w4, true)) + nz(edge(w, &c, h4, false)) + if bw * bh > tw * th { 3 } else { 0 }
        };
        let s = r.usize(2);
        w.e.encode_all_zero(&mut w.out, &mut w.cdf, s, c.plane, tx(c.t), txc, &mut w.f, BS[b], w.r, w.c, w4, h4, c.x4, c.y4);
        named(format!("txb_skip[0][{}][{}]", txc, ctx), s) }),
    eobel!("eob_pt_16", encode_eob_pt_16), eobel!("eob_pt_32", encode_eob_pt_32), eobel!("eob_pt_64", encode_eob_pt_64), eobel!("eob_pt_128", encode_eob_pt_128),
    eobel!("eob_pt_256", encode_eob_pt_256), eobel!("eob_pt_512", encode_eob_pt_512), eobel!("eob_pt_1024", encode_eob_pt_1024),
    el!("eob_extra", |r, w| { let (s, a, p, k) = (r.usize(2), r.usize(5), r.usize(2), r.usize(22)); w.e.encode_eob_extra(&mut w.out, &mut w.cdf, s, a, p, k); named(format!("eob_extra[0][{}][{}][{}]", a, p, k), s) }),
    el!("coeff_base", |r, w| {
        let c = co(r, w); let (aw, ah) = spec::TXS[spec::tx_adjusted(c.t)]; let n = aw * ah;
        let q = levels(r, n, true);
        let mut scan: Vec<usize> = (0..n).collect(); for i in (1..n.min(40)).rev() { let j = r.usize(n); scan.swap(i, j); }
        let k = if r.chance(1, 3) { r.usize(n.min(12)) } else { r.usize(n) };
        let ctx = ref_coeff_base_ctx(c.t, c.class, scan[k], &q); let s = r.usize(4);
        w.e.encode_coeff_base(&mut w.out, &mut w.cdf, s, tx(c.t), c.txc, c.ptype, c.plane, c.x4, c.y4, &scan, k, &mut w.f, c.lossless, c.inter, c.reduced, ym(c.uv), w.r, w.c, &q);
        named(format!("coeff_base[0][{}][{}][{}]", c.txc, c.ptype, ctx), s) }),
    el!("coeff_base_eob", |r, w| {
        let c = co(r, w); let (aw, ah) = spec::TXS[spec::tx_adjusted(c.t)]; let n = aw * ah;
        let q = levels(r, n, true); let scan: Vec<usize> = (0..n).collect();
        let k = match r.below(4) { 0 => 0, 1 => (n / 8 + r.usize(3) - 1).min(n - 1), 2 => (n / 4 + r.usize(3) - 1).min(n - 1), _ => r.usize(n) };
        let ctx = if k == 0 { 0 } else if k <= n / 8 { 1 } else if k <= n / 4 { 2 } else { 3 }; let s = r.usize(3);
        w.e.encode_coeff_base_eob(&mut w.out, &mut w.cdf, s, tx(c.t), c.txc, c.ptype, c.plane, c.x4, c.y4, &scan, k, &mut w.f, c.lossless, c.inter, c.reduced, ym(c.uv), w.r, w.c, &q);
        named(format!("coeff_base_eob[0][{}][{}][{}]", c.txc, c.ptype, ctx), s) }),
    el!("dc_sign", |r, w| {
        let c = co(r, w); let (w4, h4) = (1 + r.usize(16), 1 + r.usize(16)); let s = r.usize(2);
        let v = |v: Vec<ModeInfo>| v.iter().map(|m| match m.dc_context[c.plane] { 1 => -1i64, 2 => 1, _ => 0 }).sum::<i64>();
        let sum = v(edge(w, &c, w4, true)) + v(edge(w, &c, h4, false));
        w.e.encode_dc_sign(&mut w.out, &mut w.cdf, s, c.ptype, &mut w.f, c.plane, w.r, w.c, w4, h4, c.x4, c.y4);
        named(format!("dc_sign[0][{}][{}]", c.ptype, if sum < 0 { 1 } else if sum > 0 { 2 } else { 0 }), s) }),
    el!("coeff_br", |r, w| {
        let c = co(r, w); let (aw, ah) = spec::TXS[spec::tx_adjusted(c.t)]; let n = aw * ah;
        let q = levels(r, n, false);
        let pos = if r.chance(1, 3) { let (a, b) = (r.usize(3), r.usize(3)); a * aw + b } else { r.usize(n) };
        let ctx = ref_coeff_br_ctx(c.t, c.class, pos, &q); let s = r.usize(4);
        w.e.encode_coeff_br(&mut w.out, &mut w.cdf, s, &mut w.f, c.txc, c.lossless, c.inter, c.reduced, ym(c.uv), pos, c.ptype, tx(c.t), c.x4, c.y4, c.plane, &q, w.r, w.c);
        named(format!("coeff_br[0][{}][{}][{}]", c.txc.min(3), c.ptype, ctx), s) }),
    el!("intra_tx_type", |r, w| {
        let set = 1 + r.usize(2); let types = spec::tx_set_types(set, false); let s = r.usize(types.len());
        let t = loop { let t = r.usize(19); if spec::tx_sqr(t) < 4 { break t; } };
        let fi = r.chance(1, 3); let fm = r.usize(5); let y = r.usize(13);
        let dir = if fi { [0, 1, 2, 6, 0][fm] } else { y };
        w.e.encode_intra_tx_type(&mut w.out, &mut w.cdf, TT[types[s]], set, tx(t), fi, fm, ym(y));
        named(format!("intra_tx_type_set{}[{}][{}]", set, spec::tx_sqr(t), dir), s) }),
    el!("inter_tx_type", |r, w| {
        let set = 1 + r.usize(3); let types = spec::tx_set_types(set, true); let s = r.usize(types.len());
        let t = loop { let t = r.usize(19); if spec::tx_sqr(t) < 4 { break t; } };
        w.e.encode_inter_tx_type(&mut w.out, &mut w.cdf, TT[types[s]], tx(t), set);
        named(format!("inter_tx_type_set{}[{}]", set, spec::tx_sqr(t)), s) }),
] }

/// One tile-like session: a scrambled probability state, a random frame, `k` elements.
pub fn session(rng: &mut Rng, run: &Runner, elems: &[Elem], k: usize, only: Option<usize>, full_frame: bool) -> CaseResult {
    let mut cdf: Box<CDF> = Box::new(default_cdf);
    // make neighbouring contexts distinguishable and the counters various
    cdfs::visit_mut(&mut cdf, &mut |_f, l| { for _ in 0..rng.usize(3) { let s = rng.usize(l.len() - 1); adapt(l, s); } });
    let f = random_frame(rng, full_frame);
    let mut w = W { e: BoolCoder::new(), out: vec![], cdf, f, r: 0, c: 0, log: String::new() };
    w.e.init_encoder();
    let mut steps: Vec<(&str, String, Vec<i32>, usize)> = vec![];
    let mut contexts = 0u64;
    for _ in 0..k {
        let (rows, cols) = (w.f.mis.len(), w.f.mis[0].len());
        w.r = if rng.chance(1, 5) { 0 } else { rng.usize(rows) };
        w.c = if rng.chance(1, 5) { 0 } else { rng.usize(cols) };
        let (name, f) = elems[only.unwrap_or_else(|| rng.usize(elems.len()))];
        let before = w.cdf.clone();
        let before_mis = w.f.mis.clone();
        let x = f(rng, &mut w);
        // the frame's mode information is read, never written (the generator may set the block itself)
        for (a, b) in w.f.mis.iter().enumerate() { for (c, m) in b.iter().enumerate() { if (a, c) != (w.r, w.c) && *m != before_mis[a][c] { return Err(format!("{}: mode information at ({}, {}) changed", name, a, c)); } } }
        let (fb, fa) = (flat(&before), flat(&w.cdf));
        let idx = *leafs().index.get(&x.dist).ok_or_else(|| format!("no distribution {}", x.dist))?;
        let dist = match &x.fixed { Some(v) => v.clone(), None => fb[idx].to_vec() };
        for i in 0..fb.len() {
            if i == idx && x.fixed.is_none() {
                let mut want = fb[i].to_vec();
                adapt(&mut want, x.sym);
                if fa[i] != &want[..] {
                    let other: Vec<&String> = (0..fb.len()).filter(|j| fa[*j] != fb[*j]).map(|j| &leafs().names[j]).collect();
                    return Err(format!("{} = {} at ({}, {}) should adapt {} from {:?} to {:?}, it is {:?}; changed: {:?}", name, x.sym, w.r, w.c, x.dist, fb[i], want, fa[i], other));
                }
            } else if fa[i] != fb[i] {
                return Err(format!("{} = {} at ({}, {}) changed {}, the draft codes it with {}", name, x.sym, w.r, w.c, leafs().names[i], x.dist));
            }
        }
        contexts ^= hash_of(&x.dist);
        run.count(name, 1);
        steps.push((name, x.dist, dist, x.sym));
    }
    w.e.exit_encoder(&mut w.out);
    // exactly these symbols are in the stream: an independent decoder reads them back
    let mut d = match RefDecoder::new(&w.out) { Some(d) => d, None => return Err("no stream".into()) };
    for (i, (name, dn, dist, s)) in steps.iter().enumerate() {
        let g = d.decode(dist);
        if g != Some(*s) { return Err(format!("element {} of {}: {} was written as {}, a decoder using {} reads {:?}", i, steps.len(), name, s, dn, g)); }
    }
    // and nothing else: the stream is no longer than those symbols need
    let mut e = RefEncoder::new();
    for (_, _, dist, s) in &steps { e.encode(*s, dist); }
    let want = e.shifts() + 16;
    if w.out.len() > want + 8 + 7 { return Err(format!("{} bits for {} elements that need {}", w.out.len(), steps.len(), want)); }
    Ok(Case::new(hash_bytes(&w.out) ^ contexts, steps.len() > 1, steps.iter().take(8).map(|s| format!("{}={} with {}", s.0, s.3, s.1)).collect::<Vec<_>>().join("; ")))
}

pub fn drive(r: &mut Runner, elems: Vec<Elem>, per: (u64, u64), mixed: (u64, u64), full_frame: bool) {
    for e in &elems { r.require(e.0); }
    let el = &elems;
    let n = r.n(per.0, per.1) * elems.len() as u64;
    r.suite("per-element", n, |rng, i, run| session(rng, run, el, 24, Some(i as usize % el.len()), full_frame));
    let n = r.n(mixed.0, mixed.1);
    r.suite("mixed-sessions", n, |rng, _i, run| session(rng, run, el, 60, None, full_frame));
}
