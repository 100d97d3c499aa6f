//! Shared by C25 and C26: the draft's parsing of a tile whose blocks carry default settings.
use crate::blockinfo::*;
use crate::cdfs;
use crate::syntax::*;
use av1enc::block::{LRUnit, PartitionTree, Superblock};
use av1enc::cdf::{default_cdf, CDF};
use av1enc::constants::*;
use av1enc::encoder::EncoderContext;
use av1enc::frame::Frame;
use av1enc::tile_encoder::verif;
use mon::refcoder::*;
use mon::*;
use std::collections::BTreeMap;

pub const NAMES: [&str; 10] = ["NONE", "HORZ", "VERT", "SPLIT", "HORZ_A", "HORZ_B", "VERT_A", "VERT_B", "HORZ_4", "VERT_4"];
pub fn size(w: usize, h: usize) -> usize { (0..22).find(|b| w4(*b) == w && h4(*b) == h).unwrap_or(22) }
/// the partitions a square block of n 4x4 units has
pub fn exists(p: usize, n: usize) -> bool { match p { 0 => true, 1 | 2 | 3 => n >= 2, 4..=7 => n >= 4, _ => n >= 4 && n <= 16 } }
/// the blocks of a partition other than SPLIT: row, column, size (in 4x4 units)
pub fn blocks(p: usize, r: usize, c: usize, n: usize, rows: usize, cols: usize) -> Vec<(usize, usize, usize)> {
    let (h, q) = (n / 2, n / 4);
    let (full, wide, tall, small) = (size(n, n), size(n, h), size(h, n), size(h, h));
    let v: Vec<(usize, usize, usize)> = match p {
        0 => vec![(r, c, full)],
        1 => vec![(r, c, wide), (r + h, c, wide)],
        2 => vec![(r, c, tall), (r, c + h, tall)],
        4 => vec![(r, c, small), (r, c + h, small), (r + h, c, wide)],
        5 => vec![(r, c, wide), (r + h, c, small), (r + h, c + h, small)],
        6 => vec![(r, c, small), (r + h, c, small), (r, c + h, tall)],
        7 => vec![(r, c, tall), (r, c + h, small), (r + h, c + h, small)],
        8 => (0..4).map(|i| (r + q * i, c, size(n, q))).collect(),
        _ => (0..4).map(|i| (r, c + q * i, size(q, n))).collect(),
    };
    v.into_iter().filter(|b| b.0 < rows && b.1 < cols).collect()
}

pub struct World {
    pub f: Frame, pub rows: usize, pub cols: usize, pub r0: usize, pub r1: usize, pub c0: usize, pub c1: usize, pub use128: bool, pub planes: usize,
    pub enabled: bool, pub pre: bool, pub last: usize, pub skip0: bool, pub cdef_off: bool, pub cbits: u32, pub grid: Vec<Vec<isize>>,
    /// quantizer deltas: resolution, filter deltas per block; current index; still to be read
    pub dq: Option<(u32, usize, bool)>, pub base: i64, pub q: i64, pub need: bool, pub frozen: bool,
}
pub struct Node { pub p: usize, pub b: usize, pub kids: Vec<Node>, pub seen: bool }

impl World {
    pub fn mi(&self, r: usize, c: usize) -> Option<ModeInfo> { self.f.mis[r][c] }
    pub fn above(&self, r: usize, c: usize) -> Option<ModeInfo> { if r > self.r0 { self.mi(r - 1, c) } else { None } }
    pub fn left(&self, r: usize, c: usize) -> Option<ModeInfo> { if c > self.c0 { self.mi(r, c - 1) } else { None } }
    /// one block with default settings
    pub fn block(&mut self, rd: &mut Rd, cdf: &mut CDF, r: usize, c: usize, b: usize, ev: &mut BTreeMap<String, u64>) -> Result<(), String> {
        let at = format!("{}x{} block at ({}, {})", w4(b) * 4, h4(b) * 4, r, c);
        let (a, l) = (self.above(r, c), self.left(r, c));
        let id = |m: Option<ModeInfo>| m.map_or(-1, |m| m.segment_id as i64);
        let ul = if r > self.r0 && c > self.c0 { id(self.mi(r - 1, c - 1)) } else { -1 };
        let (pu, pl) = (id(a), id(l));
        let ctx = if pu < 0 || pl < 0 { 0 } else if ul == pu && ul == pl { 2 } else if ul == pu || ul == pl || pu == pl { 1 } else { 0 };
        let pred = if pu < 0 { pl.max(0) } else if pl < 0 { pu } else if ul == pu { pu } else { pl };
        // the symbol of segment 0: its rank around the prediction
        let max = self.last as i64 + 1;
        let rank = if pred == 0 { 0 } else if pred >= max - 1 { max - 1 } else if 2 * pred < max { 2 * pred } else if 2 * pred <= 2 * (max - pred - 1) { 2 * pred } else { max - 1 };
        let mut seg = |rd: &mut Rd, cdf: &mut CDF| -> Result<(), String> { let s = rd.sym(&mut cdf.segment_id[ctx])? as i64; ensure_eq!(s, rank, "segment symbol of the {} (predicted {} of {})", at, pred, max); Ok(()) };
        if self.enabled && self.pre { seg(rd, cdf)?; }
        let skip = self.enabled && self.pre && self.skip0;
        if !skip {
            let k = a.map_or(0, |m| m.skip as usize) + l.map_or(0, |m| m.skip as usize);
            ensure_eq!(rd.sym(&mut cdf.skip[k])?, 0, "skip of the {}", at);
        }
        if self.enabled && !self.pre { seg(rd, cdf)?; }
        if !skip && !self.cdef_off {
            let (y, x) = (r & !15, c & !15);
            if self.grid[y][x] == -1 {
                ensure_eq!(rd.lit(self.cbits)?, 0, "CDEF index of the {}", at);
                for i in (y..y + h4(b)).step_by(16) { for j in (x..x + w4(b)).step_by(16) { self.grid[i][j] = 0; } }
                *ev.entry("CDEF index".into()).or_insert(0) += 1;
            }
        }
        if self.need && !(skip && w4(b).min(h4(b)) == if self.use128 { 32 } else { 16 }) {
            let (res, lfs, multi) = self.dq.unwrap();
            let mut d = rd.sym(&mut cdf.delta_q)? as i64;
            if d == 3 { let n = rd.lit(3)? + 1; d = rd.lit(n as u32)? + (1 << n) + 1; }
            if d > 0 && rd.lit(1)? == 1 { d = -d; }
            self.q += d << res;
            ensure_eq!(self.q, 0, "quantizer index of the {} (resolution {})", at, res);
            for i in 0..lfs { ensure_eq!(rd.sym(if multi { &mut cdf.delta_lf_multi[i] } else { &mut cdf.delta_lf })?, 0, "filter delta {} of the {}", i, at); }
            *ev.entry("deltas".into()).or_insert(0) += 1;
        }
        self.need = false;
        ensure_eq!(rd.sym(&mut cdf.is_inter[is_inter_ctx(a, l)])?, 0, "is_inter of the {}", at);
        Ok(())
    }
    /// the draft's parsing of a partition; leaves are marked in the map
    pub fn partition(&mut self, rd: &mut Rd, cdf: &mut CDF, r: usize, c: usize, n: usize, map: &mut Vec<Vec<u8>>, ev: &mut BTreeMap<String, u64>) -> Result<Node, String> {
        let b = size(n, n);
        if r >= self.rows || c >= self.cols { return Ok(Node { p: 0, b, kids: vec![], seen: false }); }
        let h = n / 2;
        let (hr, hc) = (r + h < self.rows, c + h < self.cols);
        let lg = |n: usize| n.trailing_zeros();
        let ab = self.above(r, c).map_or(false, |m| lg(w4(m.mi_size as usize)) < lg(n));
        let le = self.left(r, c).map_or(false, |m| lg(h4(m.mi_size as usize)) < lg(n));
        let ctx = 2 * le as usize + ab as usize;
        let p = if n < 2 { 0 } else if !hr && !hc { 3 } else {
            let pc: &mut [i32] = match n { 2 => &mut cdf.partition_w8[ctx], 4 => &mut cdf.partition_w16[ctx], 8 => &mut cdf.partition_w32[ctx], 16 => &mut cdf.partition_w64[ctx], _ => &mut cdf.partition_w128[ctx] };
            *ev.entry(format!("partition of {}x{} with context {}", n * 4, n * 4, ctx)).or_insert(0) += 1;
            if hr && hc { rd.sym(pc)? } else {
                // the partitions that split the visible direction... the block's other half is outside
                let pr = |k: usize| if exists(k, n) { pc[k] - if k > 0 { pc[k - 1] } else { 0 } } else { 0 };
                let split: i32 = if hc { [2usize, 3, 4, 6, 7, 9].iter().map(|k| pr(*k)).sum() } else { [1usize, 3, 4, 5, 6, 8].iter().map(|k| pr(*k)).sum() };
                if rd.derived(&[32768 - split, 32768, 0])? == 1 { 3 } else if hc { 1 } else { 2 }
            }
        };
        ensure!(exists(p, n), "a {}x{} block at ({}, {}) is coded as {}", n * 4, n * 4, r, c, NAMES[p]);
        *ev.entry(format!("coded {}", NAMES[p])).or_insert(0) += 1;
        let mut kids = vec![];
        if p == 3 {
            for k in 0..4 { kids.push(self.partition(rd, cdf, r + h * (k / 2), c + h * (k % 2), h, map, ev)?); }
        } else {
            for (y, x, b) in blocks(p, r, c, n, self.rows, self.cols) {
                self.block(rd, cdf, y, x, b, ev)?;
                for i in y..(y + h4(b)).min(self.rows) { for j in x..(x + w4(b)).min(self.cols) { map[i][j] += 1; } }
                if p != 0 { kids.push(Node { p: 0, b, kids: vec![], seen: true }); }
            }
        }
        Ok(Node { p, b, kids, seen: true })
    }
    /// the blocks coded while partitions were tried: each alternative is one of the draft's,
    /// complete, in order
    pub fn trace(&self, t: &[verif::Event], i: &mut usize, r: usize, c: usize, n: usize, ev: &mut BTreeMap<String, u64>) -> Result<(), String> {
        if r >= self.rows || c >= self.cols { return Ok(()); }
        let h = n / 2;
        let mut any = false;
        while let Some((Some(p), y, x, b)) = t.get(*i).cloned() {
            if (y, x, b as usize) != (r, c, size(n, n)) { break; }
            let p = p as usize;
            *i += 1;
            any = true;
            ensure!(exists(p, n), "a {}x{} block at ({}, {}) is tried as {}", n * 4, n * 4, r, c, NAMES[p]);
            *ev.entry(format!("tried {}", NAMES[p])).or_insert(0) += 1;
            if p == 3 { for k in 0..4 { self.trace(t, i, r + h * (k / 2), c + h * (k % 2), h, ev)?; } continue; }
            for (y, x, b) in blocks(p, r, c, n, self.rows, self.cols) {
                let got = t.get(*i).map(|e| (e.0.is_some(), e.1, e.2, e.3 as usize));
                ensure!(got == Some((false, y, x, b)), "{} of the {}x{} block at ({}, {}) of a picture of {}x{} units: expected a {}x{} block at ({}, {}), got {:?}", NAMES[p], n * 4, n * 4, r, c, self.rows, self.cols, w4(b) * 4, h4(b) * 4, y, x, got);
                *i += 1;
                *ev.entry("blocks observed".into()).or_insert(0) += 1;
            }
        }
        ensure!(any, "no partition of the {}x{} block at ({}, {}) is tried", n * 4, n * 4, r, c);
        Ok(())
    }
    pub fn tree(&self, t: &PartitionTree, n: &Node, at: &str) -> Result<(), String> {
        if !n.seen { return Ok(()); }
        ensure_eq!((t.bsize as usize, t.part_type as usize), (n.b, n.p), "size and partition of a node of the tree of the {}", at);
        ensure_eq!(t.partitions.len(), n.kids.len(), "parts of a {} node of the tree of the {}", NAMES[n.p], at);
        for (a, b) in t.partitions.iter().zip(&n.kids) { self.tree(a, b, at)?; }
        Ok(())
    }
}

pub fn world(r: &mut Rng) -> (World, EncoderContext) {
    let use128 = r.bool();
    let t = tile(r, if use128 { 32 } else { 16 });
    world_of(r, use128, t)
}
/// a picture of many superblocks
pub fn large_world(r: &mut Rng) -> (World, EncoderContext) {
    let use128 = r.chance(1, 4);
    let (w, h) = (700 + r.usize(600), 500 + r.usize(500));
    let t = tile_of(r, if use128 { 32 } else { 16 }, w, h);
    world_of(r, use128, t)
}
fn world_of(r: &mut Rng, use128: bool, t: (Frame, usize, usize, usize, usize)) -> (World, EncoderContext) {
    let (mut f, r0, r1, c0, c1) = t;
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let planes = r.pick(&[1usize, 3, 3]);
    let square = r.bool();
    for row in f.mis.iter_mut() { for m in row.iter_mut().flatten() { if square { m.mi_size = BS[r.pick(&[0usize, 3, 6, 9, 12, 15])]; } } }
    let enabled = r.bool();
    f.segmentation_params.segmentation_enabled = enabled;
    let late = r.bool();
    for s in 0..8 { for ft in 0..8 { if r.chance(1, 10) && (ft < 5 || !late) && !(s == 0 && (ft == 5 || ft == 7)) { f.segmentation_params.feature_value[s][ft] = Some(if ft == 5 { r.usize(8) as isize } else { 0 }); } } }
    let fv = f.segmentation_params.feature_value;
    let on = |s: usize, ft: usize| enabled && fv[s][ft].is_some();
    let last = (0..8).filter(|s| (0..8).any(|ft| on(*s, ft))).max().unwrap_or(0);
    let pre = (0..8).any(|s| (5..8).any(|ft| on(s, ft)));
    for row in f.mis.iter_mut() { for m in row.iter_mut().flatten() { m.segment_id = if enabled { r.usize(last + 1) } else { 0 }; } }
    let mut ecx = EncoderContext::new();
    ecx.frame_is_intra = true;
    ecx.use_128x128_superblock = use128;
    ecx.num_planes = planes;
    ecx.disable_cdf_update = r.chance(1, 4);
    ecx.seg_id_pre_skip = pre;
    ecx.last_active_seg_id = last;
    ecx.enable_cdef = r.chance(5, 6);
    ecx.coded_lossless = r.chance(1, 12);
    f.allow_intrabc = r.chance(1, 12);
    f.cdef_params.cdef_bits = r.usize(4) as _;
    f.delta_q_params.delta_q_present = r.bool();
    let res = r.usize(4) as u32;
    let base = (1 + r.usize(255 >> res)) << res;
    f.delta_q_params.delta_q_res = res as _;
    f.quantization_params.base_q_idx = base as _;
    f.delta_lf_params.delta_lf_present = r.bool();
    f.delta_lf_params.delta_lf_multi = r.bool();
    f.delta_lf_params.delta_lf_res = r.usize(4) as _;
    let lfs = if !f.delta_lf_params.delta_lf_present { 0 } else if !f.delta_lf_params.delta_lf_multi { 1 } else if planes > 1 { 4 } else { 2 };
    let dq = if f.delta_q_params.delta_q_present { Some((res, lfs, f.delta_lf_params.delta_lf_multi)) } else { None };
    for row in f.cdef_idx.iter_mut() { for x in row.iter_mut() { *x = r.range(-1, 1) as isize; } }
    let w = World { rows, cols, r0, r1, c0, c1, use128, planes, enabled, pre, last, skip0: on(0, 6), cdef_off: ecx.coded_lossless || !ecx.enable_cdef || f.allow_intrabc, cbits: f.cdef_params.cdef_bits as u32, grid: f.cdef_idx.clone(), dq, base: base as i64, q: 0, need: false, frozen: ecx.disable_cdf_update, f };
    (w, ecx)
}
pub fn start_cdf(r: &mut Rng) -> Box<CDF> {
    let mut c: Box<CDF> = Box::new(default_cdf);
    cdfs::visit_mut(&mut c, &mut |_n, l| { for _ in 0..r.usize(3) { let s = r.usize(l.len() - 1); adapt(l, s); } });
    c
}


pub const RT: [FrameRestorationType; 4] = [FrameRestorationType::RESTORE_NONE, FrameRestorationType::RESTORE_WIENER, FrameRestorationType::RESTORE_SGRPROJ, FrameRestorationType::RESTORE_SWITCHABLE];

/// tiles of the picture, and what is restored in it
pub struct Cuts { pub rs: Vec<usize>, pub cs: Vec<usize>, pub restored: bool, pub units: Vec<Vec<Option<(bool, usize, [i64; 2])>>>,
    /// restoration units per superblock that are all off: type of the plane's restoration and number
    pub off: Vec<Vec<Vec<(u64, usize)>>> }
impl Cuts {
    pub fn count(&self) -> usize { (self.rs.len() - 1) * (self.cs.len() - 1) }
}
pub fn cuts(r: &mut Rng, w: &mut World, ecx: &mut EncoderContext) -> Cuts {
    let n = if w.use128 { 32 } else { 16 };
    // one restored plane at most; its units are those of the superblocks, self-guided or off
    let restored = r.bool();
    ecx.frame_restoration_type = [RT[2 * restored as usize], RT[0], RT[0]];
    let unit = n * 4;
    ecx.loop_restoration_size = [unit; 3];
    ecx.upscaled_width = w.f.frame_width;
    ecx.superres_denom = 8;
    let count = |len: usize| ((len + unit / 2) / unit).max(1);
    let (ur, uc) = (count(w.f.frame_height), count(w.f.frame_width));
    let (sr, sc) = ((w.rows + n - 1) / n, (w.cols + n - 1) / n);
    let mut units = vec![vec![None; sc]; sr];
    if restored || r.bool() {
        w.f.superblocks = (0..sr).map(|i| (0..sc).map(|j| {
            let mut s = Superblock::new(BS[size(n, n)], j * n * 4, i * n * 4);
            let mut rows = vec![];
            if i < ur && j < uc {
                let on = r.chance(2, 3);
                let x = [r.range(-96, 31), r.range(-32, 95)];
                let set = r.usize(10);
                rows.push(vec![LRUnit { use_wiener: r.bool(), use_sgrproj: on, restoration_type: RT[r.usize(3)], lr_sgr_set: set, lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [x[0] as isize, x[1] as isize] }]);
                units[i][j] = Some((on, set, x));
            }
            s.lr_units = vec![rows, vec![], vec![]];
            s
        }).collect()).collect();
    }
    w.f.lr_type = vec![vec![vec![RT[3]; uc]; ur]; 3];
    w.f.lr_sgr_set = vec![vec![vec![777; uc]; ur]; 3];
    w.f.lr_sgr_xqd = vec![vec![vec![vec![777; 2]; uc]; ur]; 3];
    let cut = |r: &mut Rng, len: usize| -> Vec<usize> { let mut v = vec![0]; let large = len > 80; for i in 1..(len + n - 1) / n { if if large { r.chance(1, 10) } else { r.bool() } { v.push(i * n); } } v.push(len); v };
    let (rs, cs) = (cut(r, w.rows), cut(r, w.cols));
    w.f.tile_row_starts = rs[..rs.len() - 1].to_vec(); w.f.tile_col_starts = cs[..cs.len() - 1].to_vec();
    // the frame knows its blocks everywhere; a tile must not look outside itself
    for row in w.f.mis.iter_mut() { for m in row.iter_mut() { if m.is_none() { let mut x = random_mi(r); x.segment_id = if w.enabled { r.usize(w.last + 1) } else { 0 }; *m = Some(x); } } }
    ecx.mi_row_starts = rs.clone(); ecx.mi_col_starts = cs.clone();
    Cuts { rs, cs, restored, units, off: vec![] }
}
/// reads tile t from its own bytes; the trace position moves on; returns the probability state
pub fn read_tile(w: &mut World, k: &Cuts, t: usize, out: &[u8], mut cdf: Box<CDF>, trace: Option<(&[verif::Event], &mut usize)>, ev: &mut BTreeMap<String, u64>) -> Result<Box<CDF>, String> {
    let n = if w.use128 { 32 } else { 16 };
    let tc = k.cs.len() - 1;
    w.r0 = k.rs[t / tc]; w.r1 = k.rs[t / tc + 1]; w.c0 = k.cs[t % tc]; w.c1 = k.cs[t % tc + 1];
    let mut trace = trace;
    let mut rd = Rd::new(out)?;
    rd.frozen = w.frozen;
    if w.frozen { *ev.entry("tiles with fixed probabilities".into()).or_insert(0) += 1; }
    let mut map = vec![vec![0u8; w.cols]; w.rows];
    let mut x = [-32i64, 31];
    w.q = w.base;
    for y0 in (w.r0..w.r1).step_by(n) { for x0 in (w.c0..w.c1).step_by(n) {
        let at = format!("superblock at ({}, {}) of a tile of rows {}..{} and columns {}..{} of a picture of {}x{} units", y0, x0, w.r0, w.r1, w.c0, w.c1, w.rows, w.cols);
        for i in (0..n).step_by(16) { for j in (0..n).step_by(16) { w.grid[y0 + i][x0 + j] = -1; } }
        if k.restored && !w.f.allow_intrabc { if let Some((on, set, v)) = k.units[y0 / n][x0 / n] {
            ensure_eq!(rd.sym(&mut cdf.use_sgrproj)? == 1, on, "restoration of the unit of the {}", at);
            if on {
                ensure_eq!(rd.lit(4)? as usize, set, "set of the restoration unit of the {}", at);
                for q in 0..2 { x[q] = rd.signed_with_ref([-96, -32][q], [31, 95][q], 4, x[q])?; ensure_eq!(x[q], v[q], "weight {} of the restoration unit of the {}", q, at); }
            }
            *ev.entry("restoration units".into()).or_insert(0) += 1;
        } }
        if !k.off.is_empty() { for (kind, count) in &k.off[y0 / n][x0 / n] { for _ in 0..*count {
            let v = match *kind { 1 => rd.sym(&mut cdf.use_wiener)?, 2 => rd.sym(&mut cdf.use_sgrproj)?, _ => rd.sym(&mut cdf.restoration_type)? };
            ensure_eq!(v, 0, "a restoration unit of the {}", at);
            *ev.entry("restoration units".into()).or_insert(0) += 1;
        } } }
        w.need = w.dq.is_some();
        w.partition(&mut rd, &mut cdf, y0, x0, n, &mut map, ev)?;
        if let Some((t, i)) = trace.as_mut() { w.trace(t, i, y0, x0, n, ev)?; }
        *ev.entry("superblocks of tiles".into()).or_insert(0) += 1;
    } }
    for i in 0..w.rows { for j in 0..w.cols { ensure_eq!(map[i][j], (i >= w.r0 && i < w.r1 && j >= w.c0 && j < w.c1) as u8, "blocks at unit ({}, {}) of tile {} (rows {:?}, columns {:?})", i, j, t, k.rs, k.cs); } }
    ensure!(out.len() % 8 == 0, "{} bits in tile {}", out.len(), t);
    ensure!(out.len() <= rd.limit(), "{} bits for a tile that needs {}", out.len(), rd.limit());
    *ev.entry("tiles".into()).or_insert(0) += 1;
    Ok(cdf)
}

fn num(b: &[u8], at: usize, n: usize) -> usize { b[at..at + n].iter().fold(0, |a, x| a << 1 | *x as usize) }
fn log2up(n: usize) -> usize { let mut k = 0; while 1 << k < n { k += 1; } k }
/// reads a tile group that should hold tiles a to b; false if a tile may not fit its size field
pub fn read_group(w: &mut World, k: &Cuts, out: &[u8], a: usize, b: usize, split: bool, size_bytes: usize, ev: &mut BTreeMap<String, u64>) -> Result<bool, String> {
    let nt = k.count();
    let at = format!("tile group {}..{} of {} tiles (rows {:?}, columns {:?})", a, b, nt, k.rs, k.cs);
    ensure!(out.len() % 8 == 0 && out.len() > 0, "{} bits in {}", out.len(), at);
    let mut p = 0;
    if nt > 1 {
        ensure_eq!(out[0] == 1, split, "bounds flag of {}", at);
        p = 1;
        if split {
            let n = log2up(k.rs.len() - 1) + log2up(k.cs.len() - 1);
            ensure!(out.len() >= 1 + 2 * n, "{} bits in {}", out.len(), at);
            ensure_eq!((num(out, 1, n), num(out, 1 + n, n)), (a, b), "bounds of {}", at);
            p += 2 * n;
            *ev.entry("groups with bounds".into()).or_insert(0) += 1;
        } else { *ev.entry("groups of all tiles of several".into()).or_insert(0) += 1; }
        while p % 8 != 0 { ensure_eq!(out[p], 0, "alignment of {}", at); p += 1; }
    } else { *ev.entry("single tiles".into()).or_insert(0) += 1; }
    for t in a..=b {
        let len = if t == b { out.len() - p } else {
            ensure!(out.len() >= p + 8 * size_bytes, "{} ends before the size of tile {}", at, t);
            let v = (0..size_bytes).rev().fold(0usize, |v, i| v << 8 | num(out, p + 8 * i, 8)) + 1;
            p += 8 * size_bytes;
            *ev.entry(format!("sizes of {} bytes", size_bytes)).or_insert(0) += 1;
            if v > 256 { *ev.entry("tiles of more than 256 bytes".into()).or_insert(0) += 1; }
            if size_bytes == 1 && out.len() > 8 * 250 { return Ok(false); }
            8 * v
        };
        ensure!(len > 0 && p + len <= out.len(), "tile {} of {} bits at bit {} of {} in {}", t, len, p, out.len(), at);
        read_tile(w, k, t, &out[p..p + len], Box::new(default_cdf), None, ev)?;
        p += len;
    }
    ensure!(p == out.len(), "{} has {} bits more than its tiles", at, out.len() - p);
    Ok(true)
}
