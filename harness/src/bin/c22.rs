//! C22: loop-restoration units are coded once each, with the draft's syntax and references,
//! and a tile starts from the draft's state.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
use av1enc::bool_coder::BoolCoder;
use av1enc::block::{LRUnit, Superblock};
use av1enc::cdf::{default_cdf, CDF};
use av1enc::constants::BlockSize::*;
use av1enc::constants::{FrameRestorationType, FrameType};
use av1enc::encoder::EncoderContext;
use av1enc::frame::Frame;
use av1enc::tile_encoder::TileEncoder;
use mon::refcoder::*;
use mon::*;
use std::cell::RefCell;
use std::rc::Rc;

const RT: [FrameRestorationType; 4] = [FrameRestorationType::RESTORE_NONE, FrameRestorationType::RESTORE_WIENER, FrameRestorationType::RESTORE_SGRPROJ, FrameRestorationType::RESTORE_SWITCHABLE];
const WMIN: [i64; 3] = [-5, -23, -17];
const WMAX: [i64; 3] = [10, 8, 46];
const WK: [u32; 3] = [1, 2, 3];
const WMID: [i64; 3] = [3, -7, 15];
const XMIN: [i64; 2] = [-96, -32];
const XMAX: [i64; 2] = [31, 95];
const XMID: [i64; 2] = [-32, 31];
/// which of the two filters of a set are in use
fn radii(set: usize) -> [bool; 2] { match set { 0..=9 => [true, true], 10..=13 => [false, true], _ => [true, false] } }

fn flat(c: &CDF) -> Vec<Vec<i32>> { let mut v = vec![]; cdfs::visit(c, &mut |_f, _p, l| v.push(l.to_vec())); v }

/// The draft's parsing processes over a stream.
struct Rd<'a> { d: RefDecoder<'a>, e: RefEncoder }
impl<'a> Rd<'a> {
    fn sym(&mut self, cdf: &mut [i32]) -> Result<usize, String> {
        let s = self.d.decode(cdf).ok_or("stream ends early or leaves the code range")?;
        self.e.encode(s, cdf);
        adapt(cdf, s);
        Ok(s)
    }
    fn lit(&mut self, n: u32) -> Result<i64, String> {
        let mut v = 0;
        for _ in 0..n {
            let h = [16384, 32768, 0];
            let b = self.d.decode(&h).ok_or("stream ends early or leaves the code range")?;
            self.e.encode(b, &h);
            v = v * 2 + b as i64;
        }
        Ok(v)
    }
    fn ns(&mut self, n: i64) -> Result<i64, String> {
        let w = 64 - (n as u64).leading_zeros();
        let m = (1i64 << w) - n;
        let v = self.lit(w - 1)?;
        if v < m { return Ok(v); }
        Ok(v * 2 - m + self.lit(1)?)
    }
    fn subexp(&mut self, n: i64, k: u32) -> Result<i64, String> {
        // a run of intervals of 2^k, 2^k, 2^(k+1), ... values, the last one uniform
        let mut base = 0i64;
        let mut b = k;
        let mut first = true;
        loop {
            let a = 1i64 << b;
            if n <= base + 3 * a { return Ok(base + self.ns(n - base)?); }
            if self.lit(1)? == 0 { return Ok(base + self.lit(b)?); }
            base += a;
            if first { first = false; } else { b += 1; }
        }
    }
    fn signed_with_ref(&mut self, lo: i64, hi: i64, k: u32, r: i64) -> Result<i64, String> {
        // values are ranked by distance from the reference, larger first, within [lo, hi]
        let n = hi - lo + 1;
        let rank = self.subexp(n, k)?;
        let (r, mirrored) = if 2 * (r - lo) <= n { (r - lo, false) } else { (hi - r, true) };
        let v = if rank > 2 * r { rank } else if rank % 2 == 1 { r - (rank + 1) / 2 } else { r + rank / 2 };
        Ok(if mirrored { hi - v } else { lo + v })
    }
}

fn near(r: &mut Rng, lo: i64, hi: i64, rf: i64) -> i64 {
    match r.below(5) { 0 => lo, 1 => hi, 2 => rf, 3 => (rf + r.range(-3, 3)).max(lo).min(hi), _ => r.range(lo, hi) }
}

struct Unit { kind: usize, set: usize, w: [[i64; 3]; 2], x: [i64; 2] }

fn frame_case(r: &mut Rng, run: &Runner, big: bool) -> CaseResult {
    let use128 = r.bool();
    let sb = if use128 { 128 } else { 64 };
    let lim = if big { 1400 } else { 420 };
    let edge = |r: &mut Rng| match r.below(3) { 0 => 1 + r.usize(lim), 1 => ((1 + r.usize(lim / 32)) * 32) as usize, _ => (((1 + r.usize(lim / 32)) * 32) as i64 + r.range(-9, 9)) as usize };
    let (upw, h) = (edge(r), edge(r));
    let superres = r.chance(2, 5);
    let denom = if superres { 9 + r.usize(8) } else { 8 };
    let w = (upw * 8 + denom / 2) / denom;
    let planes = r.pick(&[1usize, 3, 3]);
    let (sx, sy) = r.pick(&[(true, true), (true, false), (false, false)]);
    let shift = if use128 { 1 + r.usize(2) } else { r.usize(3) };
    let uv = sx && sy && r.bool();
    let luma = 256 >> (2 - shift);
    let size = [luma, luma >> uv as usize, luma >> uv as usize];
    let ft: Vec<usize> = (0..3).map(|_| if r.chance(1, 2) { 3 } else { r.usize(4) }).collect();
    let intrabc = r.chance(1, 40);

    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    f.subsampling_x = sx; f.subsampling_y = sy; f.use_superres = superres; f.allow_intrabc = intrabc;
    let (sbr, sbc) = ((2 * ((h + 7) >> 3) * 4 + sb - 1) / sb, (2 * ((w + 7) >> 3) * 4 + sb - 1) / sb);
    f.superblocks = (0..sbr).map(|i| (0..sbc).map(|j| { let mut s = Superblock::new(if use128 { BLOCK_128X128 } else { BLOCK_64X64 }, j * sb, i * sb); s.lr_units = (0..planes).map(|_| vec![]).collect(); s }).collect()).collect();

    // the state the tile is in
    let mut refw = [[[0i64; 3]; 2]; 3];
    let mut refx = [[0i64; 2]; 3];
    for p in 0..3 { for q in 0..2 {
        for j in 0..3 { refw[p][q][j] = if r.bool() { WMID[j] } else { near(r, WMIN[j], WMAX[j], WMID[j]) }; }
        refx[p][q] = if r.bool() { XMID[q] } else { near(r, XMIN[q], XMAX[q], XMID[q]) };
    } }

    // which superblock codes a unit: the one in which the unit starts
    let mut plan: Vec<(usize, usize, usize, usize, usize, Unit)> = vec![]; // sb row, sb col, plane, unit row, unit col
    let (mut rw, mut rx) = (refw, refx);
    let counts: Vec<(usize, usize)> = (0..3).map(|p| {
        let (dx, dy) = if p == 0 { (0, 0) } else { (sx as usize, sy as usize) };
        let n = |len: usize, d: usize| { let l = if d == 1 { (len + 1) / 2 } else { len }; ((l + size[p] / 2) / size[p]).max(1) };
        (n(h, dy), n(upw, dx))
    }).collect();
    let mut coded = 0u64;
    for i in 0..sbr { for j in 0..sbc { for p in 0..planes {
        if ft[p] == 0 { continue; }
        let (dx, dy) = if p == 0 { (0, 0) } else { (sx as usize, sy as usize) };
        let rows: Vec<usize> = (0..counts[p].0).filter(|u| { let y = u * size[p]; y >= (i * sb) >> dy && y < ((i + 1) * sb) >> dy }).collect();
        let cols: Vec<usize> = (0..counts[p].1).filter(|u| { let x = u * size[p] * 8; x >= ((j * sb) >> dx) * denom && x < (((j + 1) * sb) >> dx) * denom }).collect();
        for &a in &rows {
            let mut v = vec![];
            for &b in &cols {
                let kind = if ft[p] == 3 { r.usize(3) } else if r.chance(2, 3) { ft[p] } else { 0 };
                let mut u = Unit { kind, set: r.usize(16), w: [[0; 3]; 2], x: [0; 2] };
                // all fields get legal values; only those of the chosen kind are coded
                for q in 0..2 { for k in 0..3 { u.w[q][k] = near(r, WMIN[k], WMAX[k], rw[p][q][k]); } u.x[q] = near(r, XMIN[q], XMAX[q], rx[p][q]); }
                let mut lu = LRUnit { use_wiener: kind == 1, use_sgrproj: kind == 2, restoration_type: RT[kind], lr_sgr_set: u.set, lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [0; 2] };
                if ft[p] != 3 { lu.restoration_type = RT[r.usize(3)]; if ft[p] == 1 { lu.use_sgrproj = r.bool(); } else { lu.use_wiener = r.bool(); } }
                else { lu.use_wiener = r.bool(); lu.use_sgrproj = r.bool(); }
                for q in 0..2 { for k in 0..3 { lu.lr_wiener[q][k] = u.w[q][k] as isize; } lu.lr_sgr_xqd[q] = u.x[q] as isize; }
                v.push(lu);
                if !intrabc {
                    match kind {
                        1 => for q in 0..2 { for k in (p > 0) as usize..3 { rw[p][q][k] = u.w[q][k]; } if p > 0 { u.w[q][0] = 0; } },
                        2 => { let on = radii(u.set);
                            if !on[0] { u.x[0] = 0; }
                            if !on[1] { u.x[1] = (128 - u.x[0]).max(XMIN[1]).min(XMAX[1]); }
                            rx[p] = u.x; }
                        _ => {}
                    }
                    plan.push((i, j, p, a, b, u));
                    coded += 1;
                }
            }
            f.superblocks[i][j].lr_units[p].push(v);
        }
    } } }
    // exactly once: the plan covers every unit of every restored plane once (oracle self-check)
    if !intrabc {
        let want: usize = (0..planes).filter(|p| ft[*p] != 0).map(|p| counts[p].0 * counts[p].1).sum();
        ensure_eq!(plan.len(), want, "units owned by superblocks ({}x{}, size {:?}, superres {})", upw, h, size, denom);
    }
    let dims = |p: usize| counts[p];
    f.lr_type = (0..3).map(|p| vec![vec![FrameRestorationType::RESTORE_SWITCHABLE; dims(p).1]; dims(p).0]).collect();
    f.lr_wiener = (0..3).map(|p| vec![vec![vec![vec![777isize; 3]; 2]; dims(p).1]; dims(p).0]).collect();
    f.lr_sgr_set = (0..3).map(|p| vec![vec![777usize; dims(p).1]; dims(p).0]).collect();
    f.lr_sgr_xqd = (0..3).map(|p| vec![vec![vec![777isize; 2]; dims(p).1]; dims(p).0]).collect();

    let mut ecx = EncoderContext::new();
    ecx.use_128x128_superblock = use128;
    ecx.num_planes = planes;
    ecx.superres_denom = denom;
    ecx.upscaled_width = upw;
    for p in 0..3 { ecx.frame_restoration_type[p] = RT[ft[p]]; ecx.loop_restoration_size[p] = size[p];
        for q in 0..2 { ecx.ref_sgr_xqd[p][q] = refx[p][q] as isize; for k in 0..3 { ecx.ref_lr_wiener[p][q][k] = refw[p][q][k] as isize; } } }
    let ectx = Rc::new(RefCell::new(ecx));
    let mut coder = BoolCoder::new();
    let mut out = vec![];
    coder.init_encoder();
    let mut cdf0: Box<CDF> = Box::new(default_cdf);
    cdfs::visit_mut(&mut cdf0, &mut |n, l| if n.contains("wiener") || n.contains("sgrproj") || n.contains("restoration") { for _ in 0..r.usize(4) { let s = r.usize(l.len() - 1); adapt(l, s); } });
    let cdf1;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.mi_row_end = f.mi_rows(); te.mi_col_end = f.mi_cols();
        te.cdf = (*cdf0).clone();
        for i in 0..sbr { for j in 0..sbc {
            te.encode_lr(&mut out, &mut f, i * sb / 4, j * sb / 4, if use128 { BLOCK_128X128 } else { BLOCK_64X64 });
        } }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);

    // read the stream back as the draft does
    let mut rd = Rd { d: RefDecoder::new(&out).ok_or("no stream")?, e: RefEncoder::new() };
    let (mut dw, mut dx) = (refw, refx);
    let mut ev = std::collections::BTreeMap::new();
    for (i, j, p, a, b, u) in &plan {
        let at = format!("plane {} unit ({}, {}) of superblock ({}, {}) [{}x{}, sizes {:?}, superres {}, frame type {}]", p, a, b, i, j, upw, h, size, denom, ft[*p]);
        let kind = match ft[*p] {
            1 => rd.sym(&mut cdf0.use_wiener)?,
            2 => 2 * rd.sym(&mut cdf0.use_sgrproj)?,
            _ => rd.sym(&mut cdf0.restoration_type)?,
        };
        ensure_eq!(kind, u.kind, "type of {}", at);
        ensure_eq!(f.lr_type[*p][*a][*b] as usize, u.kind, "recorded type of {}", at);
        *ev.entry(format!("{} in a {} plane", ["none", "wiener", "sgrproj"][kind], ["", "wiener", "sgrproj", "switchable"][ft[*p]])).or_insert(0) += 1;
        if kind == 1 {
            for q in 0..2 { for k in 0..3 {
                let v = if *p > 0 && k == 0 { 0 } else { let v = rd.signed_with_ref(WMIN[k], WMAX[k], WK[k], dw[*p][q][k])?; dw[*p][q][k] = v; v };
                ensure_eq!(v, u.w[q][k], "wiener coefficient {} of pass {} of {}", k, q, at);
                ensure_eq!(f.lr_wiener[*p][*a][*b][q][k] as i64, v, "recorded wiener coefficient {} of pass {} of {}", k, q, at);
            } }
        } else if kind == 2 {
            let set = rd.lit(4)? as usize;
            ensure_eq!(set, u.set, "sgr set of {}", at);
            ensure_eq!(f.lr_sgr_set[*p][*a][*b], set, "recorded sgr set of {}", at);
            let on = radii(set);
            for q in 0..2 {
                let v = if on[q] { rd.signed_with_ref(XMIN[q], XMAX[q], 4, dx[*p][q])? } else if q == 0 { 0 } else { (128 - dx[*p][0]).max(XMIN[1]).min(XMAX[1]) };
                dx[*p][q] = v;
                ensure_eq!(v, u.x[q], "sgr weight {} (set {}) of {}", q, set, at);
                ensure_eq!(f.lr_sgr_xqd[*p][*a][*b][q] as i64, v, "recorded sgr weight {} of {}", q, at);
                *ev.entry(format!("sgr weight {} {}", q, if on[q] { "coded" } else { "implied" })).or_insert(0) += 1;
            }
        }
    }
    run.count_all(&ev);
    if superres { run.count("frames with superres", 1); }
    if intrabc { run.count("frames with intra block copy", 1); }
    if use128 { run.count("frames of 128x128 superblocks", 1); }
    // nothing else is in the stream, no other distribution moved, the references are the last coded values
    let want = rd.e.shifts() + 16;
    ensure!(out.len() <= want + 8 + 7, "{} bits for restoration units that need {}", out.len(), want);
    ensure!(flat(&cdf0) == flat(&cdf1), "the probability state after the units is not the decoder's");
    let e = ectx.borrow();
    for p in 0..planes { for q in 0..2 {
        ensure_eq!(e.ref_sgr_xqd[p][q] as i64, dx[p][q], "sgr reference {} of plane {}", q, p);
        for k in 0..3 { ensure_eq!(e.ref_lr_wiener[p][q][k] as i64, dw[p][q][k], "wiener reference {} {} of plane {}", q, k, p); }
    } }
    Ok(Case::new(hash_bytes(&out) ^ hash_of(&(upw, h, size, denom)), coded > 1 || intrabc, format!("{}x{} (coded {} wide), superblock {}, unit sizes {:?}, plane types {:?}, {} units in {} bits", upw, h, w, sb, &size[..planes], &ft[..planes], coded, out.len())))
}

fn tile_start(r: &mut Rng, run: &Runner) -> CaseResult {
    let (tr, tc) = (1 + r.usize(6), 1 + r.usize(6));
    let mut f = Frame::new(FrameType::KEY_FRAME, 64, 64);
    f.tile_row_starts = (0..tr).collect();
    f.tile_col_starts = (0..tc).collect();
    f.quantization_params.base_q_idx = r.usize(256) as u8;
    // a tile without superblocks: only its start is executed; one direction is empty, the
    // other has distinct bounds
    let flat_rows = r.bool();
    let mk = |n: usize, flat: bool, r: &mut Rng| -> Vec<usize> { let mut x = r.usize(40); (0..=n).map(|_| { if !flat { x += 1 + r.usize(32); } x }).collect() };
    let mut ecx = EncoderContext::new();
    ecx.num_planes = r.pick(&[1, 3]);
    ecx.use_128x128_superblock = r.bool();
    ecx.mi_row_starts = mk(tr, flat_rows, r);
    ecx.mi_col_starts = mk(tc, !flat_rows, r);
    let (rows, cols) = (ecx.mi_row_starts.clone(), ecx.mi_col_starts.clone());
    let planes = ecx.num_planes;
    let base = f.quantization_params.base_q_idx as usize;
    let ectx = Rc::new(RefCell::new(ecx));
    let mut order: Vec<usize> = (0..tr * tc).collect();
    for i in (1..order.len()).rev() { let j = r.usize(i + 1); order.swap(i, j); }
    for n in &order {
        {
            let mut e = ectx.borrow_mut();
            e.tile_num = *n;
            e.current_q_index = r.usize(256);
            for x in e.delta_lf.iter_mut() { *x = r.range(-63, 63) as isize; }
            for p in 0..3 { for q in 0..2 { e.ref_sgr_xqd[p][q] = r.range(-96, 95) as isize; for k in 0..3 { e.ref_lr_wiener[p][q][k] = r.range(-20, 40) as isize; } } }
        }
        let mut coder = BoolCoder::new();
        coder.init_encoder();
        let mut out = vec![];
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.encode_tile(&mut f, *n, &mut out);
        let (wr, wc) = (n / tc, n % tc);
        ensure_eq!((te.mi_row_start, te.mi_row_end), (rows[wr], rows[wr + 1]), "rows of tile {} of {}x{}", n, tr, tc);
        ensure_eq!((te.mi_col_start, te.mi_col_end), (cols[wc], cols[wc + 1]), "columns of tile {} of {}x{}", n, tr, tc);
        let e = ectx.borrow();
        ensure_eq!(e.current_q_index, base, "quantizer index at the start of tile {}", n);
        ensure!(e.delta_lf.iter().all(|x| *x == 0), "loop filter deltas at the start of tile {}: {:?}", n, e.delta_lf);
        for p in 0..planes { for q in 0..2 {
            ensure_eq!(e.ref_sgr_xqd[p][q] as i64, XMID[q], "sgr reference of plane {} at the start of tile {}", p, n);
            for k in 0..3 { ensure_eq!(e.ref_lr_wiener[p][q][k] as i64, WMID[k], "wiener reference of plane {} at the start of tile {}", p, n); }
        } }
        run.count("tile starts", 1);
    }
    Ok(Case::new(hash_of(&(tr, tc, rows, cols, base, planes)), tr * tc > 1, format!("{}x{} tiles, {}", tr, tc, if flat_rows { "distinct columns" } else { "distinct rows" })))
}

fn main() {
    let mut r = Runner::new("C22", "a case is one frame whose restoration units are all coded through its superblocks in raster order (random picture size, superblock size, subsampling, superres, unit sizes, plane types, references and unit parameters), read back by an independent parser written from the draft; or one grid of tiles started in random order from a scrambled state; non-trivial: more than one unit or tile; distinct: by stream and geometry");
    for k in ["none in a switchable plane", "wiener in a switchable plane", "sgrproj in a switchable plane", "wiener in a wiener plane", "none in a wiener plane", "sgrproj in a sgrproj plane", "none in a sgrproj plane",
        "sgr weight 0 coded", "sgr weight 0 implied", "sgr weight 1 coded", "sgr weight 1 implied", "frames with superres", "frames with intra block copy", "frames of 128x128 superblocks", "tile starts"] { r.require(k); }
    let n = r.n(4000, 200_000);
    r.suite("restoration-units", n, |rng, _i, run| frame_case(rng, run, false));
    let n = r.n(400, 20_000);
    r.suite("restoration-units-large", n, |rng, _i, run| frame_case(rng, run, true));
    let n = r.n(4000, 100_000);
    r.suite("tile-start", n, |rng, _i, run| tile_start(rng, run));
    r.assume("unit parameters are within the draft's limits; a superblock holds one parameter record per unit that starts in it, in raster order");
    r.finish();
}
