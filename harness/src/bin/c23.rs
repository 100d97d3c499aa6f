//! C23: what a block carries besides its modes — segment, skip, CDEF index, quantizer and
//! filter deltas, reference frames — is what a decoder recovers.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
#[path = "../blockinfo.rs"] mod blockinfo;
use av1enc::bool_coder::BoolCoder;
use av1enc::block::{PartitionTree, Superblock};
use av1enc::cdf::{default_cdf, CDF};
use av1enc::common::MotionVector;
use av1enc::constants::*;
use av1enc::encoder::EncoderContext;
use av1enc::tile_encoder::TileEncoder;
use blockinfo::*;
use mon::refcoder::*;
use mon::*;
use std::cell::RefCell;
use std::rc::Rc;
use syntax::*;

/// what the caller asked for and what the draft makes of the surroundings
struct Step {
    b: usize, row: usize, col: usize, above: Option<ModeInfo>, left: Option<ModeInfo>, prev: [i64; 3],
    seg: usize, skip: bool, cdef: i64, q: i64, lf: [i64; 4], read_deltas: bool, inter: bool, comp: bool, refs: [i32; 2],
}
/// what the encoder left behind
struct After { q: i64, lf: Vec<i64>, cdef: Vec<Vec<isize>>, seg: usize, skip: bool, lossless: bool, inter: bool, chroma: bool, avail: [bool; 4], deltas: bool, refs: [i32; 2] }

/// the inverse mapping, as the draft's neg_deinterleave
fn deinterleave(d: i64, r: i64, max: i64) -> i64 {
    if r == 0 { return d; }
    if r >= max - 1 { return max - d - 1; }
    let near = |d: i64| if d & 1 == 1 { r + ((d + 1) >> 1) } else { r - (d >> 1) };
    if 2 * r < max { if d <= 2 * r { near(d) } else { d } }
    else if d <= 2 * (max - r - 1) { near(d) } else { max - (d + 1) }
}

fn session(r: &mut Rng, run: &Runner, end_inter: bool) -> CaseResult {
    let use128 = r.bool();
    let sbb = if use128 { 15 } else { 12 };
    let (mut f, r0, r1, c0, c1) = tile(r, if use128 { 32 } else { 16 });
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let planes = r.pick(&[1usize, 3, 3, 3]);

    // segmentation as a header leaves it
    f.segmentation_params.segmentation_enabled = r.chance(3, 4);
    let late = r.chance(2, 3);
    for s in 0..8 { for ft in 0..8 {
        let on = r.chance(1, if ft >= 5 { 16 } else { 12 }) && (ft < 5 || !late);
        f.segmentation_params.feature_value[s][ft] = if on { Some(match ft { 5 => r.usize(8) as isize, 6 | 7 => 0, _ => r.range(-20, 20) as isize }) } else { None };
    } }
    let force = r.usize(8);
    if r.bool() { f.segmentation_params.feature_value[force][0] = Some(3); }
    let fv = f.segmentation_params.feature_value;
    let enabled = f.segmentation_params.segmentation_enabled;
    let active = |s: usize, ft: usize| enabled && fv[s][ft].is_some();
    let last = (0..8).filter(|s| (0..8).any(|ft| active(*s, ft))).max().unwrap_or(0);
    let pre = (0..8).any(|s| (5..8).any(|ft| active(s, ft)));
    for row in f.mis.iter_mut() { for m in row.iter_mut().flatten() { m.segment_id = if enabled { if r.bool() { r.usize(last + 1) } else { r.usize(last + 1).min(r.usize(3)) } } else { 0 }; } }

    let mut ecx = EncoderContext::new();
    ecx.frame_is_intra = true;
    ecx.use_128x128_superblock = use128;
    ecx.num_planes = planes;
    ecx.seg_id_pre_skip = pre;
    ecx.last_active_seg_id = last;
    for s in 0..8 { ecx.lossless_array[s] = r.chance(1, 4); }
    let lossless = ecx.lossless_array;
    ecx.coded_lossless = r.chance(1, 10);
    ecx.enable_cdef = r.chance(7, 8);
    f.allow_intrabc = r.chance(1, 12);
    let cdef_off = ecx.coded_lossless || !ecx.enable_cdef || f.allow_intrabc;
    f.cdef_params.cdef_bits = r.usize(4) as _;
    let cbits = f.cdef_params.cdef_bits as u32;
    f.cdef_idx = (0..(rows + 63) / 32 * 32).map(|_| (0..(cols + 63) / 32 * 32).map(|_| if r.chance(3, 4) { -1 } else { r.usize(1 << cbits) as isize }).collect()).collect();
    let mut grid = f.cdef_idx.clone();
    let qres = r.usize(4) as u32; let lfres = r.usize(4) as u32;
    f.delta_q_params.delta_q_res = qres as _;
    f.delta_lf_params.delta_lf_present = r.chance(2, 3);
    f.delta_lf_params.delta_lf_multi = r.bool();
    f.delta_lf_params.delta_lf_res = lfres as _;
    let (lfp, multi) = (f.delta_lf_params.delta_lf_present, f.delta_lf_params.delta_lf_multi);
    let mut q = 1 + r.usize(255) as i64;
    let mut lf = [0i64; 4];
    for i in 0..4 { if r.bool() { lf[i] = r.range(-63, 63); } }
    ecx.current_q_index = q as usize;
    let start = (q, lf);
    for i in 0..4 { ecx.delta_lf[i] = lf[i] as isize; }
    for i in 0..8 { ecx.gm_type[i] = r.usize(4); for k in 0..6 { ecx.gm_params[i][k] = if k == 2 || k == 5 { 65536 + r.range(-300, 300) as isize } else { r.range(-2000, 2000) as isize }; } }
    ecx.motion_field_mvs = vec![vec![vec![MotionVector::new(-32768, -32768); cols / 2 + 40]; rows / 2 + 40]; 8];
    f.reference_select = r.chance(4, 5);
    let select = f.reference_select;
    let (sx, sy) = (f.subsampling_x, f.subsampling_y);
    let ectx = Rc::new(RefCell::new(ecx));

    let mut coder = BoolCoder::new();
    let mut out = vec![];
    coder.init_encoder();
    let mut cdf0: Box<CDF> = Box::new(default_cdf);
    cdfs::visit_mut(&mut cdf0, &mut |_n, l| { for _ in 0..r.usize(3) { let s = r.usize(l.len() - 1); adapt(l, s); } });
    let n = 1 + r.usize(10);
    let mut steps: Vec<(Step, After)> = vec![];
    let cdf1;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = (*cdf0).clone();
        te.mi_row_start = r0; te.mi_row_end = r1; te.mi_col_start = c0; te.mi_col_end = c1;
        for k in 0..n {
            let b = loop { let b = if r.chance(1, 6) { sbb } else { r.usize(22) }; if use128 || (w4(b) <= 16 && h4(b) <= 16) { break b; } };
            let (row, col) = place(r, b, r0, r1, c0, c1);
            let above = if row > r0 { f.mis[row - 1][col] } else { None };
            let left = if col > c0 { f.mis[row][col - 1] } else { None };
            let id = |m: Option<ModeInfo>| m.map_or(-1, |m| m.segment_id as i64);
            let prev = [id(above), id(left), if row > r0 && col > c0 { id(f.mis[row - 1][col - 1]) } else { -1 }];
            let mut pt = PartitionTree::new(BS[b]);
            pt.segment_id = if enabled { if r.chance(1, 3) { prev[r.usize(3)].max(0) as usize } else { r.usize(last + 1) } } else { 0 };
            pt.skip = r.chance(2, 5);
            pt.cdef_idx = r.usize(1 << cbits) as isize;
            let step = |r: &mut Rng, v: i64, lo: i64, hi: i64, res: u32| { let (a, z) = (-((v - lo) >> res), (hi - v) >> res); v + (match r.below(6) { 0 => 0, 1 => a, 2 => z, 3 => r.range(-5, 5).max(a).min(z), _ => r.range(a, z) } << res) };
            let lf_want: Vec<i64> = (0..4).map(|i| step(r, lf[i], -63, 63, lfres)).collect();
            let q_want = step(r, q, 1, 255, qres);
            pt.q_index = q_want as usize;
            for i in 0..4 { pt.delta_lf[i] = lf_want[i] as isize; }
            let rd = r.chance(1, 2);
            ectx.borrow_mut().read_deltas = rd;

            // what the draft makes of it
            let skip_first = if pre && active(pt.segment_id, 6) { true } else { pt.skip };
            let pred = match (prev[0], prev[1], prev[2]) { (-1, -1, _) => 0, (-1, l, _) => l, (u, -1, _) => u, (u, l, ul) => if ul == u { u } else { l } };
            let seg = if !enabled { 0 } else if !pre && skip_first { pred as usize } else { pt.segment_id };
            let skip = skip_first;
            let want_inter = end_inter && k == n - 1;
            let inter = if active(seg, 5) { fv[seg][5].unwrap() != 0 } else if active(seg, 7) { true } else { want_inter };
            pt.is_inter = want_inter;
            // reference frames
            let comp = r.bool();
            let uni = r.bool();
            let refs = if !comp { [1 + r.usize(7) as i32, -1] } else if uni { r.pick(&[[1, 2], [1, 3], [1, 4], [5, 7]]) } else { [1 + r.usize(4) as i32, 5 + r.usize(3) as i32] };
            pt.comp_mode = if comp { CompMode::COMPOUND_REFERENCE } else { CompMode::SINGLE_REFERENCE };
            pt.comp_ref_type = if uni { CompRefType::UNIDIR_COMP_REFERENCE } else { CompRefType::BIDIR_COMP_REFERENCE };
            // a second reference left over from an earlier attempt means nothing to a single reference
            pt.ref_frame = [rf(refs[0]), rf(if comp || r.bool() { refs[1] } else { r.usize(8) as i32 })];
            pt.compound_mode = ym(18 + r.usize(8));
            pt.new_mv = r.bool(); pt.zero_mv = r.bool(); pt.ref_mv = r.bool();
            for d in 0..8 { pt.drl_mode[d] = r.usize(2); }
            let (comp, refs) = if !inter { (false, [0, 0]) } else if active(seg, 5) { (false, [fv[seg][5].unwrap() as i32, -1]) } else if active(seg, 6) || active(seg, 7) { (false, [1, -1]) }
                else if comp && select && w4(b).min(h4(b)) >= 2 { (true, refs) } else { (false, [refs[0], -1]) };
            // the block to the upper right has not been coded yet, at times
            if row > r0 && col + w4(b) < c1 && r.bool() { f.mis[row - 1][col + w4(b)] = None; }

            let mut sb = Superblock::new(BS[sbb], 0, 0);
            te.encode_block(&mut sb, row, col, &mut f, &mut out, &mut pt);
            let e = ectx.borrow();
            let after = After { q: e.current_q_index as i64, lf: e.delta_lf.iter().map(|x| *x as i64).collect(), cdef: f.cdef_idx.clone(), seg: pt.segment_id, skip: pt.skip, lossless: te.lossless, inter: pt.is_inter,
                chroma: te.has_chroma, avail: [te.avail_u, te.avail_l, te.avail_u_chroma, te.avail_l_chroma], deltas: e.read_deltas, refs: [pt.ref_frame[0] as i32, pt.ref_frame[1] as i32] };
            drop(e);
            // how the block's own state continues
            if rd && !(b == sbb && skip) {
                q = q_want;
                if lfp { for i in 0..(if !multi { 1 } else if planes > 1 { 4 } else { 2 }) { lf[i] = lf_want[i]; } }
            }
            let s = Step { b, row, col, above, left, prev, seg, skip, cdef: pt.cdef_idx as i64, q, lf, read_deltas: rd, inter, comp, refs };
            steps.push((s, after));
            if inter { break; }
            // the block becomes a neighbour of the next ones
            let mut m = random_mi(r);
            m.segment_id = seg; m.skip = skip; m.is_inter = false; m.intra = true; m.single = true; m.ref_frame = [rf(0), rf(-1)];
            for y in row..(row + h4(b)).min(r1) { for x in col..(col + w4(b)).min(c1) { f.mis[y][x] = Some(m); } }
            for y in r0..r1 { for x in c0..c1 { if f.mis[y][x].is_none() { f.mis[y][x] = Some(m); } } }
        }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);

    // the draft's parsing of the stream
    let mut rd = Rd::new(&out)?;
    let (mut q, mut lf) = start;
    let mut ev = std::collections::BTreeMap::new();
    let mut hit = |s: &str| *ev.entry(s.to_string()).or_insert(0u64) += 1;
    let mut inter_seen = false;
    for (s, a) in &steps {
        let at = format!("{}x{} block at ({}, {}) of a tile of rows {}..{} and columns {}..{}", w4(s.b) * 4, h4(s.b) * 4, s.row, s.col, r0, r1, c0, c1);
        // availability and chroma
        let (u, l) = (s.row > r0, s.col > c0);
        let chroma = planes > 1 && !(sy && h4(s.b) == 1 && s.row % 2 == 0) && !(sx && w4(s.b) == 1 && s.col % 2 == 0);
        let uc = chroma && if sy && h4(s.b) == 1 { s.row >= r0 + 2 } else { u };
        let lc = chroma && if sx && w4(s.b) == 1 { s.col >= c0 + 2 } else { l };
        ensure_eq!(a.chroma, chroma, "chroma of the {} (subsampling {} {}, {} planes)", at, sx, sy, planes);
        ensure_eq!(a.avail, [u, l, uc, lc], "neighbours of the {}", at);
        hit(if chroma { "blocks with chroma" } else { "blocks without chroma" });
        // segment, skip
        let seg_ctx = { let [u, l, ul] = s.prev; if u < 0 || l < 0 || ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 } };
        let pred = match (s.prev[0], s.prev[1], s.prev[2]) { (-1, -1, _) => 0, (-1, l, _) => l, (u, -1, _) => u, (u, l, ul) => if ul == u { u } else { l } };
        let mut seg = 0;
        if pre && enabled { seg = deinterleave(rd.sym(&mut cdf0.segment_id[seg_ctx])? as i64, pred, last as i64 + 1); ensure_eq!(seg, s.seg as i64, "segment (before skip) of the {}, predicted {}, last active {}", at, pred, last); hit("segment coded before skip"); }
        let skip = if pre && active(s.seg, 6) { hit("skip implied by the segment"); true } else {
            let ctx = s.above.map_or(0, |m| m.skip as usize) + s.left.map_or(0, |m| m.skip as usize);
            rd.sym(&mut cdf0.skip[ctx])? == 1 };
        ensure_eq!(skip, s.skip, "skip of the {}", at);
        if !pre && enabled {
            if skip { seg = pred; hit("segment of a skipped block"); }
            else { seg = deinterleave(rd.sym(&mut cdf0.segment_id[seg_ctx])? as i64, pred, last as i64 + 1); hit("segment coded after skip"); if seg < pred { hit("segment below its prediction"); } if seg > pred { hit("segment above its prediction"); } }
            ensure_eq!(seg, s.seg as i64, "segment (after skip) of the {}, predicted {}, last active {}", at, pred, last);
        }
        ensure_eq!(a.seg as i64, seg, "recorded segment of the {}", at);
        ensure_eq!(a.skip, skip, "recorded skip of the {}", at);
        ensure_eq!(a.lossless, lossless[seg as usize], "lossless of the {} in segment {}", at, seg);
        // CDEF
        if !skip && !cdef_off {
            let (y, x) = (s.row & !15, s.col & !15);
            if grid[y][x] == -1 {
                let v = rd.lit(cbits)?;
                ensure_eq!(v, s.cdef, "CDEF index of the {}", at);
                for i in (y..y + h4(s.b)).step_by(16) { for j in (x..x + w4(s.b)).step_by(16) { grid[i][j] = v as isize; } }
                hit("CDEF index coded");
            } else { hit("CDEF index known"); }
        }
        ensure!(a.cdef == grid, "CDEF indices after the {}", at);
        // deltas
        let coded = s.read_deltas && !(s.b == sbb && skip);
        if coded {
            let mut d = rd.sym(&mut cdf0.delta_q)? as i64;
            if d == 3 { let n = rd.lit(3)? + 1; d = rd.lit(n as u32)? + (1 << n) + 1; hit("long quantizer delta"); }
            if d > 0 && rd.lit(1)? == 1 { d = -d; }
            q = (q + (d << qres)).max(1).min(255);
            ensure_eq!(q, s.q, "quantizer index of the {} (resolution {})", at, qres);
            hit("quantizer delta coded");
            if lfp { for i in 0..(if !multi { 1 } else if planes > 1 { 4 } else { 2 }) {
                let c = if multi { &mut cdf0.delta_lf_multi[i] } else { &mut cdf0.delta_lf };
                let mut d = rd.sym(c)? as i64;
                if d == 3 { let n = rd.lit(3)? + 1; d = rd.lit(n as u32)? + (1 << n) + 1; hit("long filter delta"); }
                if d > 0 && rd.lit(1)? == 1 { d = -d; }
                lf[i] = (lf[i] + (d << lfres)).max(-63).min(63);
                ensure_eq!(lf[i], s.lf[i], "filter delta {} of the {} (resolution {})", i, at, lfres);
                hit("filter delta coded");
            } }
        } else if s.read_deltas { hit("deltas left out of a skipped superblock"); }
        ensure_eq!(a.q, q, "quantizer index after the {}", at);
        ensure_eq!(a.lf, lf.to_vec(), "filter deltas after the {}", at);
        ensure_eq!(a.deltas, false, "deltas still to be read after the {}", at);
        // prediction kind
        let inter = if active(s.seg, 5) { fv[s.seg][5].unwrap() != 0 } else if active(s.seg, 7) { true } else { rd.sym(&mut cdf0.is_inter[is_inter_ctx(s.above, s.left)])? == 1 };
        ensure_eq!(inter, s.inter, "is_inter of the {}", at);
        ensure_eq!(a.inter, inter, "recorded is_inter of the {}", at);
        if !inter { continue; }
        inter_seen = true;
        // reference frames
        let cx = |x: &[i32], y: &[i32]| ref_ctx_of(s.above, s.left, x, y);
        let refs: [i32; 2] = if active(s.seg, 5) { hit("reference implied by the segment"); [fv[s.seg][5].unwrap() as i32, -1] }
        else if active(s.seg, 6) || active(s.seg, 7) { hit("reference implied by the segment"); [1, -1] }
        else {
            let comp = select && w4(s.b).min(h4(s.b)) >= 2 && rd.sym(&mut cdf0.comp_mode[comp_mode_ctx(s.above, s.left)])? == 1;
            ensure_eq!(comp, s.comp, "compound prediction of the {}", at);
            if comp && rd.sym(&mut cdf0.comp_ref_type[comp_ref_type_ctx(s.above, s.left)])? == 0 {
                hit("unidirectional compound references");
                if rd.sym(&mut cdf0.uni_comp_ref[cx(FWD, BWD)][0])? == 1 { [5, 7] }
                else if rd.sym(&mut cdf0.uni_comp_ref[cx(&[2], &[3, 4])][1])? == 0 { [1, 2] }
                else if rd.sym(&mut cdf0.uni_comp_ref[cx(&[3], &[4])][2])? == 1 { [1, 4] } else { [1, 3] }
            } else if comp {
                hit("bidirectional compound references");
                let a = if rd.sym(&mut cdf0.comp_ref[cx(&[1, 2], &[3, 4])][0])? == 0 { 1 + rd.sym(&mut cdf0.comp_ref[cx(&[1], &[2])][1])? as i32 } else { 3 + rd.sym(&mut cdf0.comp_ref[cx(&[3], &[4])][2])? as i32 };
                let b = if rd.sym(&mut cdf0.comp_bwd_ref[cx(&[5, 6], &[7])][0])? == 1 { 7 } else { 5 + rd.sym(&mut cdf0.comp_bwd_ref[cx(&[5], &[6])][1])? as i32 };
                [a, b]
            } else {
                hit("single reference");
                let a = if rd.sym(&mut cdf0.single_ref[cx(FWD, BWD)][0])? == 1 {
                    if rd.sym(&mut cdf0.single_ref[cx(&[5, 6], &[7])][1])? == 1 { 7 } else { 5 + rd.sym(&mut cdf0.single_ref[cx(&[5], &[6])][5])? as i32 }
                } else if rd.sym(&mut cdf0.single_ref[cx(&[1, 2], &[3, 4])][2])? == 0 { 1 + rd.sym(&mut cdf0.single_ref[cx(&[1], &[2])][3])? as i32 }
                else { 3 + rd.sym(&mut cdf0.single_ref[cx(&[3], &[4])][4])? as i32 };
                [a, -1]
            }
        };
        ensure_eq!(refs, s.refs, "reference frames of the {}", at);
        ensure_eq!(a.refs, refs, "recorded reference frames of the {}", at);
    }
    run.count_all(&ev);
    // no distribution moved that a decoder does not move; without an inter block nothing else is in the stream
    const MINE: [&str; 12] = ["skip[", "segment_id[", "delta_q", "delta_lf", "is_inter[", "comp_mode[", "comp_ref[", "comp_ref_type[", "comp_bwd_ref[", "single_ref[", "uni_comp_ref[", "delta_lf_multi["];
    for (x, y) in flat(&cdf0).iter().zip(flat(&cdf1).iter()) {
        if !inter_seen || MINE.iter().any(|m| x.0.starts_with(m)) { ensure!(x.1 == y.1, "distribution {} after the blocks is {:?}, the decoder has {:?}", x.0, y.1, x.1); }
    }
    if !inter_seen { ensure!(out.len() <= rd.limit(), "{} bits for blocks that need {}", out.len(), rd.limit()); }
    let (b, k) = (&steps[steps.len() - 1].0, steps.len());
    Ok(Case::new(hash_bytes(&out) ^ hash_of(&(r0, r1, c0, c1, k)), k > 1 || inter_seen, format!("{} blocks in rows {}..{} and columns {}..{}, {} segments{}, superblock {}, last block {}x{} at ({}, {}) skip {} segment {} refs {:?}; {} bits", k, r0, r1, c0, c1, if enabled { last + 1 } else { 0 }, if pre { " before skip" } else { "" }, if use128 { 128 } else { 64 }, w4(b.b) * 4, h4(b.b) * 4, b.row, b.col, b.skip, b.seg, b.refs, out.len())))
}

fn main() {
    let mut r = Runner::new("C23", "a case is one tile-like session: a random frame and tile inside it with random neighbouring mode information, segmentation features, CDEF, delta and reference settings, in which up to 10 blocks of random sizes and positions are coded; the draft's parsing process reads every value back from the stream, and the encoder's recorded state is compared after every block; non-trivial: more than one block, or an inter block; distinct: by stream and tile");
    for k in ["blocks with chroma", "blocks without chroma", "segment coded before skip", "segment coded after skip", "segment below its prediction", "segment above its prediction", "segment of a skipped block", "skip implied by the segment", "CDEF index coded", "CDEF index known",
        "quantizer delta coded", "long quantizer delta", "filter delta coded", "long filter delta", "deltas left out of a skipped superblock", "reference implied by the segment", "unidirectional compound references", "bidirectional compound references", "single reference"] { r.require(k); }
    let n = r.n(2500, 300000);
    r.suite("block-sequences", n, |rng, _i, run| session(rng, run, false));
    let n = r.n(2500, 300000);
    r.suite("inter-blocks", n, |rng, _i, run| session(rng, run, true));
    r.assume("blocks outside the current tile are absent from the frame's mode information while the tile is coded");
    r.assume("the quantizer and filter values asked for are reachable with the frame's delta resolution");
    r.finish();
}
