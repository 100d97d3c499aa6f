//! C24: motion vectors — global vectors, the list of candidates from the neighbours and the
//! motion field, and the coded differences — are those a decoder derives and recovers.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
#[path = "../blockinfo.rs"] mod blockinfo;
use av1enc::bool_coder::BoolCoder;
use av1enc::block::{PartitionTree, Superblock};
use av1enc::cdf::{default_cdf, CDF};
use av1enc::common::MotionVector;
use av1enc::constants::*;
use av1enc::encoder::EncoderContext;
use av1enc::frame::Frame;
use av1enc::tile_encoder::TileEncoder;
use blockinfo::*;
use mon::refcoder::*;
use mon::*;
use std::cell::RefCell;
use std::rc::Rc;
use syntax::*;

/// row, column
type V = (i64, i64);
fn v(m: MotionVector) -> V { (m.y as i64, m.x as i64) }
fn mv(v: V) -> MotionVector { MotionVector { y: v.0 as isize, x: v.1 as isize } }
const NONE_MV: i64 = -32768;
const NEAREST: usize = 14; const NEAR: usize = 15; const GLOBAL: usize = 16; const NEW: usize = 17; const FIRST_COMP: usize = 18;
/// first and second part of the compound modes, in the order of the draft
const PARTS: [(usize, usize); 8] = [(NEAREST, NEAREST), (NEAR, NEAR), (NEAREST, NEW), (NEW, NEAREST), (NEAR, NEW), (NEW, NEAR), (GLOBAL, GLOBAL), (NEW, NEW)];
fn part(mode: usize, list: usize) -> usize { if mode < FIRST_COMP { mode } else { let p = PARTS[mode - FIRST_COMP]; if list == 0 { p.0 } else { p.1 } } }
fn has_new(mode: usize) -> bool { mode >= 14 && (part(mode, 0) == NEW || part(mode, 1) == NEW) }

struct Setup { f: Frame, ecx: EncoderContext, r0: usize, r1: usize, c0: usize, c1: usize, hp: bool, int: bool, gm: Vec<(usize, [i64; 6])>, field: Vec<Vec<Vec<V>>> }
fn setup(r: &mut Rng) -> Setup {
    let use128 = r.bool();
    let (mut f, r0, r1, c0, c1) = tile(r, if use128 { 32 } else { 16 });
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let (hp, int) = r.pick(&[(true, false), (false, false), (false, true)]);
    f.allow_high_precision_mv = hp; f.force_integer_mv = int as _;
    f.use_ref_frame_mvs = r.bool();
    // few frames and vectors, so that candidates meet; or many, so that the list fills
    let pool: Vec<V> = (0..if r.bool() { 3 } else { 60 }).map(|_| (r.range(-600, 600), r.range(-600, 600))).collect();
    let nref = if r.bool() { 2 } else { 7 };
    let mut field = vec![vec![vec![(NONE_MV, NONE_MV); cols / 2 + 2]; rows / 2 + 2]; 8];
    let dense = r.chance(1, 2);
    for a in field.iter_mut() { for b in a.iter_mut() { for c in b.iter_mut() { if dense || r.chance(1, 4) { *c = match r.below(4) { 0 | 1 => r.pick(&pool), 2 => { let e = r.pick(&[-1i64, 1]) * r.range(14, 18); let o = r.range(-2, 2); if r.bool() { (e, o) } else { (o, e) } } _ => (r.range(-40, 40), r.range(-40, 40)) }; } } } }
    let mut ecx = EncoderContext::new();
    ecx.frame_is_intra = true;
    ecx.use_128x128_superblock = use128;
    ecx.num_planes = 3;
    ecx.enable_cdef = false;
    f.cdef_idx = vec![vec![0; cols + 64]; rows + 64];
    let mut gm = vec![];
    for i in 0..8 {
        let t = if r.bool() { r.usize(4) } else { 0 };
        let big = r.bool();
        let p: Vec<i64> = (0..6).map(|k| { let w = if k < 2 { if big { 4_000_000 } else { 200_000 } } else { 600 }; (if k == 2 || k == 5 { 65536 } else { 0 }) + r.range(-w, w) }).collect();
        ecx.gm_type[i] = t;
        for k in 0..6 { ecx.gm_params[i][k] = p[k] as isize; }
        gm.push((t, [p[0], p[1], p[2], p[3], p[4], p[5]]));
    }
    ecx.motion_field_mvs = field.iter().map(|a| a.iter().map(|b| b.iter().map(|c| mv(*c)).collect()).collect()).collect();
    // neighbours: coded blocks of various sizes
    let small = r.bool();
    for y in 0..rows { for x in 0..cols { if f.mis[y][x].is_some() {
        let mut m = random_mi(r);
        if r.chance(4, 5) { m.is_inter = true; m.intra = false; }
        if small { m.mi_size = BS[r.usize(4)]; }
        if m.is_inter {
            m.single = r.bool();
            let a = 1 + r.usize(nref) as i32;
            let b = loop { let b = 1 + r.usize(nref) as i32; if b != a { break b; } };
            m.ref_frame = if m.single { [rf(a), rf(r.range(-1, 0) as i32)] } else { [rf(a.min(b)), rf(a.max(b))] };
            m.y_mode = ym(if m.single { 14 + r.usize(4) } else { 18 + r.usize(8) });
        } else { m.ref_frame = [rf(0), rf(-1)]; m.single = true; }
        m.mvs = [mv(r.pick(&pool)), mv(r.pick(&pool))];
        f.mis[y][x] = Some(m);
    } } }
    Setup { f, ecx, r0, r1, c0, c1, hp, int, gm, field }
}
fn lower(s: &Setup, m: V) -> V {
    let one = |c: i64| if s.hp { c } else if s.int { c.signum() * ((c.abs() + 3) / 8 * 8) } else { c - (c % 2) };
    (one(m.0), one(m.1))
}
/// round to nearest, halves away from zero
fn rnd(x: i64, n: u32) -> i64 { x.signum() * ((x.abs() + (1 << (n - 1))) >> n) }
fn global(s: &Setup, b: usize, row: usize, col: usize, rf: i32) -> V {
    let (t, p) = if rf > 0 { s.gm[rf as usize] } else { (0, [0; 6]) };
    let m = match t {
        0 => (0, 0),
        1 => (p[0] >> 13, p[1] >> 13),
        _ => {
            let x = (col * 4 + w4(b) * 2 - 1) as i64; let y = (row * 4 + h4(b) * 2 - 1) as i64;
            let xc = (p[2] - 65536) * x + p[3] * y + p[0]; let yc = p[4] * x + (p[5] - 65536) * y + p[1];
            if s.hp { (rnd(yc, 13), rnd(xc, 13)) } else { (2 * rnd(yc, 14), 2 * rnd(xc, 14)) }
        }
    };
    lower(s, m)
}
#[derive(Debug, PartialEq, Default)]
struct List { stack: Vec<(V, V, u64)>, new: usize, close: usize, zero: usize, globals: [V; 2] }
fn push(l: &mut List, a: V, b: V, w: u64) {
    if let Some(e) = l.stack.iter_mut().find(|e| e.0 == a && e.1 == b) { e.2 += w; } else if l.stack.len() < 8 { l.stack.push((a, b, w)); }
}
/// the part of the draft's motion vector prediction that looks at adjacent blocks and the motion field
fn list(s: &Setup, b: usize, row: usize, col: usize, refs: [i32; 2], ev: &mut std::collections::BTreeMap<String, u64>) -> List {
    let comp = refs[1] > 0;
    let mut l = List::default();
    l.globals[0] = global(s, b, row, col, refs[0]);
    if comp { l.globals[1] = global(s, b, row, col, refs[1]); }
    let (bw, bh) = (w4(b), h4(b));
    let (rows, cols) = (s.f.mis.len(), s.f.mis[0].len());
    let inside = |y: i64, x: i64| y >= s.r0 as i64 && y < s.r1 as i64 && x >= s.c0 as i64 && x < s.c1 as i64;
    let mut hit = |n: &str| *ev.entry(n.to_string()).or_insert(0) += 1;
    let mut cand = |l: &mut List, m: ModeInfo, weight: u64| -> bool {
        if !m.is_inter { return false; }
        let mode = m.y_mode as usize;
        let mut any = false;
        if !comp {
            let large = w4(m.mi_size as usize).min(h4(m.mi_size as usize)) >= 2;
            for k in 0..2 { if m.ref_frame[k] as i32 == refs[0] {
                let g = (mode == GLOBAL || mode == FIRST_COMP + 6) && s.gm[refs[0] as usize].0 > 1 && large;
                if g { hit("candidate replaced by the global vector"); }
                let c = lower(s, if g { l.globals[0] } else { v(m.mvs[k]) });
                if has_new(mode) { l.new += 1; }
                push(l, c, (0, 0), weight);
                any = true;
                hit("single candidate");
            } }
        } else if m.ref_frame[0] as i32 == refs[0] && m.ref_frame[1] as i32 == refs[1] {
            let c: Vec<V> = (0..2).map(|k| lower(s, if mode == FIRST_COMP + 6 && s.gm[refs[k] as usize].0 > 1 { l.globals[k] } else { v(m.mvs[k]) })).collect();
            if has_new(mode) { l.new += 1; }
            push(l, c[0], c[1], weight);
            any = true;
            hit("compound candidate");
        }
        any
    };
    let (mut above, mut left) = (false, false);
    let mut i = 0;
    while i < bw.min(cols - col).min(16) {
        let (y, x) = (row as i64 - 1, (col + i) as i64);
        if !inside(y, x) { break; }
        let m = s.f.mis[y as usize][x as usize].unwrap();
        let n = bw.min(w4(m.mi_size as usize)).max(if bw >= 16 { 4 } else { 1 });
        above |= cand(&mut l, m, 2 * n as u64);
        i += n;
    }
    let mut i = 0;
    while i < bh.min(rows - row).min(16) {
        let (y, x) = ((row + i) as i64, col as i64 - 1);
        if !inside(y, x) { break; }
        let m = s.f.mis[y as usize][x as usize].unwrap();
        let n = bh.min(h4(m.mi_size as usize)).max(if bh >= 16 { 4 } else { 1 });
        left |= cand(&mut l, m, 2 * n as u64);
        i += n;
    }
    if bw.max(bh) <= 16 && inside(row as i64 - 1, (col + bw) as i64) {
        if let Some(m) = s.f.mis[row - 1][col + bw] { above |= cand(&mut l, m, 4); }
    }
    l.close = above as usize + left as usize;
    for e in l.stack.iter_mut() { e.2 += 640; }
    if s.f.use_ref_frame_mvs {
        for dy in (0..bh.min(16)).step_by(if bh >= 16 { 4 } else { 2 }) { for dx in (0..bw.min(16)).step_by(if bw >= 16 { 4 } else { 2 }) {
            let (y, x) = ((row + dy) | 1, (col + dx) | 1);
            if !inside(y as i64, x as i64) { continue; }
            let origin = dy == 0 && dx == 0;
            if origin { l.zero = 1; }
            let c: Vec<V> = (0..1 + comp as usize).map(|k| s.field[refs[k] as usize][y >> 1][x >> 1]).collect();
            if c.iter().any(|c| c.0 == NONE_MV) { continue; }
            *ev.entry("motion field candidate".to_string()).or_insert(0) += 1;
            let c: Vec<V> = c.into_iter().map(|c| lower(s, c)).collect();
            if origin { l.zero = c.iter().zip(l.globals.iter()).any(|(a, g)| (a.0 - g.0).abs() >= 16 || (a.1 - g.1).abs() >= 16) as usize; }
            push(&mut l, c[0], if comp { c[1] } else { (0, 0) }, 2);
        } }
    }
    if l.stack.len() == 8 { *ev.entry("full list".to_string()).or_insert(0) += 1; }
    l
}
fn got(te: &TileEncoder, comp: bool) -> List {
    List { stack: (0..te.num_mv_found).map(|i| (v(te.ref_stack_mv[i][0]), if comp { v(te.ref_stack_mv[i][1]) } else { (0, 0) }, te.weight_stack[i] as u64)).collect(), new: te.new_mv_count, close: te.close_matches, zero: te.zero_mv_context, globals: [v(te.global_mvs[0]), if comp { v(te.global_mvs[1]) } else { (0, 0) }] }
}
fn block(r: &mut Rng, s: &Setup) -> usize {
    loop {
        let b = r.usize(22);
        if !s.ecx.use_128x128_superblock && (w4(b) > 16 || h4(b) > 16) { continue; }
        // the motion field samples around the block are outside what the encoder does
        if s.f.use_ref_frame_mvs && w4(b) >= 2 && h4(b) >= 2 && w4(b) < 16 && h4(b) < 16 { continue; }
        return b;
    }
}
fn references(r: &mut Rng, b: usize) -> [i32; 2] {
    let hi = if r.bool() { 2 } else { 7 };
    if r.bool() && w4(b).min(h4(b)) >= 2 { let a = 1 + r.usize(hi) as i32; let c = loop { let c = 1 + r.usize(hi) as i32; if c != a { break c; } }; [a.min(c), a.max(c)] } else { [1 + r.usize(hi) as i32, -1] }
}

fn candidates(r: &mut Rng, run: &Runner) -> CaseResult {
    let mut s = setup(r);
    let ectx = Rc::new(RefCell::new(std::mem::replace(&mut s.ecx, EncoderContext::new())));
    s.ecx.use_128x128_superblock = ectx.borrow().use_128x128_superblock;
    let mut coder = BoolCoder::new();
    let mut te = TileEncoder::new(&ectx, &mut coder);
    te.mi_row_start = s.r0; te.mi_row_end = s.r1; te.mi_col_start = s.c0; te.mi_col_end = s.c1;
    let mut ev = std::collections::BTreeMap::new();
    let mut key = 0; let mut most = 0; let mut desc = String::new();
    for _ in 0..6 {
        let b = block(r, &s);
        let (row, col) = place(r, b, s.r0, s.r1, s.c0, s.c1);
        let refs = references(r, b);
        let comp = refs[1] > 0;
        let hole = row > s.r0 && col + w4(b) < s.c1 && r.bool();
        let kept = if hole { s.f.mis[row - 1][col + w4(b)].take() } else { None };
        let mut pt = PartitionTree::new(BS[b]);
        pt.ref_frame = [rf(refs[0]), rf(refs[1])];
        te.mi_row = row; te.mi_col = col; te.mi_size = BS[b];
        te.find_mv_stack(comp, &mut s.f, &mut pt);
        let want = list(&s, b, row, col, refs, &mut ev);
        let have = got(&te, comp);
        let at = format!("{}x{} block at ({}, {}) of a tile of rows {}..{} and columns {}..{}, references {:?}{}{}", w4(b) * 4, h4(b) * 4, row, col, s.r0, s.r1, s.c0, s.c1, refs, if s.hp { ", high precision" } else if s.int { ", integer" } else { "" }, if s.f.use_ref_frame_mvs { ", motion field" } else { "" });
        ensure_eq!(have.globals, want.globals, "global vectors of the {} (types {:?})", at, [s.gm[refs[0] as usize].0, s.gm[refs[1].max(0) as usize].0]);
        ensure_eq!(have.stack, want.stack, "candidates (row and column of the vectors, weight) of the {}", at);
        ensure_eq!(have.new, want.new, "count of new vectors around the {}", at);
        ensure_eq!(have.close, want.close, "count of matching sides of the {}", at);
        ensure_eq!(have.zero, want.zero, "zero vector context of the {}", at);
        *ev.entry(format!("global motion type {}", s.gm[refs[0] as usize].0)).or_insert(0) += 1;
        if hole { s.f.mis[row - 1][col + w4(b)] = kept; }
        key ^= hash_of(&(b, row, col, refs, have.stack.len(), have.new, have.globals)).rotate_left(7);
        if have.stack.len() >= most { most = have.stack.len(); desc = format!("{}: {} candidates, globals {:?}", at, most, have.globals); }
    }
    run.count_all(&ev);
    Ok(Case::new(key, most > 0, desc))
}

fn component(rd: &mut Rd, c: &mut CDF, ctx: usize, k: usize, hp: bool, int: bool) -> Result<i64, String> {
    let neg = rd.sym(&mut c.mv_sign[ctx][k])? == 1;
    let class = rd.sym(&mut c.mv_class[ctx][k])?;
    let mut m;
    if class == 0 {
        let bit = rd.sym(&mut c.mv_class0_bit[ctx][k])?;
        let fr = if int { 3 } else { rd.sym(&mut c.mv_class0_fr[ctx][k][bit])? };
        let h = if hp { rd.sym(&mut c.mv_class0_hp[ctx][k])? } else { 1 };
        m = 8 * bit + 2 * fr + h + 1;
    } else {
        let mut d = 0;
        for i in 0..class { d += rd.sym(&mut c.mv_bit[ctx][k][i])? << i; }
        let fr = if int { 3 } else { rd.sym(&mut c.mv_fr[ctx][k])? };
        let h = if hp { rd.sym(&mut c.mv_hp[ctx][k])? } else { 1 };
        m = (8 << class) + 8 * d + 2 * fr + h + 1;
    }
    let _ = &mut m;
    Ok(if neg { -(m as i64) } else { m as i64 })
}
fn difference(rd: &mut Rd, c: &mut CDF, ctx: usize, hp: bool, int: bool) -> Result<V, String> {
    let j = rd.sym(&mut c.mv_joint[ctx])?;
    let row = if j >= 2 { component(rd, c, ctx, 0, hp, int)? } else { 0 };
    let col = if j & 1 == 1 { component(rd, c, ctx, 1, hp, int)? } else { 0 };
    Ok((row, col))
}
/// a coded difference in the frame's precision: every class and both of its ends
fn a_diff(r: &mut Rng, unit: i64) -> i64 {
    let m = match r.below(6) { 0 => 0, 1 => unit * r.range(1, 6), 2 => { let k = r.below(12) as u32; ((8i64 << k) + unit * r.range(-2, 2)).max(0) } 3 => 16384, _ => r.range(0, 16384) };
    let m = m.min(16384) / unit * unit;
    if r.bool() { -m } else { m }
}

fn vectors(r: &mut Rng, run: &Runner) -> CaseResult {
    let (hp, int) = r.pick(&[(true, false), (false, false), (false, true)]);
    let unit = if hp { 1 } else if int { 8 } else { 2 };
    let mut f = Frame::new(FrameType::INTER_FRAME, 64, 64);
    f.allow_high_precision_mv = hp; f.force_integer_mv = int as _;
    let mut ecx = EncoderContext::new();
    let use128 = r.bool();
    ecx.use_128x128_superblock = use128;
    let ectx = Rc::new(RefCell::new(ecx));
    let mut cdf0: Box<CDF> = Box::new(default_cdf);
    cdfs::visit_mut(&mut cdf0, &mut |n, l| if n.starts_with("mv_") { for _ in 0..r.usize(4) { let s = r.usize(l.len() - 1); adapt(l, s); } });
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out = vec![];
    let n = 1 + r.usize(12);
    let mut steps: Vec<(bool, Vec<(bool, V)>, Vec<V>, String)> = vec![];
    let cdf1;
    let mut ev = std::collections::BTreeMap::new();
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = (*cdf0).clone();
        for _ in 0..n {
            let sb4 = if use128 { 32 } else { 16 };
            te.mi_row_start = sb4 * r.usize(3);
            te.mi_row = te.mi_row_start + match r.below(4) { 0 => 0, 1 => sb4 - 1, 2 => sb4, _ => r.usize(3 * sb4) };
            let any = |r: &mut Rng| -> V { (r.range(-500, 500) * unit / 8 * 8, r.range(-500, 500) * unit / 8 * 8) };
            te.num_mv_found = r.usize(9);
            for i in 0..8 { for k in 0..2 { te.ref_stack_mv[i][k] = mv(if r.chance(1, 5) { (0, 0) } else if r.chance(1, 6) { (0, 8) } else { any(r) }); } }
            for k in 0..2 { te.global_mvs[k] = mv(any(r)); te.pred_mv[k] = mv(any(r)); }
            te.ref_mv_idx = r.usize(4);
            let mut pt = PartitionTree::new(BLOCK_16X16);
            let bc = int && r.chance(1, 2);
            pt.use_intrabc = bc;
            let mode = if bc { r.usize(26) } else { 14 + r.usize(12) };
            let comp = !bc && mode >= FIRST_COMP;
            te.y_mode = mode;
            // what the draft predicts
            let preds: Vec<(bool, V)> = (0..1 + comp as usize).map(|k| {
                if bc {
                    let p = [v(te.ref_stack_mv[0][0]), v(te.ref_stack_mv[1][0])];
                    let side = (sb4 * 4) as i64;
                    (true, if p[0] != (0, 0) { p[0] } else if p[1] != (0, 0) { p[1] } else if te.mi_row < te.mi_row_start + sb4 { *ev.entry("block copy from the left by default".to_string()).or_insert(0u64) += 1; (0, -(side + 256) * 8) } else { *ev.entry("block copy from above by default".to_string()).or_insert(0u64) += 1; (-side * 8, 0) })
                } else {
                    let p = part(mode, k);
                    (p == NEW, match p { GLOBAL => v(te.global_mvs[k]), NEAREST => v(te.ref_stack_mv[0][k]), NEW if te.num_mv_found <= 1 => v(te.ref_stack_mv[0][k]), _ => v(te.ref_stack_mv[te.ref_mv_idx][k]) })
                }
            }).collect();
            let want: Vec<V> = preds.iter().map(|(new, p)| if *new { (p.0 + a_diff(r, unit), p.1 + a_diff(r, unit)) } else { *p }).collect();
            for k in 0..2 { pt.mvs[k] = mv(if k < want.len() && preds[k].0 { want[k] } else { any(r) }); }
            let (idx, found) = (te.ref_mv_idx, te.num_mv_found);
            te.assign_mv(comp, &mut f, &mut out, &mut pt);
            let have: Vec<V> = (0..want.len()).map(|k| v(pt.mvs[k])).collect();
            let at = format!("mode {}{}, list index {}, {} candidates, row {} of a tile from row {}", mode, if bc { " (block copy)" } else { "" }, idx, found, te.mi_row, te.mi_row_start);
            ensure_eq!(have, want, "vectors of a block with {}", at);
            for k in 0..want.len() { ensure_eq!(v(te.pred_mv[k]), preds[k].1, "predicted vector {} of a block with {}", k, at); }
            steps.push((bc, preds, want, at));
        }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);
    let mut rd = Rd::new(&out)?;
    let mut coded = 0;
    for (bc, preds, want, at) in &steps {
        for k in 0..want.len() {
            if !preds[k].0 { *ev.entry("vector without a difference".to_string()).or_insert(0) += 1; continue; }
            let d = difference(&mut rd, &mut cdf0, *bc as usize, hp, int)?;
            ensure_eq!((preds[k].1 .0 + d.0, preds[k].1 .1 + d.1), want[k], "decoded vector {} of a block with {}", k, at);
            *ev.entry(format!("difference {} of {}", ["zero", "in the columns", "in the rows", "in both"][(d.1 != 0) as usize + 2 * (d.0 != 0) as usize], if *bc { "a block copy" } else { "a new vector" })).or_insert(0) += 1;
            coded += 1;
        }
    }
    run.count_all(&ev);
    for (x, y) in flat(&cdf0).iter().zip(flat(&cdf1).iter()) { ensure!(x.1 == y.1, "distribution {} after the vectors is {:?}, the decoder has {:?}", x.0, y.1, x.1); }
    ensure!(out.len() <= rd.limit(), "{} bits for vectors that need {}", out.len(), rd.limit());
    Ok(Case::new(hash_bytes(&out) ^ hash_of(&(n, hp, int)), coded > 0, format!("{} blocks, {} differences{}, first: {} -> {:?}; {} bits", n, coded, if hp { " in high precision" } else if int { " of integers" } else { "" }, steps[0].3, steps[0].2, out.len())))
}

fn blocks(r: &mut Rng, run: &Runner) -> CaseResult {
    let mut s = setup(r);
    s.f.reference_select = true;
    s.ecx.lossless_array = [false; 8];
    let use128 = s.ecx.use_128x128_superblock;
    let ectx = Rc::new(RefCell::new(std::mem::replace(&mut s.ecx, EncoderContext::new())));
    s.ecx.use_128x128_superblock = use128;
    let mut cdf0: Box<CDF> = Box::new(default_cdf);
    cdfs::visit_mut(&mut cdf0, &mut |_n, l| { for _ in 0..r.usize(3) { let s = r.usize(l.len() - 1); adapt(l, s); } });
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out = vec![];
    let n = 1 + r.usize(5);
    // everything a decoder needs to follow one block
    struct St { at: String, comp: bool, refs: [i32; 2], above: Option<ModeInfo>, left: Option<ModeInfo>, b: usize, mode: usize, drl: [usize; 8], ctx: [usize; 3], dctx: [usize; 8], n: usize, stack: Vec<(V, V, u64)>, globals: [V; 2], y_mode: usize, idx: usize, mvs: [V; 2], want: [V; 2] }
    let mut steps: Vec<St> = vec![];
    let cdf1;
    let mut ev = std::collections::BTreeMap::new();
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = (*cdf0).clone();
        te.mi_row_start = s.r0; te.mi_row_end = s.r1; te.mi_col_start = s.c0; te.mi_col_end = s.c1;
        for _ in 0..n {
            let b = block(r, &s);
            let (row, col) = place(r, b, s.r0, s.r1, s.c0, s.c1);
            let refs = loop { let x = references(r, b); if x[1] < 0 || x[0] <= 4 && x[1] >= 5 || [[1, 2], [1, 3], [1, 4], [5, 7]].contains(&x) { break x; } };
            let comp = refs[1] > 0;
            let mut pt = PartitionTree::new(BS[b]);
            pt.is_inter = true;
            pt.skip = r.bool();
            pt.comp_mode = if comp { CompMode::COMPOUND_REFERENCE } else { CompMode::SINGLE_REFERENCE };
            pt.comp_ref_type = if comp && refs[0] <= 4 && refs[1] >= 5 { CompRefType::BIDIR_COMP_REFERENCE } else { CompRefType::UNIDIR_COMP_REFERENCE };
            pt.ref_frame = [rf(refs[0]), rf(refs[1])];
            let mode = if comp { 18 + r.usize(8) } else { 14 + r.usize(4) };
            if comp { pt.compound_mode = ym(mode); } else {
                pt.new_mv = mode != NEW; pt.zero_mv = mode != GLOBAL; pt.ref_mv = mode == NEAR;
                // flags behind the deciding one are not looked at
                if mode == NEW { pt.zero_mv = r.bool(); pt.ref_mv = r.bool(); }
                if mode == GLOBAL { pt.ref_mv = r.bool(); }
            }
            for d in 0..8 { pt.drl_mode[d] = r.usize(2); }
            for k in 0..2 { pt.mvs[k] = mv((r.range(-900, 900) * 8, r.range(-900, 900) * 8)); }
            let want = [v(pt.mvs[0]), v(pt.mvs[1])];
            let above = if row > s.r0 { s.f.mis[row - 1][col] } else { None };
            let left = if col > s.c0 { s.f.mis[row][col - 1] } else { None };
            let mut sb = Superblock::new(if use128 { BLOCK_128X128 } else { BLOCK_64X64 }, 0, 0);
            let drl = pt.drl_mode;
            te.encode_block(&mut sb, row, col, &mut s.f, &mut out, &mut pt);
            let l = list(&s, b, row, col, refs, &mut ev);
            let at = format!("{}x{} block at ({}, {}) of a tile of rows {}..{} and columns {}..{}, references {:?}, mode {}", w4(b) * 4, h4(b) * 4, row, col, s.r0, s.r1, s.c0, s.c1, refs, mode);
            ensure_eq!(got(&te, comp), l, "candidate list of the {}", at);
            steps.push(St { at, comp, refs, above, left, b, mode, drl, ctx: [te.new_mv_context, te.zero_mv_context, te.ref_mv_context], dctx: te.drl_ctx_stack, n: te.num_mv_found, stack: l.stack, globals: l.globals, y_mode: te.y_mode, idx: te.ref_mv_idx, mvs: [v(pt.mvs[0]), v(pt.mvs[1])], want });
        }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);
    let mut rd = Rd::new(&out)?;
    for s_ in &steps {
        let q = s_;
        let sk = q.above.map_or(0, |m| m.skip as usize) + q.left.map_or(0, |m| m.skip as usize);
        rd.sym(&mut cdf0.skip[sk])?;
        ensure_eq!(rd.sym(&mut cdf0.is_inter[is_inter_ctx(q.above, q.left)])?, 1, "is_inter of the {}", q.at);
        let cx = |x: &[i32], y: &[i32]| ref_ctx_of(q.above, q.left, x, y);
        let comp = w4(q.b).min(h4(q.b)) >= 2 && rd.sym(&mut cdf0.comp_mode[comp_mode_ctx(q.above, q.left)])? == 1;
        let refs = if comp && rd.sym(&mut cdf0.comp_ref_type[comp_ref_type_ctx(q.above, q.left)])? == 0 {
            if rd.sym(&mut cdf0.uni_comp_ref[cx(FWD, BWD)][0])? == 1 { [5, 7] }
            else if rd.sym(&mut cdf0.uni_comp_ref[cx(&[2], &[3, 4])][1])? == 0 { [1, 2] }
            else if rd.sym(&mut cdf0.uni_comp_ref[cx(&[3], &[4])][2])? == 1 { [1, 4] } else { [1, 3] }
        } else if comp {
            let a = if rd.sym(&mut cdf0.comp_ref[cx(&[1, 2], &[3, 4])][0])? == 0 { 1 + rd.sym(&mut cdf0.comp_ref[cx(&[1], &[2])][1])? as i32 } else { 3 + rd.sym(&mut cdf0.comp_ref[cx(&[3], &[4])][2])? as i32 };
            let b = if rd.sym(&mut cdf0.comp_bwd_ref[cx(&[5, 6], &[7])][0])? == 1 { 7 } else { 5 + rd.sym(&mut cdf0.comp_bwd_ref[cx(&[5], &[6])][1])? as i32 };
            [a, b]
        } else {
            let a = if rd.sym(&mut cdf0.single_ref[cx(FWD, BWD)][0])? == 1 {
                if rd.sym(&mut cdf0.single_ref[cx(&[5, 6], &[7])][1])? == 1 { 7 } else { 5 + rd.sym(&mut cdf0.single_ref[cx(&[5], &[6])][5])? as i32 }
            } else if rd.sym(&mut cdf0.single_ref[cx(&[1, 2], &[3, 4])][2])? == 0 { 1 + rd.sym(&mut cdf0.single_ref[cx(&[1], &[2])][3])? as i32 }
            else { 3 + rd.sym(&mut cdf0.single_ref[cx(&[3], &[4])][4])? as i32 };
            [a, -1]
        };
        ensure_eq!(refs, q.refs, "references of the {}", q.at);
        let mode = if q.comp {
            let [nc, _, rc] = q.ctx;
            FIRST_COMP + rd.sym(&mut cdf0.compound_mode[[[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]][rc / 2][nc.min(4)]])?
        } else if rd.sym(&mut cdf0.new_mv[q.ctx[0]])? == 0 { NEW } else if rd.sym(&mut cdf0.zero_mv[q.ctx[1]])? == 0 { GLOBAL } else if rd.sym(&mut cdf0.ref_mv[q.ctx[2]])? == 0 { NEAREST } else { NEAR };
        ensure_eq!(mode, q.mode, "mode of the {}", q.at);
        ensure_eq!(q.y_mode, mode, "recorded mode of the {}", q.at);
        let near = part(mode, 0) == NEAR || (mode >= FIRST_COMP && part(mode, 1) == NEAR);
        let mut idx = near as usize;
        if near || mode == NEW || mode == FIRST_COMP + 7 {
            for k in idx..idx + 2 { if q.n > k + 1 {
                let d = rd.sym(&mut cdf0.drl_mode[q.dctx[k]])?;
                ensure_eq!(d, q.drl[k], "list choice {} of the {}", k, q.at);
                *ev.entry("list index coded".to_string()).or_insert(0) += 1;
                if d == 0 { idx = k; break; }
                idx = k + 1;
            } }
        }
        ensure_eq!(q.idx, idx, "list index of the {}", q.at);
        let at_idx = |i: usize, k: usize| -> Option<V> { q.stack.get(i).map(|e| if k == 0 { e.0 } else { e.1 }) };
        for k in 0..1 + q.comp as usize {
            let p = part(mode, k);
            let pred = match p { GLOBAL => Some(q.globals[k]), NEAREST => at_idx(0, k), NEW if q.n <= 1 => at_idx(0, k), _ => at_idx(idx, k) };
            *ev.entry(format!("{} {} block", ["nearest", "near", "global", "new"][p - 14], if q.comp { "compound" } else { "single" })).or_insert(0) += 1;
            if p == NEW {
                let d = difference(&mut rd, &mut cdf0, 0, s.hp, s.int)?;
                // entries beyond the list are filled by steps the encoder does not have yet
                if let Some(p) = pred { ensure_eq!((p.0 + d.0, p.1 + d.1), q.want[k], "decoded vector {} of the {}", k, q.at); }
            } else if let Some(p) = pred { ensure_eq!(q.mvs[k], p, "vector {} of the {}", k, q.at); }
        }
    }
    run.count_all(&ev);
    for (x, y) in flat(&cdf0).iter().zip(flat(&cdf1).iter()) { ensure!(x.1 == y.1, "distribution {} after the blocks is {:?}, the decoder has {:?}", x.0, y.1, x.1); }
    ensure!(out.len() <= rd.limit(), "{} bits for blocks that need {}", out.len(), rd.limit());
    Ok(Case::new(hash_bytes(&out), true, format!("{} inter blocks, last: {}, {} candidates, vectors {:?}; {} bits", n, steps[n - 1].at, steps[n - 1].n, steps[n - 1].mvs, out.len())))
}

fn main() {
    let mut r = Runner::new("C24", "a case is a tile with random neighbouring mode information, global motion and motion field in which the candidate lists of six blocks are built; or a session of up to 12 vectors coded from a random prediction state; or a session of up to 5 complete inter blocks; all read back or re-derived by a reference written from the draft; non-trivial: a list that is not empty, or a coded difference, or any inter block; distinct: by stream, or by block, position and list");
    for k in ["single candidate", "compound candidate", "motion field candidate", "candidate replaced by the global vector", "full list", "global motion type 0", "global motion type 1", "global motion type 2", "global motion type 3", "block copy from the left by default", "block copy from above by default",
        "vector without a difference", "difference zero of a new vector", "difference in the columns of a new vector", "difference in the rows of a new vector", "difference in both of a new vector", "difference in both of a block copy", "list index coded",
        "nearest single block", "near single block", "global single block", "new single block", "nearest compound block", "near compound block", "global compound block", "new compound block"] { r.require(k); }
    let n = r.n(1500, 200_000);
    r.suite("candidate-lists", n, |rng, _i, run| candidates(rng, run));
    let n = r.n(4000, 400_000);
    r.suite("vector-differences", n, |rng, _i, run| vectors(rng, run));
    let n = r.n(1200, 150_000);
    r.suite("inter-blocks", n, |rng, _i, run| blocks(rng, run));
    r.assume("the outer rows and columns, the samples around a block in the motion field, sorting and the extra search of the draft's list construction are not implemented in the encoder; lists are compared where those steps add nothing before their point in the process, and entries they would add are not judged");
    r.assume("vectors are in the frame's precision; block copy is used with integer vectors only");
    r.finish();
}
