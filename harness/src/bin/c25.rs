//! C25: a tile is coded superblock by superblock, and each superblock's partition and blocks
//! are those a decoder reads.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
#[path = "../blockinfo.rs"] mod blockinfo;
#[path = "../tilesyntax.rs"] mod tilesyntax;
use av1enc::block::{PartitionTree, Superblock};
use av1enc::bool_coder::BoolCoder;
use av1enc::tile_encoder::{verif, TileEncoder};
use blockinfo::*;
use mon::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use syntax::*;
use tilesyntax::*;

fn superblock(r: &mut Rng, run: &Runner) -> CaseResult {
    let (mut w, mut ecx) = world(r);
    ecx.read_deltas = false;
    ecx.disable_cdf_update = false;
    let ectx = Rc::new(RefCell::new(ecx));
    let n = if w.use128 { 32 } else { 16 };
    let mut coder = BoolCoder::new();
    let mut out = vec![];
    coder.init_encoder();
    let mut cdf0 = start_cdf(r);
    // a few superblocks of the tile, in any order, often at its edges
    let list: Vec<(usize, usize)> = (0..1 + r.usize(3)).map(|_| place(r, size(n, n), w.r0, w.r1, w.c0, w.c1)).collect();
    let mut done: Vec<(Superblock, Vec<verif::Event>, Vec<Vec<isize>>)> = vec![];
    let cdf1;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = (*cdf0).clone();
        te.mi_row_start = w.r0; te.mi_row_end = w.r1; te.mi_col_start = w.c0; te.mi_col_end = w.c1;
        for (y, x) in &list {
            for i in (0..n).step_by(16) { for j in (0..n).step_by(16) { w.f.cdef_idx[y + i][x + j] = -1; } }
            let mut sb = Superblock::new(BS[size(n, n)], x * 4, y * 4);
            verif::start();
            te.encode_superblock(&mut sb, &mut w.f, &mut out);
            done.push((sb, verif::take(), w.f.cdef_idx.clone()));
        }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);
    let mut ev = BTreeMap::new();
    let mut rd = Rd::new(&out)?;
    for ((y, x), (sb, trace, grid)) in list.iter().zip(&done) {
        let at = format!("superblock at ({}, {}) of a tile of rows {}..{} and columns {}..{} of a picture of {}x{} units", y, x, w.r0, w.r1, w.c0, w.c1, w.rows, w.cols);
        for i in (0..n).step_by(16) { for j in (0..n).step_by(16) { w.grid[y + i][x + j] = -1; } }
        let mut map = vec![vec![0u8; w.cols]; w.rows];
        let root = w.partition(&mut rd, &mut cdf0, *y, *x, n, &mut map, &mut ev)?;
        for i in 0..w.rows { for j in 0..w.cols {
            let inside = i >= *y && i < y + n && j >= *x && j < x + n;
            ensure_eq!(map[i][j], inside as u8, "blocks at unit ({}, {}) of the {}", i, j, at);
        } }
        w.tree(&sb.part_tree, &root, &at)?;
        ensure!(*grid == w.grid, "CDEF indices after the {}", at);
        let mut i = 0;
        w.trace(trace, &mut i, *y, *x, n, &mut ev)?;
        ensure_eq!(i, trace.len(), "blocks coded besides those of the partitions of the {}", at);
        *ev.entry("superblocks".into()).or_insert(0) += 1;
    }
    run.count_all(&ev);
    ensure!(out.len() <= rd.limit(), "{} bits for superblocks that need {}", out.len(), rd.limit());
    for (a, b) in flat(&cdf0).iter().zip(flat(&cdf1)) { ensure_eq!(b.1, a.1, "distribution {} after the superblocks", a.0); }
    Ok(Case::new(hash_bytes(&out) ^ hash_of(&(w.rows, w.cols, &list)), true, format!("superblocks of {} units at {:?} in a picture of {}x{} units: {} bits", n, list, w.rows, w.cols, out.len())))
}

/// single partitions of every size, at the edges of the picture and inside
fn partitions(r: &mut Rng, run: &Runner) -> CaseResult {
    let (mut w, mut ecx) = world(r);
    ecx.read_deltas = false;
    ecx.disable_cdf_update = false;
    let ectx = Rc::new(RefCell::new(ecx));
    let sbn = if w.use128 { 32 } else { 16 };
    let mut coder = BoolCoder::new();
    let mut out = vec![];
    coder.init_encoder();
    let mut cdf0 = start_cdf(r);
    let list: Vec<(usize, usize, usize)> = (0..1 + r.usize(6)).map(|_| { let n = r.pick(&[1usize, 2, 4, 8, 16]); let (y, x) = place(r, size(n, n), w.r0, w.r1, w.c0, w.c1); (y, x, n) }).collect();
    let mut done: Vec<(PartitionTree, Vec<verif::Event>, Vec<Vec<isize>>)> = vec![];
    let cdf1;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = (*cdf0).clone();
        te.mi_row_start = w.r0; te.mi_row_end = w.r1; te.mi_col_start = w.c0; te.mi_col_end = w.c1;
        for (y, x, n) in &list {
            let mut sb = Superblock::new(BS[size(sbn, sbn)], x / sbn * sbn * 4, y / sbn * sbn * 4);
            let mut t = PartitionTree::new(BS[size(*n, *n)]);
            verif::start();
            te.encode_partition(&mut sb, *y, *x, &mut w.f, &mut out, &mut t);
            done.push((t, verif::take(), w.f.cdef_idx.clone()));
        }
        cdf1 = Box::new(te.cdf.clone());
    }
    coder.exit_encoder(&mut out);
    let mut ev = BTreeMap::new();
    let mut rd = Rd::new(&out)?;
    for ((y, x, n), (tree, trace, grid)) in list.iter().zip(&done) {
        let at = format!("{}x{} partition at ({}, {}) of a tile of rows {}..{} and columns {}..{} of a picture of {}x{} units", n * 4, n * 4, y, x, w.r0, w.r1, w.c0, w.c1, w.rows, w.cols);
        let mut map = vec![vec![0u8; w.cols]; w.rows];
        let root = w.partition(&mut rd, &mut cdf0, *y, *x, *n, &mut map, &mut ev)?;
        for i in 0..w.rows { for j in 0..w.cols {
            let inside = i >= *y && i < y + n && j >= *x && j < x + n;
            ensure_eq!(map[i][j], inside as u8, "blocks at unit ({}, {}) of the {}", i, j, at);
        } }
        w.tree(tree, &root, &at)?;
        ensure!(*grid == w.grid, "CDEF indices after the {}", at);
        let mut i = 0;
        w.trace(trace, &mut i, *y, *x, *n, &mut ev)?;
        ensure_eq!(i, trace.len(), "blocks coded besides those of the partitions of the {}", at);
        *ev.entry("single partitions".into()).or_insert(0) += 1;
    }
    run.count_all(&ev);
    ensure!(out.len() <= rd.limit(), "{} bits for partitions that need {}", out.len(), rd.limit());
    for (a, b) in flat(&cdf0).iter().zip(flat(&cdf1)) { ensure_eq!(b.1, a.1, "distribution {} after the partitions", a.0); }
    Ok(Case::new(hash_bytes(&out) ^ hash_of(&(w.rows, w.cols, &list)), true, format!("partitions (row, column, units) {:?} in a picture of {}x{} units: {} bits", list, w.rows, w.cols, out.len())))
}

fn tiles(r: &mut Rng, run: &Runner) -> CaseResult {
    let (mut w, mut ecx) = world(r);
    let k = cuts(r, &mut w, &mut ecx);
    let nt = k.count();
    let ectx = Rc::new(RefCell::new(ecx));
    let mut ev = BTreeMap::new();
    let (mut h, mut bits) = (0, 0);
    let mut order: Vec<usize> = (0..nt).collect();
    for i in (1..nt).rev() { let j = r.usize(i + 1); order.swap(i, j); }
    // one coder for all tiles: each starts and ends its own session
    let mut coder = BoolCoder::new();
    for t in order.iter().take(4) {
        {
            let mut e = ectx.borrow_mut();
            e.tile_num = *t;
            e.read_deltas = r.bool();
            // left over from anything coded before
            for p in 0..3 { for q in 0..2 { e.ref_sgr_xqd[p][q] = r.range(-30, 30) as isize; for i in 0..3 { e.ref_lr_wiener[p][q][i] = r.range(-5, 10) as isize; } } }
            e.current_q_index = r.usize(256);
            for i in 0..4 { e.delta_lf[i] = r.range(-60, 60) as isize; }
            e.tg_start = r.usize(nt); e.tg_end = r.usize(nt);
            coder.disable_cdf_update = r.bool();
        }
        let mut out = vec![];
        let cdf0 = start_cdf(r);
        let cdf1;
        {
            let mut te = TileEncoder::new(&ectx, &mut coder);
            te.cdf = (*cdf0).clone();
            verif::start();
            te.encode_tile(&mut w.f, *t, &mut out);
            cdf1 = Box::new(te.cdf.clone());
        }
        let trace = verif::take();
        let mut i = 0;
        let cdf0 = read_tile(&mut w, &k, *t, &out, cdf0, Some((&trace, &mut i)), &mut ev)?;
        ensure_eq!(i, trace.len(), "blocks coded besides those of tile {}", t);
        ensure!(w.f.cdef_idx == w.grid, "CDEF indices after tile {} (rows {:?}, columns {:?})", t, k.rs, k.cs);
        for (a, b) in flat(&cdf0).iter().zip(flat(&cdf1)) { ensure_eq!(b.1, a.1, "distribution {} after tile {}", a.0, t); }
        h ^= hash_bytes(&out);
        bits += out.len();
    }
    run.count_all(&ev);
    Ok(Case::new(h ^ hash_of(&(&k.rs, &k.cs)), true, format!("{} tiles (rows {:?}, columns {:?}): {} bits", nt, k.rs, k.cs, bits)))
}

fn main() {
    let mut r = Runner::new("C25", "a case is a few superblocks of a tile, a few partitions of any size in it, or up to four whole tiles of a picture (random picture size, tile cuts, superblock size, neighbourhood, segmentation, CDEF and restoration settings) coded by the real tile encoder with a trace of every partition tried and every block coded; the stream is read back by an independent parser of the draft's tile syntax and the trace checked against the draft's partitions; distinct: by stream and geometry");
    for k in ["superblocks", "superblocks of tiles", "tiles", "restoration units", "CDEF index", "deltas", "tiles with fixed probabilities", "blocks observed", "coded NONE", "coded HORZ", "coded VERT", "coded SPLIT"] { r.require(k); }
    for n in NAMES { r.require(&format!("tried {}", n)); }
    let n = r.n(400, 20_000);
    r.suite("superblocks", n, |rng, _i, run| superblock(rng, run));
    let n = r.n(600, 40_000);
    r.suite("partitions", n, |rng, _i, run| partitions(rng, run));
    for n in [8, 16, 32, 64] { for k in 0..4 { r.require(&format!("partition of {}x{} with context {}", n, n, k)); } }
    let n = r.n(120, 6_000);
    r.suite("tiles", n, |rng, _i, run| tiles(rng, run));
    r.assume("blocks carry default settings (the encoder's partition search does not choose any yet, so the quantizer index of every block is 0 before clipping); the mode information of neighbours is what the frame records");
    r.finish();
}
