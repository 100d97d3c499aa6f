//! C21: frame geometry and the data model's copies.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
use av1enc::block::{PartitionTree, Superblock};
use av1enc::common::MotionVector;
use av1enc::constants::*;
use av1enc::frame::{FilmGrainParams, Frame};
use mon::*;
use syntax::*;

fn geometry(w: usize, h: usize, run: &Runner) -> Result<Frame, String> {
    let f = Frame::new(FrameType::KEY_FRAME, w, h);
    let (cw, ch) = ((w + 1) / 2, (h + 1) / 2);
    // 8x8 luma units, two 4x4 mode-info units each
    let (mr, mc) = (2 * ((h + 7) / 8), 2 * ((w + 7) / 8));
    ensure_eq!((f.frame_width, f.frame_height, f.render_width, f.render_height), (w, h, w, h), "dimensions");
    ensure_eq!((f.original_y.len(), f.original_u.len(), f.original_v.len()), (w * h, cw * ch, cw * ch), "plane sizes of {}x{}", w, h);
    ensure_eq!((f.mi_rows(), f.mi_cols()), (mr, mc), "mode-info rows and columns of {}x{}", w, h);
    ensure_eq!(f.mis.len(), mr, "rows of mode info of {}x{}", w, h);
    ensure!(f.mis.iter().all(|r| r.len() == mc), "columns of mode info of {}x{}", w, h);
    ensure!(f.mis.iter().all(|r| r.iter().all(|m| m.is_none())), "a new frame has mode info");
    ensure!(f.original_y.iter().chain(&f.original_u).chain(&f.original_v).all(|x| *x == 0), "a new frame is not black");
    ensure!(4 * mc >= w && 4 * mr >= h, "mode info does not cover {}x{}", w, h);
    ensure_eq!((f.num_tiles(), f.tile_cols(), f.tile_rows(), f.tile_cols_log2(), f.tile_rows_log2()), (1, 1, 1, 0, 0), "tiles of a new frame");
    ensure!(f.subsampling_x && f.subsampling_y, "a new frame is not 4:2:0");
    run.count("frames measured", 1);
    Ok(f)
}

/// the tree of a partition as plain data; `seen` numbers the nodes
type Node = (Vec<i64>, usize);
fn flatten(t: &PartitionTree, out: &mut Vec<Node>) {
    let mut v: Vec<i64> = vec![t.part_type as i64, t.bsize as i64, t.segment_id as i64, t.skip as i64, t.cdef_idx as i64, t.q_index as i64, t.is_inter as i64, t.ref_frame[0] as i64, t.ref_frame[1] as i64,
        t.comp_mode as i64, t.comp_ref_type as i64, t.compound_mode as i64, t.new_mv as i64, t.zero_mv as i64, t.ref_mv as i64, t.use_intrabc as i64];
    v.extend(t.delta_lf.iter().map(|x| *x as i64));
    v.extend(t.drl_mode.iter().map(|x| *x as i64));
    for m in &t.mvs { v.push(m.x as i64); v.push(m.y as i64); }
    out.push((v, t.partitions.len()));
    for p in &t.partitions { flatten(p, out); }
}
fn random_tree(r: &mut Rng, depth: usize) -> PartitionTree {
    let mut t = PartitionTree::new(BS[r.usize(22)]);
    scramble(r, &mut t);
    if depth > 0 { for _ in 0..r.usize(5) { t.partitions.push(random_tree(r, depth - 1)); } }
    t
}
fn scramble(r: &mut Rng, t: &mut PartitionTree) {
    t.part_type = PT[r.usize(10)]; t.bsize = BS[r.usize(22)]; t.segment_id = r.usize(8); t.skip = r.bool(); t.cdef_idx = r.range(-1, 7) as isize; t.q_index = r.usize(256);
    for x in t.delta_lf.iter_mut() { *x = r.range(-63, 63) as isize; }
    t.is_inter = r.bool(); t.ref_frame = [rf(r.range(0, 7) as i32), rf(r.range(-1, 7) as i32)];
    t.comp_mode = if r.bool() { CompMode::SINGLE_REFERENCE } else { CompMode::COMPOUND_REFERENCE };
    t.comp_ref_type = if r.bool() { CompRefType::UNIDIR_COMP_REFERENCE } else { CompRefType::BIDIR_COMP_REFERENCE };
    t.compound_mode = ym(r.usize(25)); t.new_mv = r.bool(); t.zero_mv = r.bool(); t.ref_mv = r.bool(); t.use_intrabc = r.bool();
    for x in t.drl_mode.iter_mut() { *x = r.usize(3); }
    t.mvs = [MotionVector::new(r.range(-9999, 9999) as isize, r.range(-9999, 9999) as isize), MotionVector::new(r.range(-9999, 9999) as isize, r.range(-9999, 9999) as isize)];
}
fn nodes(t: &mut PartitionTree, out: &mut Vec<*mut PartitionTree>) { out.push(t); for p in t.partitions.iter_mut() { nodes(p, out); } }

fn grain_of(g: &FilmGrainParams) -> (Vec<u64>, Vec<Vec<i64>>) {
    let b = |x: bool| x as u64;
    (vec![b(g.apply_grain), g.grain_seed as u64, b(g.update_grain), g.film_grain_params_ref_idx as u64, g.num_y_points as u64, b(g.chroma_scaling_from_luma), g.num_cb_points as u64, g.num_cr_points as u64,
        g.grain_scaling as u64, g.ar_coeff_lag as u64, g.ar_coeff_shift as u64, g.grain_scale_shift as u64, g.cb_mult as u64, g.cb_luma_mult as u64, g.cb_offset as u64, g.cr_mult as u64, g.cr_luma_mult as u64,
        g.cr_offset as u64, b(g.overlap_flag), b(g.clip_to_restricted_range)],
     vec![l(&g.point_y_value), l(&g.point_y_scaling), l(&g.point_cb_value), l(&g.point_cb_scaling), l(&g.point_cr_value), l(&g.point_cr_scaling), l(&g.ar_coeffs_y), l(&g.ar_coeffs_cb), l(&g.ar_coeffs_cr)])
}
fn l<T: Copy + Into<i64>>(v: &[T]) -> Vec<i64> { v.iter().map(|x| (*x).into()).collect() }
fn random_grain(r: &mut Rng) -> FilmGrainParams {
    let mut g = FilmGrainParams::new();
    g.apply_grain = r.bool(); g.grain_seed = r.u64() as u16; g.update_grain = r.bool(); g.film_grain_params_ref_idx = r.usize(8); g.num_y_points = r.usize(15); g.chroma_scaling_from_luma = r.bool();
    g.num_cb_points = r.usize(11); g.num_cr_points = r.usize(11); g.grain_scaling = 8 + r.usize(4); g.ar_coeff_lag = r.usize(4); g.ar_coeff_shift = 6 + r.usize(4); g.grain_scale_shift = r.usize(4);
    g.cb_mult = r.usize(256); g.cb_luma_mult = r.usize(256); g.cb_offset = r.usize(512); g.cr_mult = r.usize(256); g.cr_luma_mult = r.usize(256); g.cr_offset = r.usize(512);
    g.overlap_flag = r.bool(); g.clip_to_restricted_range = r.bool();
    fn v8(r: &mut Rng) -> Vec<u8> { let n = r.usize(15); r.bytes(n) }
    fn v16(r: &mut Rng) -> Vec<i16> { (0..r.usize(26)).map(|_| r.range(-128, 127) as i16).collect() }
    g.point_y_value = v8(r); g.point_y_scaling = v8(r); g.point_cb_value = v8(r); g.point_cb_scaling = v8(r); g.point_cr_value = v8(r); g.point_cr_scaling = v8(r);
    g.ar_coeffs_y = v16(r); g.ar_coeffs_cb = v16(r); g.ar_coeffs_cr = v16(r);
    g
}

fn main() {
    let mut r = Runner::new("C21", "a case is one frame size, one frame with random mode information read at every position, one set of tile boundaries, or one partition tree or film-grain parameter set that is copied, compared field by field and then changed on one side; non-trivial: every case; distinct: by size or contents");
    r.suite_exhaustive("small-sizes", 130 * 130, |_g, i, run| {
        let (w, h) = (1 + (i % 130) as usize, 1 + (i / 130) as usize);
        geometry(w, h, run)?;
        Ok(Case::new(i, true, format!("{}x{}", w, h)))
    });
    // large in one dimension at a time, so that no case needs a huge allocation
    let n = r.n(600, 8191);
    r.suite("long-sizes", n, |g, i, run| {
        let (a, b) = (if n == 8191 { 1 + i as usize } else { 1 + g.edgy(8190) as usize }, 1 + g.usize(24));
        if i % 2 == 0 { geometry(a, b, run)?; } else { geometry(b, a, run)?; }
        Ok(Case::new(hash_of(&(a, b, i % 2)), true, format!("{} by {}", a, b)))
    });
    r.suite("largest", 2, |_g, i, run| { geometry(8191 - i as usize, 8191 - 3 * i as usize, run)?; Ok(Case::new(i, true, "8191".into())) });
    let n = r.n(1500, 40000);
    r.suite("neighbours", n, |g, _i, run| {
        let (w, h) = (1 + g.usize(100), 1 + g.usize(100));
        let mut f = Frame::new(FrameType::INTER_FRAME, w, h);
        let (rows, cols) = (f.mi_rows(), f.mi_cols());
        let grid: Vec<Vec<Option<ModeInfo>>> = (0..rows).map(|_| (0..cols).map(|_| if g.chance(1, 4) { None } else { Some(random_mi(g)) }).collect()).collect();
        f.mis = grid.clone();
        for y in 0..rows { for x in 0..cols {
            ensure!(f.get_mi(y, x) == grid[y][x], "mode info at row {} column {} of {}x{}", y, x, rows, cols);
            ensure!(f.get_above_mi(y, x) == if y == 0 { None } else { grid[y - 1][x] }, "above neighbour of row {} column {} of {}x{}", y, x, rows, cols);
            ensure!(f.get_left_mi(y, x) == if x == 0 { None } else { grid[y][x - 1] }, "left neighbour of row {} column {} of {}x{}", y, x, rows, cols);
        } }
        ensure!(f.mis == grid, "looking up neighbours changed the mode info");
        run.count("positions looked up", (rows * cols) as u64);
        Ok(Case::new(hash_of(&(w, h, g.u64())), true, format!("{}x{} mode-info units", rows, cols)))
    });
    r.suite_exhaustive("tile-counts", 64 * 64, |g, i, run| {
        let (c, t) = (1 + (i % 64) as usize, 1 + (i / 64) as usize);
        let mut f = Frame::new(FrameType::KEY_FRAME, 8, 8);
        f.tile_col_starts = (0..c).map(|k| k * 16 + g.usize(4)).collect();
        f.tile_row_starts = (0..t).map(|k| k * 16 + g.usize(4)).collect();
        ensure_eq!((f.tile_cols(), f.tile_rows(), f.num_tiles()), (c, t, c * t), "tile counts");
        for (n, k, what) in [(c, f.tile_cols_log2(), "columns"), (t, f.tile_rows_log2(), "rows")] {
            ensure!((1usize << k) >= n && (k == 0 || (1usize << (k - 1)) < n), "{} tile {} are said to need {} bits", n, what, k);
        }
        run.count("tile grids", 1);
        Ok(Case::new(i, true, format!("{}x{} tiles", c, t)))
    });
    let n = r.n(4000, 120000);
    r.suite("partition-trees", n, |g, i, run| {
        let d = g.usize(4);
        let mut t = random_tree(g, d);
        let mut a = vec![]; flatten(&t, &mut a);
        let mut c = t.clone();
        let mut b = vec![]; flatten(&c, &mut b);
        ensure!(a == b, "a copied partition tree differs: {:?} and {:?}", a.iter().zip(&b).find(|(x, y)| x != y), (a.len(), b.len()));
        // change every node of one side; the other must not follow
        let side = i % 2 == 0;
        { let m = if side { &mut t } else { &mut c }; let mut ns = vec![]; nodes(m, &mut ns);
          for p in ns { let t = unsafe { &mut *p }; t.q_index += 1000; t.segment_id += 100; t.mvs[1].x += 20000; t.delta_lf[3] += 1000; t.drl_mode[7] += 9; t.part_type = if t.part_type == PT[0] { PT[1] } else { PT[0] }; } 
          m.partitions.pop(); }
        let mut x = vec![]; flatten(if side { &c } else { &t }, &mut x);
        ensure!(x == a, "changing one partition tree changed its copy");
        run.count("tree nodes compared", a.len() as u64);
        Ok(Case::new(hash_of(&a), true, format!("{} nodes", a.len())))
    });
    r.suite("film-grain", n, |g, i, run| {
        let mut p = random_grain(g);
        let a = grain_of(&p);
        let mut c = p.clone();
        ensure_eq!(grain_of(&c), a, "copied film grain parameters");
        { let m = if i % 2 == 0 { &mut p } else { &mut c };
          m.grain_seed ^= 1; m.cb_mult += 1; m.num_y_points += 1; m.point_y_value.push(1); m.ar_coeffs_cr.push(1); m.point_cr_scaling.clear(); m.point_cr_scaling.push(7); m.overlap_flag = !m.overlap_flag; }
        ensure_eq!(grain_of(if i % 2 == 0 { &c } else { &p }), a, "film grain parameters after changing their copy");
        run.count("film grain copies", 1);
        Ok(Case::new(hash_of(&a), true, format!("{:?}", a.0)))
    });
    r.suite_exhaustive("new-blocks", 22, |g, i, run| {
        let b = BS[i as usize];
        let (x, y) = (g.usize(1000), g.usize(1000));
        let s = Superblock::new(b, x, y);
        ensure!(s.mi_size == b && s.part_tree.bsize == b && (s.x, s.y) == (x, y), "new superblock");
        let t = PartitionTree::new(b);
        ensure!(t.bsize == b && t.partitions.is_empty() && t.part_type == Partition::PARTITION_NONE, "new partition tree");
        run.count("new blocks", 1);
        Ok(Case::new(i, true, format!("block size {}", i)))
    });
    for k in ["frames measured", "positions looked up", "tile grids", "tree nodes compared", "film grain copies", "new blocks"] { r.require(k); }
    r.finish();
}
