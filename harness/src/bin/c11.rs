//! C11: derived block facts (transform type, set and class, residual size, reference direction
//! and counts, order-hint distance, coefficient context) follow the draft for all arguments.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
use av1enc::bool_coder::BoolCoder;
use av1enc::cdf::{default_cdf, CDF};
use av1enc::common::*;
use mon::*;
use syntax::*;

fn world(rng: &mut Rng, full: bool) -> W {
    let f = random_frame(rng, full);
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let (r, c) = (if rng.chance(1, 5) { 0 } else { rng.usize(rows) }, if rng.chance(1, 5) { 0 } else { rng.usize(cols) });
    W { e: BoolCoder::new(), out: vec![], cdf: Box::new(default_cdf), f, r, c, log: String::new() }
}

fn main() {
    let mut r = Runner::new("C11", "a case is one call of a derivation helper with its full set of arguments (finite domains enumerated, neighbourhoods and coefficient levels generated), compared with an independent derivation; non-trivial: every call; distinct: by arguments");
    let _ = std::mem::size_of::<CDF>();
    r.suite_exhaustive("residual-size", 22 * 3 * 4, |_g, i, run| {
        let (b, plane, ss) = (i as usize % 22, i as usize / 22 % 3, i as usize / 66);
        let (sx, sy) = (ss & 1 == 1, ss & 2 == 2);
        let want = if plane == 0 { b } else { spec::subsampled(b, sx, sy).unwrap_or(22) };
        ensure_eq!(get_plane_residual_size(BS[b], plane, sx, sy) as usize, want, "residual size of block {:?} plane {} subsampling {}{}", spec::BLOCKS[b], plane, sx, sy);
        run.count("residual sizes", 1);
        Ok(Case::new(i, true, format!("{:?} plane {} -> {}", spec::BLOCKS[b], plane, want)))
    });
    r.suite_exhaustive("find-tx-size", 130 * 130, |_g, i, run| {
        let (w, h) = (i as usize % 130, i as usize / 130);
        let want = spec::tx_of(w, h).unwrap_or(19);
        ensure_eq!(find_tx_size(w, h) as usize, want, "find_tx_size({}, {})", w, h);
        if want < 19 { run.count("transform sizes found", 1); }
        Ok(Case::new(i, want < 19, format!("{}x{} -> {}", w, h, want)))
    });
    r.suite_exhaustive("tx-set", 19 * 4, |_g, i, run| {
        let (t, inter, red) = (i as usize % 19, i / 19 & 1 == 1, i / 19 & 2 == 2);
        let want = spec::tx_set(t, inter, red);
        ensure_eq!(get_tx_set(tx(t), inter, red), want, "get_tx_set({:?}, inter {}, reduced {})", spec::TXS[t], inter, red);
        for k in 0..16 {
            let m = spec::tx_set_types(want, inter).contains(&k);
            ensure_eq!(is_tx_type_in_set(want, TT[k], inter), m, "type {} in set {} (inter {})", k, want, inter);
            run.count("set memberships", 1);
        }
        Ok(Case::new(i, true, format!("{:?} inter {} reduced {} -> set {}", spec::TXS[t], inter, red, want)))
    });
    r.suite_exhaustive("tx-class", 16, |_g, i, _run| {
        ensure_eq!(get_tx_class(TT[i as usize]), spec::tx_class(i as usize), "class of transform type {}", i);
        Ok(Case::new(i, true, format!("type {} class {}", i, spec::tx_class(i as usize))))
    });
    r.suite_exhaustive("ref-direction", 9 * 9, |_g, i, run| {
        let (a, b) = (i as i32 % 9 - 1, i as i32 / 9 - 1);
        ensure_eq!(check_backward(rf(a)), spec::backward(a), "check_backward({})", a);
        ensure_eq!(is_samedir_ref_pair(rf(a), rf(b)), spec::samedir(a, b), "is_samedir_ref_pair({}, {})", a, b);
        ensure_eq!(ref_count_ctx(i as usize % 9, i as usize / 9), spec::ref_ctx(i as usize % 9, i as usize / 9), "ref_count_ctx");
        run.count("reference pairs", 1);
        Ok(Case::new(i, true, format!("{} {}", a, b)))
    });
    r.suite_exhaustive("order-hint-distance", 2 * 8 * 256, |_g, i, run| {
        let (en, bits, a) = (i & 1 == 1, (i >> 1 & 7) as u32 + 1, (i >> 4) as i64);
        if a >= 1 << bits { return Ok(Case::new(i, false, "outside".into())); }
        for b in 0..1i64 << bits {
            let want = spec::relative_dist(a, b, en, bits);
            ensure_eq!(get_relative_dist(a as usize, b as usize, en, bits as usize) as i64, want, "get_relative_dist({}, {}, {}, {})", a, b, en, bits);
            run.count("order hint pairs", 1);
        }
        Ok(Case::new(i, true, format!("a {} bits {} enabled {}", a, bits, en)))
    });
    let n = r.n(6000, 200000);
    r.suite("count-refs", n, |rng, _i, run| {
        let mut w = world(rng, false);
        let (a, l) = (w.f.mis.get(w.r.wrapping_sub(1)).and_then(|x| x[w.c]), if w.c > 0 { w.f.mis[w.r][w.c - 1] } else { None });
        for k in -1..8 {
            let want = [a, l].iter().flatten().map(|m| m.ref_frame.iter().filter(|x| **x == rf(k)).count()).sum::<usize>();
            ensure_eq!(count_refs(rf(k), &mut w.f, w.r, w.c), want, "count_refs({}) at ({}, {})", k, w.r, w.c);
        }
        run.count(if a.is_none() && l.is_none() { "neighbourhoods without neighbours" } else { "neighbourhoods with neighbours" }, 1);
        Ok(Case::new(rng.u64(), a.is_some() || l.is_some(), format!("at ({}, {})", w.r, w.c)))
    });
    let n = r.n(12000, 400000);
    r.suite("tx-type-in-force", n, |rng, _i, run| {
        let mut w = world(rng, true);
        let mut key = 0;
        for _ in 0..8 {
            let c = co(rng, &w);
            let got = compute_tx_type(c.plane, tx(c.t), c.x4, c.y4, &mut w.f, c.lossless, c.inter, c.reduced, ym(c.uv), w.r, w.c) as usize;
            ensure_eq!(got, c.ty, "transform type of plane {} {:?} at ({}, {}), block ({}, {}), lossless {} inter {} reduced {} uv_mode {} subsampling {}{}", c.plane, spec::TXS[c.t], c.y4, c.x4, w.r, w.c, c.lossless, c.inter, c.reduced, c.uv, w.f.subsampling_x, w.f.subsampling_y);
            run.count(if got == 0 { "default type in force" } else { "other type in force" }, 1);
            key = key ^ hash_of(&(c.plane, c.t, c.x4, c.y4, c.lossless, c.inter, c.reduced, c.uv, got));
        }
        Ok(Case::new(key, true, format!("8 derivations in a {}x{} frame", w.f.mis[0].len() * 4, w.f.mis.len() * 4)))
    });
    let n = r.n(12000, 300000);
    r.suite("coefficient-context", n, |rng, _i, run| {
        let mut w = world(rng, true);
        let c = co(rng, &w);
        let (aw, ah) = spec::TXS[spec::tx_adjusted(c.t)]; let nn = aw * ah;
        let q = levels(rng, nn, true);
        let mut key = hash_of(&(c.t, c.class, &q));
        for k in 0..32 {
            let pos = if k < 9 { (k / 3) * aw + k % 3 } else if k < 12 { nn - 1 - (k - 9) } else { rng.usize(nn) };
            let want = ref_coeff_base_ctx(c.t, c.class, pos, &q);
            let got = get_coeff_base_ctx(tx(c.t), c.plane, c.x4, c.y4, pos, rng.usize(nn), false, &mut w.f, c.lossless, c.inter, c.reduced, ym(c.uv), w.r, w.c, &q);
            ensure_eq!(got, want, "coefficient context of {:?} class {} at position {}", spec::TXS[c.t], c.class, pos);
            ensure!(got < 42, "context {} out of range", got);
            let e = rng.usize(nn);
            let want = 38 + if e == 0 { 0 } else if e <= nn / 8 { 1 } else if e <= nn / 4 { 2 } else { 3 };
            let got = get_coeff_base_ctx(tx(c.t), c.plane, c.x4, c.y4, pos, e, true, &mut w.f, c.lossless, c.inter, c.reduced, ym(c.uv), w.r, w.c, &q);
            ensure_eq!(got, want, "last-coefficient context of {:?} at scan index {}", spec::TXS[c.t], e);
            key = hash_of(&(key, pos));
        }
        run.count("coefficient contexts", 64);
        run.count(["two-dimensional class", "horizontal class", "vertical class"][c.class], 1);
        Ok(Case::new(key, true, format!("{:?} class {} plane {}", spec::TXS[c.t], c.class, c.plane)))
    });
    for k in ["other type in force", "two-dimensional class", "horizontal class", "vertical class", "neighbourhoods with neighbours", "order hint pairs"] { r.require(k); }
    r.finish();
}
