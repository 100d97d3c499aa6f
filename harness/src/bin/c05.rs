//! C05: the initial probability state is exactly the pinned one, well-formed, and every symbol of
//! every distribution can be coded from it.
#[path = "../cdfs.rs"] mod cdfs;
use av1enc::bool_coder::BoolCoder;
use av1enc::cdf::{default_cdf, CDF};
use av1enc::encoder::EncoderContext;
use av1enc::tile_encoder::TileEncoder;
use mon::refcoder::*;
use mon::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

const GOLDEN: &str = include_str!("../../golden/default_cdf.txt");

fn main() {
    let mut r = Runner::new("C05", "one case per distribution of the default state (4648): compared entry by entry with the pinned normative values, checked for shape, and each of its symbols coded and decoded from it by the real coder; plus random histories that use and adapt one coding state and then start another; non-trivial: distribution has at least two symbols; distinct: by name");
    let base: Box<CDF> = Box::new(default_cdf);
    let mut flat: Vec<(String, Vec<i32>)> = vec![];
    cdfs::visit(&base, &mut |f, p, l| flat.push((cdfs::name(f, p), l.to_vec())));
    let golden: Vec<(&str, Vec<i32>)> = GOLDEN.lines().map(|l| { let (a, b) = l.split_once(' ').unwrap(); (a, b.split(',').map(|x| x.parse().unwrap()).collect()) }).collect();
    if flat.len() != golden.len() { r.fail("tables", 0, &format!("{} distributions, {} expected", flat.len(), golden.len())); }
    let (flat, golden) = (&flat, &golden);
    r.suite_exhaustive("tables", flat.len() as u64, |_rng, i, run| {
        let (name, c) = &flat[i as usize];
        let (gname, g) = &golden[i as usize];
        ensure_eq!(name.as_str(), *gname, "distribution {}", i);
        let n = c.len() - 1;
        ensure!(n >= 2, "{} has {} symbols", name, n);
        let mut prev = 0;
        for k in 0..n { ensure!(c[k] > prev, "{} is not strictly increasing: {:?}", name, c); prev = c[k]; }
        ensure!(c[n - 1] == 32768, "{} does not end at 32768: {:?}", name, c);
        ensure!(c[n] == 0, "{} starts with counter {}", name, c[n]);
        ensure_eq!(c, g, "{}", name);
        for s in 0..n {
            let mut e = BoolCoder::new(); e.init_encoder();
            let mut o = vec![]; let mut a = c.clone();
            e.encode_symbol(s as i32, &mut o, &mut a);
            e.exit_encoder(&mut o);
            let mut d = BoolCoder::new();
            let mut q: VecDeque<u8> = o.iter().cloned().collect();
            d.init_decoder(&mut q, (o.len() / 8) as u32);
            let mut b = c.clone();
            ensure_eq!(d.decode_symbol(&mut q, &mut b) as usize, s, "{} symbol {}", name, s);
            let mut m = c.clone(); adapt(&mut m, s);
            ensure!(a == m && b == m, "{} symbol {}: adaptation", name, s);
            run.count("default symbols coded and decoded", 1);
        }
        run.count("entries compared", c.len() as u64);
        Ok(Case::new(hash_of(name), n >= 2, format!("{} = {:?}", name, c)))
    });
    // coding with one state never leaks into the state the next tile starts from
    let n = r.n(120, 2000);
    r.suite("fresh-state", n, |rng, _i, run| {
        let ectx = Rc::new(RefCell::new(EncoderContext::new()));
        let mut coder = BoolCoder::new();
        let k = 1 + rng.usize(3);
        let mut touched = 0u64;
        for _ in 0..k {
            let mut t = Box::new(TileEncoder::new(&ectx, &mut coder));
            let mut idx = 0; let mut bad = None;
            cdfs::visit(&t.cdf, &mut |f, p, l| { if l != &golden[idx].1[..] && bad.is_none() { bad = Some(cdfs::name(f, p)); } idx += 1; });
            if let Some(b) = bad { return Err(format!("a new tile's {} is not the default", b)); }
            let mut e = BoolCoder::new(); e.init_encoder();
            let mut o = vec![];
            let stride = 1 + rng.below(50);
            let mut j = 0u64;
            cdfs::visit_mut(&mut t.cdf, &mut |_f, l| { if j % stride == 0 { let s = rng.usize(l.len() - 1); e.encode_symbol(s as i32, &mut o, l); touched += 1; } j += 1; });
        }
        run.count("adapted distributions before a fresh tile", touched);
        Ok(Case::new(touched ^ hash_of(&k), touched > 0, format!("{} tiles, {} distributions adapted", k, touched)))
    });
    r.require("default symbols coded and decoded");
    r.assume("the pinned values are those of the bitstream draft the project implements, snapshotted from the reviewed tree");
    r.finish();
}
