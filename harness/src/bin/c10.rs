//! C10: filter, mask, quantizer and lookup tables are the normative ones.
use av1enc::constants as c;
use av1enc::quantizer::verif as q;
use mon::*;

const GOLDEN: &str = include_str!("../../golden/tables.txt");

fn tables() -> Vec<(String, Vec<i64>)> {
    let mut v: Vec<(String, Vec<i64>)> = c::verif::private_tables().into_iter().map(|(n, t)| (n.to_string(), t)).collect();
    let u = |x: Vec<usize>| x.into_iter().map(|x| x as i64).collect::<Vec<i64>>();
    v.push(("sgr_params".into(), c::sgr_params.iter().flatten().map(|x| *x as i64).collect()));
    v.push(("qm_offset".into(), u(q::qm_offsets())));
    for d in 0..3 { v.push((format!("dc_q_{}", 8 + 2 * d), u(q::dc_q(d)))); v.push((format!("ac_q_{}", 8 + 2 * d), u(q::ac_q(d)))); }
    for l in 0..16 { for p in 0..2 { v.push((format!("qm_{}_{}", l, p), u(q::qm(l, p)))); } }
    v
}

/// relations the tables satisfy by construction, whatever their values
fn structure(n: &str, t: &[i64], all: &[(String, Vec<i64>)]) -> Result<u64, String> {
    let mut k = 0;
    let get = |m: &str| -> Vec<i64> { all.iter().find(|x| x.0 == m).map(|x| x.1.clone()).unwrap_or_default() };
    match n {
        "subpel_filters" | "warped_filters" | "upscale_filter" => for (i, f) in t.chunks(8).enumerate() { k += 1; ensure_eq!(f.iter().sum::<i64>(), 128, "{} kernel {} {:?}: sum", n, i, f); },
        _ => {}
    }
    match n {
        "subpel_filters" => for f in 0..6 { for i in 1..16 { for j in 0..8 { k += 1; ensure_eq!(t[f * 128 + i * 8 + j], t[f * 128 + (16 - i) * 8 + 7 - j], "{} {} phase {} is not the mirror of phase {}", n, f, i, 16 - i); } } },
        "upscale_filter" => for i in 1..64 { for j in 0..8 { k += 1; ensure_eq!(t[i * 8 + j], t[(64 - i) * 8 + 7 - j], "{} phase {}", n, i); } },
        "div_lut" => for i in 0..257 { k += 1; ensure_eq!(t[i], ((1i64 << 22) + (256 + i as i64) / 2) / (256 + i as i64), "{}[{}]", n, i); },
        "cos128_lookup" => for i in 0..65 { k += 1; ensure_eq!(t[i], (4096.0 * (std::f64::consts::PI * i as f64 / 128.0).cos()).round() as i64, "{}[{}]", n, i); },
        _ => {}
    }
    if n.starts_with("obmc_mask") { for w in t.windows(2) { k += 1; ensure!(w[0] <= w[1], "{} decreases", n); } }
    if n.starts_with("wedge_master") { for w in t.windows(2) { k += 1; ensure!(w[0] <= w[1], "{} decreases", n); } }
    if n == "wedge_master_vertical" { for i in 0..64 { k += 1; ensure_eq!(t[i] + t[63 - i], 64, "{}[{}]", n, i); } }
    if n == "wedge_master_oblique_odd" { let e = get("wedge_master_oblique_even"); for i in 0..64 { k += 1; ensure_eq!(t[i] + e[63 - i], 64, "{}[{}]", n, i); } }
    if n == "ii_weights_1d" { for w in t.windows(2) { k += 1; ensure!(w[0] >= w[1], "{} increases", n); } }
    if n.starts_with("dc_q") || n.starts_with("ac_q") { for w in t.windows(2) { k += 1; ensure!(w[0] <= w[1], "{} decreases: {} {}", n, w[0], w[1]); } }
    if n.starts_with("qm_") && n != "qm_offset" {
        let last = n.starts_with("qm_15");
        for (i, x) in t.iter().enumerate() { k += 1; ensure!((last || *x >= 24) && *x <= 255, "{}[{}] = {}", n, i, x); }
    }
    if n.starts_with("qm_") && n != "qm_offset" {
        // a matrix and the one of the transposed transform are transposes of each other
        const SZ: [(usize, usize); 14] = [(4, 4), (8, 8), (16, 16), (32, 32), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32), (32, 16), (4, 16), (16, 4), (8, 32), (32, 8)];
        let off = |s: (usize, usize)| SZ.iter().take_while(|x| **x != s).map(|x| x.0 * x.1).sum::<usize>();
        for (w, h) in SZ { let (a, b) = (off((w, h)), off((h, w))); for y in 0..h { for x in 0..w { k += 1; ensure_eq!(t[a + y * w + x], t[b + x * h + y], "{} {}x{} at {},{} is not transposed", n, w, h, y, x); } } }
    }
    if n == "qm_offset" {
        let mut acc = 0; let mut want = vec![0i64; 19];
        for s in [0usize, 1, 2, 3, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16] { want[s] = acc; acc += (spec::TXS[s].0 * spec::TXS[s].1) as i64; }
        for s in 0..19 { k += 1; ensure_eq!(t[s], want[spec::tx_adjusted(s)], "{} of {:?}", n, spec::TXS[s]); }
    }
    Ok(k)
}

fn main() {
    let all = tables();
    if std::env::var("VERIF_DUMP").is_ok() { for (n, t) in &all { println!("{} {}", n, t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); } return; }
    let mut r = Runner::new("C10", "one case per table (all on every run): every entry compared with the pinned normative value, and the relations the table satisfies by construction (filter kernels sum to 128, mirrored phases, closed forms of the division and cosine tables, monotone quantizers and masks, complementary wedges); non-trivial: every case; distinct: by table");
    let golden: Vec<(&str, Vec<i64>)> = GOLDEN.lines().map(|l| { let (a, b) = l.split_once(' ').unwrap(); (a, b.split(',').map(|x| x.parse().unwrap()).collect()) }).collect();
    let (all, golden) = (&all, &golden);
    r.suite_exhaustive("tables", golden.len() as u64, |_g, i, run| {
        let (gn, g) = &golden[i as usize];
        let (n, t) = match all.iter().find(|x| x.0 == *gn) { Some(x) => x, None => return Err(format!("table {} is missing", gn)) };
        ensure_eq!(t.len(), g.len(), "length of {}", n);
        for k in 0..t.len() { ensure_eq!(t[k], g[k], "{}[{}]", n, k); }
        run.count("entries compared", t.len() as u64);
        let k = structure(n, t, all)?;
        run.count("structural relations checked", k);
        Ok(Case::new(hash_of(n), true, format!("{}: {} entries, {} relations", n, t.len(), k)))
    });
    r.require("entries compared"); r.require("structural relations checked");
    r.assume("pinned values are those of the draft, snapshotted from the reviewed tree");
    r.finish();
}
