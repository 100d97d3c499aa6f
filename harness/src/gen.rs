//! Workload generators shared by the entropy-coder monitors.
use crate::refcoder::*;
use crate::rng::Rng;

/// a strictly increasing distribution of n symbols with counter in 0..=32
pub fn random_cdf(r: &mut Rng, n: usize) -> Vec<i32> {
    let mut c: Vec<i32>;
    loop {
        c = match r.below(6) {
            0 => (1..=n).map(|i| (i * 32768 / n) as i32).collect(),
            1 => { // everything on one symbol
                let s = r.usize(n);
                (0..n).map(|i| if i < s { (i + 1) as i32 } else { 32768 - (n - 1 - i) as i32 }).collect()
            }
            2 => { // 32-apart floor, the adaptation's own fixed point shape
                let s = r.usize(n);
                (0..n).map(|i| if i < s { 32 * (i + 1) as i32 } else { 32768 - 32 * (n - 1 - i) as i32 }).collect()
            }
            3 => { // skewed
                let mut v: Vec<i32> = (0..n - 1).map(|_| 1 + (r.below(32766) * r.below(32766) / 32766) as i32).collect();
                v.sort(); v.dedup(); if v.len() != n - 1 { continue; }
                v.push(32768); v
            }
            _ => {
                let mut v: Vec<i32> = (0..n - 1).map(|_| 1 + r.below(32767) as i32).collect();
                v.sort(); v.dedup(); if v.len() != n - 1 { continue; }
                v.push(32768); v
            }
        };
        break;
    }
    let k = match r.below(3) { 0 => 0, 1 => r.below(33) as i32, _ => 30 + r.below(3) as i32 };
    c.push(k);
    c
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Sym { cdf: usize, s: usize }, Bit { p: i32, b: u8 }, Bits { p: i32, v: Vec<u8> }, Lit { v: u64, n: u8 } }

pub struct Plan { pub cdfs: Vec<Vec<i32>>, pub ops: Vec<Op>, pub kind: &'static str }

/// A bit string whose decoding drives the code value along long runs of equal bits, so that the
/// encoder has long carries pending and sometimes resolves them upward.
fn run_bits(r: &mut Rng, len: usize) -> Vec<u8> {
    let mut b = vec![];
    if r.bool() { b.push(0); b.extend(std::iter::repeat(1).take(20 + r.usize(200))); }
    while b.len() < len {
        let bit = (r.u64() & 1) as u8;
        let run = match r.below(4) { 0 => 1 + r.usize(3), 1 => 1 + r.usize(40), 2 => 14 + r.usize(5), _ => 1 + r.usize(200) };
        b.extend(std::iter::repeat(bit).take(run));
    }
    b.truncate(len);
    b
}

pub fn random_plan(r: &mut Rng, max_ops: usize) -> Plan {
    let ncdf = 1 + r.usize(6);
    let cdfs: Vec<Vec<i32>> = (0..ncdf).map(|_| { let n = 2 + r.usize(15); random_cdf(r, n) }).collect();
    let len = match r.below(5) { 0 => r.usize(4), 1 => r.usize(40), _ => r.usize(max_ops + 1) };
    let mut ops = vec![];
    let kind = r.below(7);
    let mut model = cdfs.clone();
    let name;
    if kind <= 1 {
        // decode a crafted code value: the symbols keep the coding interval around it
        name = "carry-crafted";
        let bits = run_bits(r, 15 + 16 * len + 64);
        let mut d = RefDecoder::new(&bits).unwrap();
        for i in 0..len {
            // stop following the target for the last symbols, to resolve the pending carry either way
            if i + 2 >= len && r.bool() { let k = r.usize(ncdf); let s = r.usize(model[k].len() - 1); ops.push(Op::Sym { cdf: k, s }); adapt(&mut model[k], s); continue; }
            if i + 2 >= len { let k = r.usize(ncdf); let s = model[k].len() - 2; ops.push(Op::Sym { cdf: k, s }); adapt(&mut model[k], s); continue; }
            let k = r.usize(ncdf);
            match d.decode(&model[k]) {
                Some(s) => { adapt(&mut model[k], s); ops.push(Op::Sym { cdf: k, s }); }
                None => break,
            }
        }
    } else {
        name = ["", "", "uniform", "least-probable", "first/last", "runs", "mixed-calls"][kind as usize];
        let mut run_s = 0;
        for _ in 0..len {
            let k = r.usize(ncdf);
            let n = model[k].len() - 1;
            if kind == 6 {
                match r.below(5) {
                    0 => { ops.push(Op::Bit { p: 1 + r.below(255) as i32, b: r.below(2) as u8 }); continue; }
                    1 => { let m = match r.below(40) { 0 => { let top = if r.chance(1, 20) { 70_000 } else { 3000 }; r.usize(top) } 1..=8 => r.usize(150), _ => r.usize(20) }; let bias = r.below(9); let v = (0..m).map(|_| (r.below(8) < bias) as u8).collect(); ops.push(Op::Bits { p: 1 + r.below(255) as i32, v }); continue; }
                    2 => { let nb = r.below(65) as u8; let v = r.edgy(u64::MAX); let v = if nb == 64 { v } else { v & ((1u64 << nb) - 1) }; ops.push(Op::Lit { v, n: nb }); continue; }
                    _ => {}
                }
            }
            let s = match kind {
                3 => { let mut best = 0; let mut bw = i32::MAX; for s in 0..n { let w = model[k][s] - if s > 0 { model[k][s - 1] } else { 0 }; if w < bw { bw = w; best = s; } } best }
                4 => if r.bool() { 0 } else { n - 1 },
                5 => { if r.chance(1, 30) { run_s = r.usize(16); } run_s.min(n - 1) }
                _ => r.usize(n),
            };
            adapt(&mut model[k], s);
            ops.push(Op::Sym { cdf: k, s });
        }
    }
    Plan { cdfs, ops, kind: name }
}

/// Symbols that keep a carry pending over about `run` code bits before it is resolved: the code
/// value followed is 0 and `run` ones, so the interval straddles one half all the way.
pub fn long_carry_plan(r: &mut Rng, run: usize) -> Plan {
    let ncdf = 1 + r.usize(3);
    let cdfs: Vec<Vec<i32>> = (0..ncdf).map(|_| { let n = 2 + r.usize(15); random_cdf(r, n) }).collect();
    let mut model = cdfs.clone();
    let lead = if r.bool() { 0 } else { r.usize(40) };
    let mut bits: Vec<u8> = (0..lead).map(|_| r.below(2) as u8).collect();
    bits.push(0);
    bits.extend(std::iter::repeat(1).take(run + 64));
    let mut ops = vec![];
    let mut d = RefDecoder::new(&bits).unwrap();
    while d.consumed() < lead + run {
        if r.chance(1, 3) {
            let k = r.usize(ncdf);
            match d.decode(&model[k]) { Some(s) => { adapt(&mut model[k], s); ops.push(Op::Sym { cdf: k, s }); } None => break }
        } else {
            let p = if r.bool() { 128 } else { 1 + r.below(255) as i32 };
            match d.decode(&p_cdf(p)) { Some(s) => ops.push(Op::Bit { p, b: s as u8 }), None => break }
        }
    }
    let how = r.below(3);
    for _ in 0..r.usize(60) {
        let k = r.usize(ncdf);
        let n = model[k].len() - 1;
        let s = match how { 0 => 0, 1 => n - 1, _ => r.usize(n) };
        adapt(&mut model[k], s);
        ops.push(Op::Sym { cdf: k, s });
    }
    Plan { cdfs, ops, kind: "long-carries" }
}

/// Run the plan on the reference coder: the final distributions, and the encoder.
pub fn ref_encode(p: &Plan) -> (Vec<Vec<i32>>, RefEncoder) {
    let mut c = p.cdfs.clone();
    let mut e = RefEncoder::new();
    for op in &p.ops {
        match op {
            Op::Sym { cdf, s } => { e.encode(*s, &c[*cdf]); adapt(&mut c[*cdf], *s); }
            Op::Bit { p, b } => e.encode(*b as usize, &p_cdf(*p)),
            Op::Bits { p, v } => { let mut t = p_cdf(*p); for b in v { e.encode(*b as usize, &t); adapt(&mut t, *b as usize); } }
            Op::Lit { v, n } => for i in (0..*n).rev() { e.encode(((v >> i) & 1) as usize, &p_cdf(128)); },
        }
    }
    (c, e)
}
/// Decode the plan's shape from `bits` with the reference decoder; None if it cannot.
pub fn ref_decode(p: &Plan, bits: &[u8]) -> Option<(Vec<Op>, usize)> {
    let mut c = p.cdfs.clone();
    let mut d = RefDecoder::new(bits)?;
    let mut out = vec![];
    for op in &p.ops {
        out.push(match op {
            Op::Sym { cdf, .. } => { let s = d.decode(&c[*cdf])?; adapt(&mut c[*cdf], s); Op::Sym { cdf: *cdf, s } }
            Op::Bit { p, .. } => Op::Bit { p: *p, b: d.decode(&p_cdf(*p))? as u8 },
            Op::Bits { p, v } => { let mut t = p_cdf(*p); let mut o = vec![]; for _ in v { let b = d.decode(&t)?; adapt(&mut t, b); o.push(b as u8); } Op::Bits { p: *p, v: o } }
            Op::Lit { n, .. } => { let mut v = 0u64; for _ in 0..*n { v = (v << 1) | d.decode(&p_cdf(128))? as u64; } Op::Lit { v, n: *n } }
        });
    }
    Some((out, d.consumed()))
}
pub fn describe(p: &Plan) -> String {
    let mut s = format!("{}: {} distributions (sizes {:?}), {} operations: ", p.kind, p.cdfs.len(), p.cdfs.iter().map(|c| c.len() - 1).collect::<Vec<_>>(), p.ops.len());
    for o in p.ops.iter().take(12) {
        s += &match o { Op::Sym { cdf, s } => format!("sym{}={} ", cdf, s), Op::Bit { p, b } => format!("bit(p={})={} ", p, b), Op::Bits { p, v } => format!("bits(p={})x{} ", p, v.len()), Op::Lit { v, n } => format!("lit{}={} ", n, v) };
    }
    s
}
