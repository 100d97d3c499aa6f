//! C01: the entropy coder is lossless and its output is a valid, near-ideal range code.
use av1enc::bool_coder::BoolCoder;
use mon::gen::*;
use mon::*;
use std::collections::VecDeque;

fn encode(p: &Plan) -> (Vec<u8>, Vec<Vec<i32>>) {
    let mut e = BoolCoder::new();
    let mut c = p.cdfs.clone();
    let mut out = vec![];
    e.init_encoder();
    for op in &p.ops {
        match op {
            Op::Sym { cdf, s } => e.encode_symbol(*s as i32, &mut out, &mut c[*cdf]),
            Op::Bit { p, b } => e.encode_symbolp(*b, &mut out, *p),
            Op::Bits { p, v } => e.encode_symbols(v, &mut out, *p),
            Op::Lit { v, n } => e.encode_literal(&mut out, *v, *n),
        }
    }
    e.exit_encoder(&mut out);
    (out, c)
}
fn decode(p: &Plan, bits: &[u8], sz: u32) -> (Vec<Op>, Vec<Vec<i32>>) {
    let mut d = BoolCoder::new();
    let mut c = p.cdfs.clone();
    let mut q: VecDeque<u8> = bits.iter().cloned().collect();
    d.init_decoder(&mut q, sz);
    let mut out = vec![];
    for op in &p.ops {
        out.push(match op {
            Op::Sym { cdf, .. } => Op::Sym { cdf: *cdf, s: d.decode_symbol(&mut q, &mut c[*cdf]) as usize },
            Op::Bit { p, .. } => Op::Bit { p: *p, b: d.decode_symbolp(&mut q, *p) as u8 },
            Op::Bits { p, v } => { let mut o = vec![]; d.decode_symbols(&mut q, &mut o, v.len() as i32, *p); Op::Bits { p: *p, v: o } }
            Op::Lit { n, .. } => Op::Lit { v: d.decode_literal(&mut q, *n), n: *n },
        });
    }
    d.exit_decoder(&mut q);
    (out, c)
}

fn check(p: &Plan, run: &Runner) -> CaseResult {
    let (bits, enc_cdfs) = encode(p);
    let (want_cdfs, re) = ref_encode(p);
    ensure!(bits.iter().all(|b| *b <= 1), "output contains something other than bits");
    ensure_eq!(enc_cdfs, want_cdfs, "distributions after encoding");
    // the specification's decoder recovers the symbols from the stream
    match ref_decode(p, &bits) {
        None => return Err(format!("the specification's decoder fails on the stream; {}", describe(p))),
        Some((ops, _)) => if ops != p.ops {
            let k = ops.iter().zip(&p.ops).position(|(a, b)| a != b).unwrap();
            return Err(format!("the specification's decoder reads operation {} as {:?}, encoded {:?}; {}", k, ops[k], p.ops[k], describe(p)));
        }
    }
    // the project's own decoder does
    let (ops, dec_cdfs) = decode(p, &bits, (bits.len() / 8) as u32);
    if let Some(k) = ops.iter().zip(&p.ops).position(|(a, b)| a != b) {
        return Err(format!("operation {} decoded as {:?}, encoded {:?}; {}", k, ops[k], p.ops[k], describe(p)));
    }
    ensure_eq!(dec_cdfs, want_cdfs, "distributions after decoding");
    // and reads a foreign (reference) encoder's stream too
    let mut foreign = re.bits().to_vec();
    while foreign.len() % 8 != 0 { foreign.push(0); }
    let (ops, _) = decode(p, &foreign, (foreign.len() / 8) as u32);
    if ops != p.ops { return Err(format!("the reference encoder's stream is decoded differently; {}", describe(p))); }
    // size
    ensure!((bits.len() as f64) <= re.cost_bits + 26.0, "{} bits for an information content of {:.1} bits", bits.len(), re.cost_bits);
    // what was observed
    let mut maxrun = 0; let mut run1 = 0; let mut prev = 2;
    for b in &bits { if *b == prev { run1 += 1 } else { run1 = 1; prev = *b } if run1 > maxrun { maxrun = run1 } }
    run.count("operations round-tripped", p.ops.len() as u64);
    run.count("bits produced", bits.len() as u64);
    run.count(&format!("sequences: {}", p.kind), 1);
    if maxrun >= 32 { run.count("streams with a run of >=32 equal bits (long carries)", 1); }
    if maxrun >= 1000 { run.count("streams with a run of >=1000 equal bits", 1); }
    if maxrun >= 40000 { run.count("streams with a run of >=40000 equal bits", 1); }
    Ok(Case::new(hash_bytes(&bits) ^ hash_of(&p.ops.len()), p.ops.len() >= 2, describe(p)))
}

fn main() {
    let mut r = Runner::new("C01", "a case is a random set of 1..6 distributions (2..16 symbols, any counter) and a sequence of symbol / probability-bit / literal operations (uniform, least-probable, first/last, runs, carry-crafted by decoding a patterned code value, mixed call forms), encoded and decoded by the real coder and by an independent unbounded-integer model; non-trivial: at least two operations; distinct: by output bits");
    r.require("streams with a run of >=32 equal bits (long carries)");
    r.require("sequences: mixed-calls");
    let n = r.n(60_000, 1_500_000);
    r.suite("random", n, |rng, _i, run| check(&random_plan(rng, 400), run));
    let n = r.n(300, 4_000);
    r.suite("long", n, |rng, _i, run| check(&random_plan(rng, 20_000), run));
    // carries that stay pending over up to tens of thousands of bits
    r.require("streams with a run of >=1000 equal bits");
    r.require("streams with a run of >=40000 equal bits");
    let n = r.n(60, 600);
    r.suite("long-carries", n, |rng, i, run| {
        let len = match i % 6 { 0 => 66_000 + rng.usize(6000), 1 => 32_000 + rng.usize(2000), 2 => 5000 + rng.usize(20_000), 3 => 1000 + rng.usize(4000), _ => 100 + rng.usize(1000) };
        check(&long_carry_plan(rng, len), run)
    });
    // every binary sequence of up to 12 symbols at a spread of initial probabilities
    let ps = [1, 2, 64, 127, 128, 129, 200, 254, 255];
    r.suite_exhaustive("all-binary-12", (ps.len() as u64) << 12, |_rng, i, run| {
        let p = ps[(i >> 12) as usize];
        let c = mon::refcoder::p_cdf(p);
        let plan = Plan { cdfs: vec![c], ops: (0..12).map(|k| Op::Sym { cdf: 0, s: ((i >> k) & 1) as usize }).collect(), kind: "all-binary" };
        check(&plan, run)
    });
    // every ternary sequence of up to 8 symbols
    r.suite_exhaustive("all-ternary-8", 6561 * 3, |_rng, i, run| {
        let c = [vec![1, 2, 32768, 0], vec![32766, 32767, 32768, 31], vec![10923, 21845, 32768, 0]][(i / 6561) as usize].clone();
        let mut x = i % 6561;
        let ops = (0..8).map(|_| { let s = (x % 3) as usize; x /= 3; Op::Sym { cdf: 0, s } }).collect();
        check(&Plan { cdfs: vec![c], ops, kind: "all-ternary" }, run)
    });
    r.assume("distributions are strictly increasing, end at 32768 and carry a counter of 0..32, as every distribution of the format does");
    r.finish();
}
