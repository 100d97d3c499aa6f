//! C03: adaptation of distributions follows the draft and keeps them valid for ever.
use av1enc::bool_coder::BoolCoder;
use mon::gen::*;
use mon::refcoder::*;
use mon::*;
use std::collections::VecDeque;

fn valid(c: &[i32]) -> Result<(), String> {
    let n = c.len() - 1;
    let mut prev = 0;
    for i in 0..n { if c[i] <= prev { return Err(format!("not strictly increasing: {:?}", c)); } prev = c[i]; }
    if c[n - 1] != 32768 { return Err(format!("does not end at 32768: {:?}", c)); }
    if c[n] < 0 || c[n] > 32 { return Err(format!("counter out of range: {:?}", c)); }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C03", "single steps: a random valid distribution (2..16 symbols, every counter), every symbol of it, encoder and decoder, compared with the closed form of the draft's rule; histories: thousands of steps on one distribution with skewed, alternating and drifting sources, validity checked after every step; non-trivial: a distribution changed; distinct: by (distribution, symbol)");
    let n = r.n(60_000, 1_000_000);
    r.suite("steps", n, |rng, i, run| {
        let n = 2 + (i % 15) as usize;
        let c0 = random_cdf(rng, n);
        valid(&c0).unwrap();
        let mut changed = false;
        for s in 0..n {
            let mut want = c0.clone();
            adapt(&mut want, s);
            let mut out = vec![];
            let mut e = BoolCoder::new();
            e.init_encoder();
            let mut ce = c0.clone();
            e.encode_symbol(s as i32, &mut out, &mut ce);
            e.exit_encoder(&mut out);
            ensure_eq!(ce, want, "after encoding symbol {} with {:?}", s, c0);
            let mut q: VecDeque<u8> = out.iter().cloned().collect();
            let mut d = BoolCoder::new();
            d.init_decoder(&mut q, (out.len() / 8) as u32);
            let mut cd = c0.clone();
            let got = d.decode_symbol(&mut q, &mut cd);
            ensure_eq!(got, s as u64, "symbol decoded with {:?}", c0);
            ensure_eq!(cd, want, "after decoding symbol {} with {:?}", s, c0);
            if let Err(m) = valid(&ce) { return Err(format!("after symbol {} on {:?}: {}", s, c0, m)); }
            changed |= want[..n] != c0[..n];
            run.count("steps compared", 2);
        }
        Ok(Case::new(hash_of(&c0), changed, format!("{:?}", c0)))
    });
    let n = r.n(1_500, 30_000);
    r.suite("histories", n, |rng, i, run| {
        let n = 2 + (i % 15) as usize;
        let c0 = random_cdf(rng, n);
        let (mut c, mut m) = (c0.clone(), c0.clone());
        let mut e = BoolCoder::new();
        e.init_encoder();
        let mut out = vec![];
        let kind = rng.below(5);
        let fav = rng.usize(n);
        let mut syms = vec![];
        let len = 200 + rng.usize(1500);
        for k in 0..len {
            let s = match kind { 0 => fav, 1 => k % n, 2 => (k / 97) % n, 3 => if rng.chance(1, 50) { rng.usize(n) } else { fav }, _ => rng.usize(n) };
            e.encode_symbol(s as i32, &mut out, &mut c);
            adapt(&mut m, s);
            if c != m { return Err(format!("step {} (symbol {}) from {:?}: got {:?}, expected {:?}", k, s, c0, c, m)); }
            if let Err(x) = valid(&c) { return Err(format!("step {}: {}", k, x)); }
            syms.push(s);
        }
        e.exit_encoder(&mut out);
        // the decoder arrives at the same distribution
        let mut q: VecDeque<u8> = out.iter().cloned().collect();
        let mut d = BoolCoder::new();
        d.init_decoder(&mut q, (out.len() / 8) as u32);
        let mut cd = c0.clone();
        for (k, s) in syms.iter().enumerate() { ensure_eq!(d.decode_symbol(&mut q, &mut cd) as usize, *s, "symbol {}", k); }
        ensure_eq!(cd, m, "distribution after decoding {} symbols", len);
        // a source that always sends one symbol ends up favouring it
        if kind == 0 {
            let w = c[fav] - if fav > 0 { c[fav - 1] } else { 0 };
            if len >= 1200 { ensure!(w > 16384, "after {} repetitions symbol {} has weight {} of 32768", len, fav, w);
            run.count("constant sources converged", 1); }
        }
        run.count("steps compared", 2 * len as u64);
        Ok(Case::new(hash_of(&(c0, syms)), true, format!("source {} over {} symbols, {} steps", kind, n, len)))
    });
    // with the update switched off, at any time, distributions stay as they are in both directions
    let n = r.n(2_000, 30_000);
    r.suite("frozen", n, |rng, i, run| {
        let k = 2 + (i % 15) as usize;
        let c0 = random_cdf(rng, k);
        let (mut c, mut m) = (c0.clone(), c0.clone());
        let mut e = BoolCoder::new();
        e.init_encoder();
        let (mut out, mut syms) = (vec![], vec![]);
        let mut off = rng.bool();
        for j in 0..20 + rng.usize(100) {
            if rng.chance(1, 12) { off = !off; }
            e.disable_cdf_update = off;
            let s = rng.usize(k);
            e.encode_symbol(s as i32, &mut out, &mut c);
            if !off { adapt(&mut m, s); }
            if c != m { return Err(format!("step {} (symbol {}, update {}) from {:?}: got {:?}, expected {:?}", j, s, if off { "off" } else { "on" }, c0, c, m)); }
            run.count(if off { "steps with the update off" } else { "steps compared" }, 1);
            syms.push((s, off));
        }
        e.exit_encoder(&mut out);
        let mut q: VecDeque<u8> = out.iter().cloned().collect();
        let mut d = BoolCoder::new();
        d.init_decoder(&mut q, (out.len() / 8) as u32);
        let (mut cd, mut m) = (c0.clone(), c0.clone());
        for (j, (s, off)) in syms.iter().enumerate() {
            d.disable_cdf_update = *off;
            ensure_eq!(d.decode_symbol(&mut q, &mut cd) as usize, *s, "symbol {}", j);
            if !off { adapt(&mut m, *s); }
            ensure_eq!(cd, m, "distribution after decoding symbol {} (update {})", j, if *off { "off" } else { "on" });
        }
        Ok(Case::new(hash_of(&(c0, &syms)), true, format!("{} symbols, {} steps", k, syms.len())))
    });
    r.require("steps with the update off");
    // the probability-bit forms do not keep state between calls
    let n = r.n(4_000, 40_000);
    r.suite("stateless-bits", n, |rng, _i, run| {
        let p = 1 + rng.below(255) as i32;
        let b: Vec<u8> = (0..rng.usize(60)).map(|_| rng.below(2) as u8).collect();
        let mut e = BoolCoder::new(); e.init_encoder();
        let mut o1 = vec![];
        for x in &b { e.encode_symbolp(*x, &mut o1, p); }
        e.exit_encoder(&mut o1);
        let mut f = BoolCoder::new(); f.init_encoder();
        let mut o2 = vec![];
        for x in &b { let mut c = p_cdf(p); f.encode_symbol(*x as i32, &mut o2, &mut c); }
        f.exit_encoder(&mut o2);
        ensure_eq!(o1, o2, "bits coded with fixed probability {}", p);
        run.count("fixed-probability bits", b.len() as u64);
        Ok(Case::new(hash_of(&(p, &b)), b.len() > 1, format!("p={} {} bits", p, b.len())))
    });
    r.require("constant sources converged");
    r.finish();
}
