//! C04: raw bit descriptors have the draft's exact layout, round-trip over their whole domain,
//! are self-delimiting, and decoding a cut-off code stops instead of inventing a value.
use av1enc::bool_coder::BoolCoder;
use mon::bits as b;
use mon::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
enum D { F(u32, u8), Su(i64, u8), Ns(u64, u64), Uvlc(u32), Le(u64, u8), Leb(u64) }

fn gen(r: &mut Rng) -> D {
    match r.below(6) {
        0 => { let n = r.below(33) as u8; D::F((r.edgy(u32::MAX as u64) & if n == 0 { 0 } else { u64::MAX >> (64 - n) }) as u32, n) }
        1 => { let n = 1 + r.below(62) as u8; let lo = -(1i64 << (n - 1)); let hi = (1i64 << (n - 1)) - 1;
            let v = match r.below(5) { 0 => lo, 1 => hi, 2 => r.range(-1, 1).max(lo).min(hi), _ => r.range(lo, hi) }; D::Su(v, n) }
        2 => { let n = 1 + r.edgy((1 << 62) - 1); D::Ns(match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) }, n) }
        3 => D::Uvlc(r.edgy(u32::MAX as u64) as u32),
        4 => { let n = 1 + r.below(8) as u8; let v = r.edgy(u64::MAX); D::Le(if n == 8 { v } else { v & ((1 << (8 * n)) - 1) }, n) }
        _ => D::Leb(r.edgy((1 << 56) - 1)),
    }
}
fn want(d: &D) -> Vec<u8> {
    match d { D::F(v, n) => b::f(*v as u64, *n as usize), D::Su(v, n) => b::su(*v, *n as usize), D::Ns(v, n) => b::ns(*v, *n), D::Uvlc(v) => b::uvlc(*v as u64), D::Le(v, n) => b::le(*v, *n as usize), D::Leb(v) => b::leb128(*v) }
}
fn put(c: &mut BoolCoder, o: &mut Vec<u8>, d: &D) {
    match d {
        D::F(v, n) => c.push_bits_with_size(o, *v, *n), D::Su(v, n) => c.encode_su(o, *v, *n), D::Ns(v, n) => c.encode_ns(o, *v, *n),
        D::Uvlc(v) => c.encode_uvlc(o, *v), D::Le(v, n) => c.encode_le(o, *v, *n), D::Leb(v) => c.encode_leb128(o, *v),
    }
}
fn get(c: &mut BoolCoder, q: &mut VecDeque<u8>, d: &D) -> D {
    match d {
        D::F(_, n) => { let mut v = 0; for _ in 0..*n { v = v * 2 + q.pop_front().unwrap() as u64; } D::F(v as u32, *n) }
        D::Su(_, n) => D::Su(c.decode_su(q, *n), *n), D::Ns(_, n) => D::Ns(c.decode_ns(q, *n), *n), D::Uvlc(_) => D::Uvlc(c.decode_uvlc(q)),
        D::Le(_, n) => D::Le(c.decode_le(q, *n), *n), D::Leb(_) => D::Leb(c.decode_leb128(q)),
    }
}
fn one(d: &D, tail: &[u8]) -> Result<(), String> {
    let mut c = BoolCoder::new();
    let mut o = vec![];
    put(&mut c, &mut o, d);
    let w = want(d);
    if o != w { return Err(format!("{:?} is written as {}, the draft says {}", d, b::show(&o), b::show(&w))); }
    let mut q: VecDeque<u8> = o.iter().chain(tail).cloned().collect();
    let g = get(&mut c, &mut q, d);
    if g != *d { return Err(format!("{:?} is read back as {:?}", d, g)); }
    if q.iter().ne(tail.iter()) { return Err(format!("{:?}: {} bits remain, {} follow the code", d, q.len(), tail.len())); }
    Ok(())
}
fn name(d: &D) -> &'static str { match d { D::F(..) => "f(n)", D::Su(..) => "su(n)", D::Ns(..) => "ns(n)", D::Uvlc(_) => "uvlc", D::Le(..) => "le(n)", D::Leb(_) => "leb128" } }

fn main() {
    let mut r = Runner::new("C04", "sequences of 1..40 random descriptors (fixed-length, signed, non-symmetric, uvlc, little-endian, leb128) with edge-biased values, written by the real coder, compared bit for bit with the draft's layout, read back in order, and every strict prefix of a code offered to the decoder; plus enumeration of all small domains; non-trivial: more than one descriptor or an enumerated value; distinct: by bits");
    for k in ["f(n)", "su(n)", "ns(n)", "uvlc", "le(n)", "leb128", "truncated codes rejected"] { r.require(k); }
    let n = r.n(80_000, 2_000_000);
    r.suite("sequences", n, |rng, _i, run| {
        let ds: Vec<D> = (0..1 + rng.usize(40)).map(|_| gen(rng)).collect();
        let mut c = BoolCoder::new();
        let mut o = vec![]; let mut w = vec![];
        for d in &ds {
            put(&mut c, &mut o, d);
            w.extend(want(d));
            if o != w { return Err(format!("after {:?}: output {} expected {}", d, b::show(&o), b::show(&w))); }
        }
        let mut q: VecDeque<u8> = o.iter().cloned().collect();
        for d in &ds { let g = get(&mut c, &mut q, d); ensure!(g == *d, "{:?} is read back as {:?} in a sequence", d, g); run.count(name(d), 1); }
        ensure!(q.is_empty(), "{} bits left after reading the sequence", q.len());
        Ok(Case::new(hash_bytes(&o), ds.len() > 1, format!("{:?}", &ds[..ds.len().min(6)])))
    });
    let n = r.n(20_000, 200_000);
    r.suite("truncated", n, |rng, _i, run| {
        let d = gen(rng);
        if let D::F(..) = d { return Ok(Case::new(0, false, String::new())); }
        let w = want(&d);
        if w.is_empty() { return Ok(Case::new(0, false, String::new())); }
        let cut = rng.usize(w.len());
        let mut q: VecDeque<u8> = w[..cut].iter().cloned().collect();
        let res = catch_unwind(AssertUnwindSafe(|| get(&mut BoolCoder::new(), &mut q, &d)));
        if let Ok(v) = res { return Err(format!("the first {} of {} bits of {:?} were accepted as {:?}", cut, w.len(), d, v)); }
        run.count("truncated codes rejected", 1);
        Ok(Case::new(hash_of(&(w, cut, name(&d))), true, format!("{:?} cut to {} bits", d, cut)))
    });
    // finite domains, enumerated
    r.suite_exhaustive("su-all", 14, |_rng, i, run| {
        let n = 1 + i as u8;
        for v in -(1i64 << (n - 1))..(1i64 << (n - 1)) { one(&D::Su(v, n), &[1, 0])?; run.count("su(n)", 1); }
        Ok(Case::new(i, true, format!("all {}-bit signed values", n)))
    });
    r.suite_exhaustive("ns-all", 300, |_rng, i, run| {
        let n = 1 + i;
        for v in 0..n { one(&D::Ns(v, n), &[0, 1])?; run.count("ns(n)", 1); }
        Ok(Case::new(i, true, format!("all values of ns({})", n)))
    });
    r.suite_exhaustive("uvlc-edges", 33, |_rng, i, run| {
        for k in -3i64..=3 { let v = (1i64 << i) + k; if v >= 0 && v <= u32::MAX as i64 { one(&D::Uvlc(v as u32), &[1, 1, 0])?; run.count("uvlc", 1); } }
        Ok(Case::new(i, true, format!("uvlc around 2^{}", i)))
    });
    r.suite_exhaustive("uvlc-16bit", 256, |_rng, i, run| {
        for k in 0..257u64 { one(&D::Uvlc((i * 257 + k) as u32), &[0])?; }
        run.count("uvlc", 257);
        Ok(Case::new(i, true, format!("uvlc {}..{}", i * 257, i * 257 + 256)))
    });
    r.suite_exhaustive("leb128-edges", 57, |_rng, i, run| {
        for k in -2i64..=2 { let v = (1i64 << i.min(55)) + k; if v >= 0 && v < 1 << 56 { one(&D::Leb(v as u64), &[1])?; run.count("leb128", 1); } }
        if i == 56 { one(&D::Leb((1 << 56) - 1), &[1, 0])?; }
        Ok(Case::new(i, true, format!("leb128 around 2^{}", i)))
    });
    let n = r.n(3000, 30000);
    r.suite("leb128-padded", n, |rng, _i, run| {
        // readers must accept codes with redundant continuation bytes (up to 8 bytes)
        let v = rng.edgy((1 << 56) - 1);
        let mut bytes: Vec<u8> = { let mut o = vec![]; let mut x = v; loop { o.push((x & 127) as u8); x >>= 7; if x == 0 { break; } } o };
        let total = bytes.len() + rng.usize(9 - bytes.len());
        bytes.resize(total, 0);
        for k in 0..total - 1 { bytes[k] |= 128; }
        let mut q: VecDeque<u8> = b::from_bytes(&bytes).into_iter().collect();
        q.push_back(1);
        let g = BoolCoder::new().decode_leb128(&mut q);
        ensure_eq!(g, v, "leb128 bytes {:02x?}", bytes);
        ensure!(q.len() == 1, "leb128 bytes {:02x?}: {} bits left", bytes, q.len());
        run.count("padded leb128 codes", 1);
        Ok(Case::new(hash_bytes(&bytes), true, format!("{:02x?}", bytes)))
    });
    r.suite_exhaustive("uvlc-escape", 10, |_rng, i, _run| {
        let mut q: VecDeque<u8> = vec![0u8; 32 + i as usize].into_iter().collect();
        q.push_back(1); q.push_back(0);
        ensure_eq!(BoolCoder::new().decode_uvlc(&mut q), u32::MAX, "uvlc with {} leading zeros", 32 + i);
        ensure!(q.len() == 1, "uvlc with {} leading zeros leaves {} bits", 32 + i, q.len());
        Ok(Case::new(i, true, format!("{} zeros", 32 + i)))
    });
    // plain bit pushing and alignment
    let n = r.n(5000, 50000);
    r.suite("push", n, |rng, _i, run| {
        let c = BoolCoder::new();
        let mut o: Vec<u8> = vec![]; let mut w: Vec<u8> = vec![];
        for _ in 0..rng.usize(30) {
            match rng.below(4) {
                0 => { let x = rng.below(2) as u8; c.push_bit(&mut o, x); w.push(x); }
                1 => { let v: Vec<u8> = (0..rng.usize(20)).map(|_| rng.below(2) as u8).collect(); c.push_bits(&mut o, &v); w.extend(&v); }
                2 => { let n = rng.below(33) as u8; let v = rng.u64() as u32; c.push_bits_with_size(&mut o, v, n); w.extend(b::f(v as u64 & if n == 0 { 0 } else { u64::MAX >> (64 - n) }, n as usize)); }
                _ => { c.push_bits_align(&mut o); while w.len() % 8 != 0 { w.push(0); } run.count("alignments", 1); }
            }
            ensure!(o == w, "pushed bits {} expected {}", b::show(&o), b::show(&w));
        }
        Ok(Case::new(hash_bytes(&o), o.len() > 1, b::show(&o)))
    });
    r.finish();
}
