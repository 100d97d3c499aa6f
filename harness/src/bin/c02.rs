//! C02: sessions of the entropy coder are byte-aligned, self-contained and consumed exactly.
use av1enc::bool_coder::BoolCoder;
use mon::gen::*;
use mon::*;
use std::collections::VecDeque;

fn enc(e: &mut BoolCoder, p: &Plan, out: &mut Vec<u8>) {
    let mut c = p.cdfs.clone();
    e.init_encoder();
    for op in &p.ops {
        match op {
            Op::Sym { cdf, s } => e.encode_symbol(*s as i32, out, &mut c[*cdf]),
            Op::Bit { p, b } => e.encode_symbolp(*b, out, *p),
            Op::Bits { p, v } => e.encode_symbols(v, out, *p),
            Op::Lit { v, n } => e.encode_literal(out, *v, *n),
        }
    }
    e.exit_encoder(out);
}
fn dec(d: &mut BoolCoder, p: &Plan, q: &mut VecDeque<u8>, sz: usize, upto: usize) -> Vec<Op> {
    let mut c = p.cdfs.clone();
    d.init_decoder(q, sz as u32);
    let mut out = vec![];
    for op in &p.ops[..upto] {
        out.push(match op {
            Op::Sym { cdf, .. } => Op::Sym { cdf: *cdf, s: d.decode_symbol(q, &mut c[*cdf]) as usize },
            Op::Bit { p, .. } => Op::Bit { p: *p, b: d.decode_symbolp(q, *p) as u8 },
            Op::Bits { p, v } => { let mut o = vec![]; d.decode_symbols(q, &mut o, v.len() as i32, *p); Op::Bits { p: *p, v: o } }
            Op::Lit { n, .. } => Op::Lit { v: d.decode_literal(q, *n), n: *n },
        });
    }
    d.exit_decoder(q);
    out
}
/// descriptors written between sessions with the same coder object
fn raw(e: &mut BoolCoder, r: &mut Rng, out: &mut Vec<u8>) {
    for _ in 0..r.usize(4) {
        match r.below(5) {
            0 => e.encode_leb128(out, r.edgy((1 << 56) - 1)),
            1 => e.encode_uvlc(out, r.edgy(1 << 30) as u32),
            2 => e.encode_le(out, r.u64(), 1 + r.below(8) as u8),
            3 => e.encode_ns(out, 3, 10),
            _ => e.push_bits_with_size(out, r.u64() as u32, r.below(33) as u8),
        }
    }
}

/// a session that is begun and never ended; whatever it wrote is thrown away
fn abandon(o: &mut BoolCoder, r: &mut Rng, run: &Runner) {
    let p = random_plan(r, 20);
    let mut c = p.cdfs.clone();
    if r.bool() {
        let mut junk = vec![];
        o.init_encoder();
        for op in &p.ops { match op { Op::Sym { cdf, s } => o.encode_symbol(*s as i32, &mut junk, &mut c[*cdf]), Op::Bit { p, b } => o.encode_symbolp(*b, &mut junk, *p), Op::Bits { p, v } => o.encode_symbols(v, &mut junk, *p), Op::Lit { v, n } => o.encode_literal(&mut junk, *v, *n) } }
        run.count("encoder sessions abandoned", 1);
    } else {
        let n = 64 + r.usize(64);
        let mut q: VecDeque<u8> = (0..n * 8).map(|_| (r.u64() & 1) as u8).collect();
        o.init_decoder(&mut q, n as u32);
        for _ in 0..r.usize(20) { let _ = o.decode_literal(&mut q, 1 + r.below(8) as u8); }
        run.count("decoder sessions abandoned", 1);
    }
}

fn main() {
    let mut r = Runner::new("C02", "a case is a history of 1..8 sessions on coder objects that are reused (encoder and decoder, or one object for both), with raw descriptors and unaligned prefixes in the output between sessions, foreign bits after each session in the input, declared sizes equal to or larger than the session, and decoders that stop early; non-trivial: at least two sessions; distinct: by the concatenated bits");
    r.require("sessions decoded before the end of their symbols");
    r.require("sessions with a declared size beyond their end");
    r.require("empty sessions");
    r.require("encoder sessions abandoned");
    r.require("decoder sessions abandoned");
    r.require("sessions appended at an unaligned position");
    let n = r.n(30_000, 600_000);
    r.suite("histories", n, |rng, _i, run| {
        let mut enc_obj = BoolCoder::new();
        let mut dec_obj = BoolCoder::new();
        let one_object = rng.chance(1, 4);
        let k = 1 + rng.usize(8);
        let mut all = vec![];
        let mut desc = String::new();
        let max_ops = if rng.chance(1, 10) { 800 } else { 60 };
        for _ in 0..k {
            let p = random_plan(rng, max_ops);
            raw(&mut enc_obj, rng, &mut all);
            let start = all.len();
            let before = all.clone();
            if rng.chance(1, 5) { abandon(&mut enc_obj, rng, run); }
            enc(&mut enc_obj, &p, &mut all);
            ensure!(all[..start] == before[..], "encoding changed bits written before the session");
            let sess = all[start..].to_vec();
            if start % 8 != 0 { run.count("sessions appended at an unaligned position", 1); }
            // aligned
            ensure!(sess.len() % 8 == 0, "a session of {} operations is {} bits long", p.ops.len(), sess.len());
            ensure!(sess.len() >= 16, "a session is {} bits long", sess.len());
            // a fresh object gives the same bits
            let mut fresh = vec![];
            enc(&mut BoolCoder::new(), &p, &mut fresh);
            ensure!(fresh == sess, "a reused coder produces {} but a new one {} for {}", bits::show(&sess), bits::show(&fresh), describe(&p));
            // the decoder takes exactly the declared bytes
            let extra = if rng.bool() { 0 } else { rng.usize(12) };
            let declared = sess.len() / 8 + extra;
            let mut q: VecDeque<u8> = sess.iter().cloned().collect();
            for _ in 0..extra * 8 { q.push_back(0); }
            let tail: Vec<u8> = (0..rng.usize(64)).map(|_| (rng.u64() & 1) as u8).collect();
            q.extend(tail.iter());
            let upto = if rng.chance(1, 3) && p.ops.len() > 0 { run.count("sessions decoded before the end of their symbols", 1); rng.usize(p.ops.len() + 1) } else { p.ops.len() };
            let obj = if one_object { &mut enc_obj } else { &mut dec_obj };
            if rng.chance(1, 5) { abandon(obj, rng, run); }
            let got = dec(obj, &p, &mut q, declared, upto);
            ensure!(got[..] == p.ops[..upto], "session decoded differently on a reused decoder: {}", describe(&p));
            let rest: Vec<u8> = q.iter().cloned().collect();
            ensure!(rest == tail, "after a session of {} declared bytes ({} operations decoded) {} bits remain, {} follow it", declared, upto, rest.len(), tail.len());
            run.count("sessions", 1);
            if p.ops.is_empty() { run.count("empty sessions", 1); }
            if extra > 0 { run.count("sessions with a declared size beyond their end", 1); }
            desc += &format!("[{} ops, {} bytes declared {}] ", p.ops.len(), sess.len() / 8, declared);
        }
        Ok(Case::new(hash_bytes(&all), k >= 2, desc))
    });
    // every session length up to 400 symbols of one distribution: alignment residues
    r.suite_exhaustive("lengths", 400 * 5, |rng, i, run| {
        let len = (i % 400) as usize;
        let n = 2 + (i / 400) as usize * 3;
        let c = random_cdf(rng, n);
        let ops: Vec<Op> = (0..len).map(|_| Op::Sym { cdf: 0, s: rng.usize(n) }).collect();
        let p = Plan { cdfs: vec![c], ops, kind: "lengths" };
        let mut out = vec![];
        let mut e = BoolCoder::new();
        enc(&mut e, &p, &mut out);
        ensure!(out.len() % 8 == 0, "{} symbols: {} bits", len, out.len());
        let mut q: VecDeque<u8> = out.iter().cloned().collect();
        q.push_back(1);
        let got = dec(&mut BoolCoder::new(), &p, &mut q, out.len() / 8, len);
        ensure!(got == p.ops, "{} symbols decoded differently", len);
        ensure!(q.len() == 1 && q[0] == 1, "{} symbols: {} bits remain after the session", len, q.len());
        run.count("sessions", 1);
        Ok(Case::new(hash_bytes(&out), len > 1, format!("{} symbols of {}", len, n)))
    });
    // sessions far beyond a few kilobytes, read to the end or abandoned early
    for k in ["sessions over 64 KiB", "sessions abandoned with over 100000 bits unread"] { r.require(k); }
    let n = r.n(36, 400);
    r.suite("large", n, |rng, i, run| {
        let bytes = match i % 6 { 0 => 66_000 + rng.usize(90_000), 1 => 8192 * (1 + rng.usize(4)) - 8 + rng.usize(16), 2 => 65_520 + rng.usize(40), _ => 9_000 + rng.usize(60_000) };
        let c = random_cdf(rng, 4);
        let mut ops = vec![];
        for _ in 0..bytes / 8 { ops.push(if rng.chance(1, 50) { Op::Sym { cdf: 0, s: rng.usize(4) } } else { Op::Lit { v: rng.u64(), n: 64 } }); }
        for _ in 0..rng.usize(9) { ops.push(Op::Lit { v: rng.u64(), n: rng.below(64) as u8 }); }
        for o in ops.iter_mut() { if let Op::Lit { v, n } = o { if *n < 64 { *v &= (1u64 << *n) - 1; } } }
        let p = Plan { cdfs: vec![c], ops, kind: "large" };
        let mut out = vec![];
        enc(&mut BoolCoder::new(), &p, &mut out);
        ensure!(out.len() % 8 == 0, "a session of {} bits", out.len());
        let tail: Vec<u8> = (0..rng.usize(64)).map(|_| (rng.u64() & 1) as u8).collect();
        let mut d = BoolCoder::new();
        for upto in [p.ops.len(), rng.usize(p.ops.len()), 0] {
            let extra = if rng.bool() { 0 } else { rng.usize(12) };
            let mut q: VecDeque<u8> = out.iter().cloned().collect();
            for _ in 0..extra * 8 { q.push_back(0); }
            q.extend(tail.iter());
            let got = dec(&mut d, &p, &mut q, out.len() / 8 + extra, upto);
            ensure!(got[..] == p.ops[..upto], "a session of {} bytes is decoded differently", out.len() / 8);
            ensure!(q.iter().eq(tail.iter()), "after a session of {} declared bytes ({} of {} operations decoded) {} bits remain, {} follow it", out.len() / 8 + extra, upto, p.ops.len(), q.len(), tail.len());
            run.count("sessions", 1);
            if out.len() > 65536 * 8 { run.count("sessions over 64 KiB", 1); }
            if out.len() * (p.ops.len() - upto) / p.ops.len() > 110_000 { run.count("sessions abandoned with over 100000 bits unread", 1); }
        }
        Ok(Case::new(hash_bytes(&out), true, format!("{} bytes", out.len() / 8)))
    });
    r.finish();
}
