//! C17: the bit writer loses, adds and reorders nothing, whatever the sink does.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
use av1enc::binary_writer::BinaryWriter;
use mon::*;
use obus::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Hash, Clone)]
enum Op { Bit(u8), Bits(Vec<u8>), Align, Bytes(Vec<u8>), Flush }
fn random_op(r: &mut Rng) -> Op {
    match r.below(8) {
        0 | 1 => Op::Bit(r.below(2) as u8),
        2 | 3 | 4 => { let n = match r.below(3) { 0 => r.usize(9), 1 => 8 * r.usize(5), _ => r.usize(100) }; Op::Bits((0..n).map(|_| r.below(2) as u8).collect()) }
        5 => Op::Align,
        6 => Op::Bytes({ let n = r.usize(20); r.bytes(n) }),
        _ => Op::Flush,
    }
}
/// the bits given so far, as the sink must hold them: whole bytes in order, MSB first
#[derive(Default)]
struct Model { out: Vec<u8>, pend: Vec<u8> }
impl Model {
    fn bit(&mut self, b: u8) { self.pend.push(b); if self.pend.len() == 8 { self.out.push(self.pend.drain(..).fold(0, |a, x| a << 1 | x)); } }
    fn align(&mut self) { while !self.pend.is_empty() { self.bit(0); } }
}
fn apply(w: &mut BinaryWriter, m: &mut Model, op: &Op) -> std::io::Result<()> {
    match op {
        Op::Bit(b) => { m.bit(*b); w.write_bit(*b); }
        Op::Bits(v) => { for b in v { m.bit(*b); } w.write_bits(v); }
        Op::Align => { m.align(); w.byte_align(); }
        Op::Bytes(v) => { m.out.extend_from_slice(v); w.write_all(v)?; }
        Op::Flush => loop { match w.flush() { Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {} r => { r?; break; } } },
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C17", "a case is a random sequence of bit, bit-vector, alignment, raw-byte and flush calls on one writer over a sink that accepts one byte at a time, interrupts, or fails at a chosen byte; after every call the sink's contents are compared with an independent packing; non-trivial: at least one whole byte; distinct: by the sequence of calls");
    let n = r.n(30000, 800000);
    r.suite("sequences", n, |rng, _i, run| {
        let den = [0, 2, 3, 10][rng.usize(4)];
        let (d, s) = sink(rng, den);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut m = Model::default();
        let ops: Vec<Op> = (0..1 + rng.usize(30)).map(|_| random_op(rng)).collect();
        for (k, op) in ops.iter().enumerate() {
            apply(&mut w, &mut m, op).map_err(|e| format!("{:?} failed: {}", op, e))?;
            // never anything but the right bytes in the right order; all of them once flushed
            ensure!(m.out.starts_with(&d.borrow()), "after call {} of {:?}: sink holds {:?}, expected {:?}", k, ops, d.borrow(), m.out);
            if let Op::Align = op { w.byte_align(); }
            if let Op::Flush = op { ensure!(*d.borrow() == m.out, "after flush (call {} of {:?}): sink holds {:?}, expected {:?}", k, ops, d.borrow(), m.out); }
            run.count("calls", 1);
        }
        drop(w);
        ensure!(*d.borrow() == m.out, "dropping the writer changed the output");
        run.count("bytes compared", m.out.len() as u64);
        if den > 0 { run.count("sequences with an interrupting sink", 1); }
        Ok(Case::new(hash_of(&ops), !m.out.is_empty(), format!("{} calls, {} bytes", ops.len(), m.out.len())))
    });
    // all patterns of up to 17 bits, cut at all positions into calls
    r.suite_exhaustive("short-patterns", 1 << 14, |rng, i, run| {
        let len = 15 - (i.max(1) as u16).leading_zeros() as usize; // bits below the leading one
        let v: Vec<u8> = (0..len).map(|k| (i >> (len - 1 - k)) as u8 & 1).collect();
        let cut = rng.usize(len + 1);
        let (d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut m = Model::default();
        w.write_bits(&v[..cut].to_vec()); for b in &v[cut..] { w.write_bit(*b); } w.byte_align(); drop(w);
        for b in &v { m.bit(*b); } m.align();
        ensure!(*d.borrow() == m.out, "{:?} packed as {:?}", v, d.borrow());
        run.count("patterns", 1);
        Ok(Case::new(i, true, format!("{:?}", v)))
    });
    // a sink that fails: the failure reaches the caller, and nothing is written out of order
    let n = r.n(5000, 100000);
    r.suite("failing-sink", n, |rng, _i, run| {
        let (d, mut s) = sink(rng, 0);
        let at = rng.usize(12); let zero = rng.bool();
        s.fail_at = Some(at); s.zero = zero; if rng.bool() { s.den = 3; }
        let v: Vec<u8> = (0..8 * (at + 1 + rng.usize(4))).map(|_| rng.below(2) as u8).collect();
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut m = Model::default();
        let res = catch_unwind(AssertUnwindSafe(|| { for b in &v { w.write_bit(*b); } w.flush().is_ok() }));
        ensure!(!matches!(res, Ok(true)), "the sink refused byte {} ({}) and the writer went on as if it had been written", at, if zero { "wrote 0 bytes" } else { "error" });
        for b in &v { m.bit(*b); }
        ensure!(d.borrow()[..] == m.out[..at], "sink holds {:?}, expected the first {} of {:?}", d.borrow(), at, m.out);
        run.count("refused writes reported", 1);
        Ok(Case::new(hash_of(&(at, zero, &v)), true, format!("refused at byte {}, {} bits given", at, v.len())))
    });
    // long vectors and long histories, the sink refusing late or never
    let n = r.n(60, 800);
    r.suite("long", n, |rng, i, run| {
        let den = [0, 3, 50][rng.usize(3)];
        let (d, mut s) = sink(rng, den);
        let at = if i % 3 == 0 { Some(match rng.below(3) { 0 => 250 + rng.usize(12), 1 => rng.usize(5000), _ => 60_000 + rng.usize(10_000) }) } else { None };
        s.fail_at = at; s.zero = rng.bool();
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut m = Model::default();
        let want = match rng.below(3) { 0 => 3000, 1 => 20_000, _ => 66_000 + rng.usize(8000) }.max(at.map_or(0, |a| a + 10));
        let (mut calls, mut held) = (0u64, false);
        let res = catch_unwind(AssertUnwindSafe(|| -> std::io::Result<()> {
            while m.out.len() < want {
                let op = match rng.below(9) {
                    0 => random_op(rng), 1 => Op::Bit(1), 2 => { let k = 1 + rng.usize(12_000); Op::Bytes(rng.bytes(k)) }
                    3 => { let k = 2040 + rng.usize(16); Op::Bits(mon::bits::from_bytes(&rng.bytes(k))) }
                    4 => Op::Bits((0..rng.usize(70_000)).map(|k| (k % 9 == 0) as u8).collect()),
                    _ => { let k = rng.usize(3000); Op::Bits((0..k).map(|_| rng.below(2) as u8).collect()) }
                };
                apply(&mut w, &mut m, &op)?;
                calls += 1;
            }
            apply(&mut w, &mut m, &Op::Flush)?;
            held = true;
            Ok(())
        }));
        let ok = matches!(res, Ok(Ok(())));
        drop(w);
        match at {
            Some(a) => {
                ensure!(!ok && !held, "the sink refused byte {} and the writer went on as if it had been written", a);
                ensure!(d.borrow().len() == a && m.out.starts_with(&d.borrow()), "the sink refused byte {} and holds {} bytes, not the first of those given", a, d.borrow().len());
                run.count("late refusals reported", 1);
            }
            None => {
                ensure!(ok, "writing to a sink that refuses nothing failed");
                ensure!(*d.borrow() == m.out, "{} bytes arrived of {} (first difference at {:?})", d.borrow().len(), m.out.len(), d.borrow().iter().zip(&m.out).position(|(a, b)| a != b));
                run.count("long histories", 1);
            }
        }
        run.count("calls", calls);
        Ok(Case::new(hash_bytes(&m.out), true, format!("{} calls, {} bytes", calls, m.out.len())))
    });
    // real files: everything is there once the writer is flushed, and once it is dropped
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    let dir = &dir;
    let n = r.n(300, 3000);
    r.suite("files", n, |rng, i, run| {
        let p = format!("{}/w{}", dir, i);
        std::fs::write(&p, rng.bytes(50000)).map_err(|e| format!("scratch: {}", e))?; // an existing longer file is replaced
        let k = [0, 1, 10, 9000, 20000][rng.usize(5)];
        let v = rng.bytes(k);
        let mut w = BinaryWriter::file(&p).map_err(|e| format!("create: {}", e))?;
        let half = rng.usize(k + 1);
        w.write_bits(&mon::bits::from_bytes(&v[..half]));
        if rng.bool() { w.flush().map_err(|e| e.to_string())?; let f = std::fs::read(&p).unwrap(); ensure!(f == v[..half], "after flush the file has {} of {} bytes", f.len(), half); run.count("flushes seen on disk", 1); }
        w.write_bits(&mon::bits::from_bytes(&v[half..]));
        drop(w);
        let f = std::fs::read(&p).unwrap();
        ensure!(f == v, "after drop the file has {} bytes, expected {}", f.len(), v.len());
        let _ = std::fs::remove_file(&p);
        ensure!(BinaryWriter::file(&format!("{}/none/x", dir)).is_err(), "creating a file in a missing directory succeeded");
        run.count("files compared", 1);
        Ok(Case::new(hash_of(&(i, k)), true, format!("{} bytes", k)))
    });
    for k in ["late refusals reported", "long histories", "calls", "bytes compared", "sequences with an interrupting sink", "patterns", "refused writes reported", "flushes seen on disk", "files compared"] { r.require(k); }
    r.finish();
}
