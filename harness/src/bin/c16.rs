//! C16: metadata and padding payloads carry exactly what they were given.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::cell::RefCell;
use std::rc::Rc;

fn kind(m: &Meta) -> &'static str { match m { Meta::T35 { .. } => "T.35 payloads", Meta::Cll(..) => "content light levels", Meta::Mdcv(..) => "mastering displays", Meta::Scal { .. } => "scalability structures", Meta::Time { .. } => "timecodes" } }

fn one(o: &mut OBUEncoder, m: &Meta, rng: &mut Rng, run: &Runner) -> Result<usize, String> {
    let mut obu = OBU::OBU_METADATA(build_meta(m));
    let pre: Vec<u8> = (0..rng.usize(12)).map(|_| rng.below(2) as u8).collect();
    let mut out = pre.clone();
    o.encode_obu_payload(&mut obu, &mut out);
    ensure!(out.len() >= pre.len() && out[..pre.len()] == pre[..], "coding a payload changed the bits before it");
    let body = out[pre.len()..].to_vec();
    let mut b = BitReader::new(&body);
    let got = parse_meta(&mut b).map_err(|e| format!("{:?} cannot be read: {} in {}", m, e, bits::show(&body)))?;
    ensure!(&got == m, "read back {:?}, given {:?}", got, m);
    ensure!(b.left() == 0, "{} bits follow {:?}", b.left(), m);
    let mut again = vec![];
    o.encode_obu_payload(&mut obu, &mut again);
    ensure!(again == body, "the same metadata coded again differs: {:?}", m);
    run.count(kind(m), 1);
    if let Meta::Time { s, m, h, .. } = m { run.count(if h.is_some() { "full timecodes" } else if m.is_some() { "timecodes without hours" } else if s.is_some() { "timecodes of seconds only" } else { "timecodes without time" }, 1); }
    if let Meta::Scal { groups, .. } = m { if groups.len() == 255 { run.count("structures with 255 temporal groups", 1); } }
    Ok(body.len())
}

fn main() {
    let mut r = Runner::new("C16", "a case is a history of 1 to 6 metadata payloads of all five kinds with random contents (limits included) coded by one encoder; each is parsed by an independent reader and compared field by field, nothing left over; non-trivial: every case; distinct: by contents");
    let n = r.n(30000, 1_000_000);
    r.suite("histories", n, |rng, _i, run| {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut ms = vec![];
        {
            let mut o = OBUEncoder::new(&e, &mut w, &mut c);
            for _ in 0..1 + rng.usize(6) { let m = random_meta(rng); one(&mut o, &m, rng, run)?; ms.push(m); }
        }
        ensure!(d.borrow().is_empty(), "coding a payload wrote to the output");
        Ok(Case::new(hash_of(&ms), true, format!("{:?}", ms)))
    });
    // small spaces completely: country codes, scalability modes, counting types x offset lengths
    let run_one = |m: Meta, rng: &mut Rng, run: &Runner| -> CaseResult {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (_d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut c);
        let n = one(&mut o, &m, rng, run)?;
        Ok(Case::new(hash_of(&m), true, format!("{} bits: {:?}", n, m)))
    };
    r.suite_exhaustive("country-codes", 256, |rng, i, run| { let k = rng.usize(4); let pb = rng.bytes(k).iter().map(|&x| x as u16).collect(); run_one(Meta::T35 { cc: i as u16, pb }, rng, run) });
    r.suite_exhaustive("scalability-modes", 15, |rng, i, run| { let (dims, descs) = if i == 14 { (vec![(1, 2)], vec![3]) } else { (vec![], vec![]) }; run_one(Meta::Scal { mode: i as u8, dims, descs, groups: vec![] }, rng, run) });
    r.suite_exhaustive("timecodes", 32 * 32 * 4, |rng, i, run| {
        let (ct, len, k) = ((i % 32) as u8, (i / 32 % 32) as u8, i / 1024);
        let val = if len == 0 { 0 } else { rng.edgy((1 << len) - 1) as u32 };
        run_one(Meta::Time { ct, s: (k > 0).then(|| rng.below(60) as u8), m: (k > 1).then(|| rng.below(60) as u8), h: (k > 2).then(|| rng.below(24) as u8), len, val }, rng, run)
    });
    let n = r.n(60, 1000);
    r.suite("long-payloads", n, |rng, i, run| {
        let k = match i % 5 { 0 => 4090 + rng.usize(20), 1 => 65_530 + rng.usize(12), 2 => rng.usize(70_000), 3 => 250 + rng.usize(20), _ => rng.usize(5000) };
        let pb = rng.bytes(k).iter().map(|&x| x as u16).collect();
        if k > 4096 { run.count("T.35 payloads over 4096 bytes", 1); }
        let cc = if rng.bool() { 0xff } else { rng.below(255) as u16 };
        run_one(Meta::T35 { cc, pb }, rng, run).map(|mut c| { c.desc.truncate(200); c }).map_err(|mut e| { e.truncate(400); e })
    });
    r.suite("padding", 700, |rng, i, run| {
        let n = if i < 600 { i as u32 } else { rng.below(70000) as u32 };
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (_d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut c);
        let mut out = vec![1, 0, 1];
        o.encode_obu_payload(&mut OBU::OBU_PADDING(n), &mut out);
        ensure!(out[..3] == [1, 0, 1] && out.len() == 3 + 8 * n as usize && out[3..].iter().all(|&x| x == 0), "padding of {} bytes came out as {} bits", n, out.len() - 3);
        for u in [OBU::OBU_TEMPORAL_DELIMITER] { let mut u = u; o.encode_obu_payload(&mut u, &mut out); ensure!(out.len() == 3 + 8 * n as usize, "a temporal delimiter has a payload"); }
        run.count("padding payloads", 1);
        Ok(Case::new(n as u64, true, format!("{} bytes of padding", n)))
    });
    for k in ["T.35 payloads over 4096 bytes", "T.35 payloads", "content light levels", "mastering displays", "scalability structures", "timecodes", "full timecodes", "timecodes without hours", "timecodes of seconds only", "timecodes without time", "structures with 255 temporal groups", "padding payloads"] { r.require(k); }
    r.assume("the T.35 country code extension byte, which the data model does not hold, is written as zero");
    r.assume("layouts are those of the bitstream draft the project follows, restated in harness/src/obus.rs");
    r.finish();
}
