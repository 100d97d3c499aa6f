//! C15: every OBU and temporal unit is framed so that a length-driven parser finds it.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
#[path = "../fheader.rs"] mod fheader;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::constants::{FrameRestorationType, FrameType};
use av1enc::encoder::EncoderContext;
use av1enc::frame::Frame;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use fheader::{build_frame, random_cfg, Slot};
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

/// what a temporal unit is asked to carry
#[derive(Clone, Debug, Hash)]
enum Unit { Seq(Seq), Meta(Meta), Pad(u32), Delim, Redundant, Frame }

fn random_unit(r: &mut Rng) -> Unit {
    match r.below(8) {
        0 | 1 => Unit::Seq(random_seq(r)),
        2 | 3 => Unit::Meta(random_meta(r)),
        // padding is what reaches the boundaries of the size fields
        4 | 5 => Unit::Pad(match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 | 4 => 118 + r.below(16) as u32, 5 => r.below(600) as u32, 6 => 253 + r.below(6) as u32, _ => r.below(40) as u32 }),
        6 => Unit::Delim,
        _ => if r.bool() { Unit::Redundant } else { Unit::Frame },
    }
}
fn obu_type(u: &Unit) -> u64 { match u { Unit::Seq(_) => 1, Unit::Delim => 2, Unit::Meta(_) => 5, Unit::Frame => 6, Unit::Redundant => 7, Unit::Pad(_) => 15 } }
fn build(u: &Unit, e: &Rc<RefCell<EncoderContext>>) -> OBU {
    match u {
        Unit::Seq(s) => OBU::OBU_SEQUENCE_HEADER(build_seq(s, &mut e.borrow_mut())),
        Unit::Meta(m) => OBU::OBU_METADATA(build_meta(m)),
        Unit::Pad(n) => OBU::OBU_PADDING(*n),
        Unit::Delim => OBU::OBU_TEMPORAL_DELIMITER,
        Unit::Redundant => OBU::OBU_REDUNDANT_FRAME_HEADER,
        Unit::Frame => OBU::OBU_FRAME { frame: Frame::new(FrameType::KEY_FRAME, 16, 16) },
    }
}
/// `b` = the bits of exactly one OBU
fn check_obu(b: &[u8], u: &Unit) -> Result<(), String> {
    ensure!(b.len() % 8 == 0 && b.len() >= 8, "an OBU of {} bits", b.len());
    let mut r = BitReader::new(b);
    ensure_eq!(r.f(1)?, 0, "forbidden bit");
    ensure_eq!(r.f(4)?, obu_type(u), "OBU type of {:?}", u);
    ensure_eq!((r.f(1)?, r.f(1)?, r.f(1)?), (0, 0, 0), "extension, size and reserved flags");
    let body = &b[8..];
    match u {
        Unit::Delim | Unit::Redundant | Unit::Frame => ensure!(body.is_empty(), "{:?} has a payload of {} bits", u, body.len()),
        _ => {
            if let Unit::Pad(0) = u { ensure!(body.is_empty(), "empty padding has a payload"); return Ok(()); }
            // trailing bits: the last set bit is the stop bit, fewer than 8 zeros follow
            let stop = body.iter().rposition(|&x| x == 1).ok_or_else(|| format!("no trailing one bit in {:?}", u))?;
            ensure!(body.len() - stop <= 8, "{} zero bits after the trailing one bit of {:?}", body.len() - stop - 1, u);
            let payload = &body[..stop];
            let mut p = BitReader::new(payload);
            match u {
                Unit::Seq(s) => { let g = parse_seq(&mut p)?; ensure!(g == normal(s), "sequence header read back as {:?}, was {:?}", g, s); ensure!(p.left() == 0, "{} payload bits too many", p.left()); }
                Unit::Meta(m) => { let g = parse_meta(&mut p)?; ensure!(&g == m, "metadata read back as {:?}, was {:?}", g, m); ensure!(p.left() == 0, "{} payload bits too many", p.left()); }
                Unit::Pad(n) => { ensure_eq!(payload.len(), *n as usize * 8, "padding of {} bytes", n); ensure!(payload.iter().all(|&x| x == 0), "padding is not zero"); }
                _ => unreachable!(),
            }
        }
    }
    Ok(())
}
fn main() {
    let mut r = Runner::new("C15", "a case is a history of 1 to 8 temporal units (sequence headers, metadata, padding of sizes around the size-field boundaries, empty units) coded by one encoder onto one writer whose sink interrupts; the bytes that arrive are split by their size fields alone and each OBU is taken apart; non-trivial: at least one unit with a payload; distinct: by the units");
    let n = r.n(6000, 200000);
    r.suite("temporal-units", n, |rng, _i, run| {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let den = if rng.bool() { 3 } else { 0 };
        let (d, s) = sink(rng, den);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut units = vec![];
        let pre = rng.chance(1, 4).then(|| { let k = 1 + rng.usize(5); rng.bytes(k) });
        if let Some(p) = &pre { w.write_bits(&bits::from_bytes(p)); }
        {
            let mut o = OBUEncoder::new(&e, &mut w, &mut c);
            for _ in 0..1 + rng.usize(8) {
                let u = random_unit(rng);
                let before = d.borrow().clone();
                let mut obu = build(&u, &e);
                // the OBU on its own, behind other bits
                let head: Vec<u8> = (0..8 * rng.usize(3)).map(|_| rng.below(2) as u8).collect();
                let mut bits1 = head.clone();
                o.encode_obu(&mut obu, &mut bits1);
                ensure!(bits1.len() >= head.len() && bits1[..head.len()] == head[..], "coding an OBU changed the bits before it");
                check_obu(&bits1[head.len()..], &u)?;
                let mut hb = head.clone();
                o.encode_obu_header(&mut obu, &mut hb);
                ensure!(hb.len() == head.len() + 8 && hb[..] == bits1[..hb.len()], "header alone differs from the OBU's header");
                o.encode_temporal_unit(&mut obu);
                let after = d.borrow().clone();
                ensure!(after.len() >= before.len() && after[..before.len()] == before[..], "a later unit changed earlier output");
                let (obu_bytes, end) = unit_at(&after, before.len()).map_err(|m| format!("{:?}: {}", u, m))?;
                ensure_eq!(end, after.len(), "bytes of the temporal unit of {:?}", u);
                let ob = bits::from_bytes(&obu_bytes);
                ensure!(ob[..] == bits1[head.len()..], "the unit carries {} and not the OBU {}", bits::show(&ob), bits::show(&bits1[head.len()..]));
                let l = obu_bytes.len();
                run.count(if l < 126 { "units with one-byte sizes" } else if l > 128 { "units with multi-byte sizes" } else { "units at the one-byte size limit" }, 1);
                if l == 1 { run.count("units without payload", 1); }
                units.push(u);
            }
        }
        // the whole stream, by its size fields only
        let d = d.borrow();
        let mut at = pre.as_ref().map_or(0, |p| p.len());
        if let Some(p) = &pre { ensure!(d[..at] == p[..], "what was written before changed"); }
        for u in &units { let (b, end) = unit_at(&d, at)?; check_obu(&bits::from_bytes(&b), u)?; at = end; }
        ensure_eq!(at, d.len(), "bytes after the last temporal unit");
        run.count("temporal units split", units.len() as u64);
        let nt = units.iter().any(|u| obu_type(u) % 2 == 1);
        Ok(Case::new(hash_of(&units), nt, format!("{} units, {} bytes: {:?}", units.len(), d.len(), units)))
    });
    // all padding sizes through the first two size-field boundaries
    let mut sizes: Vec<u32> = (0..400).collect();
    sizes.extend(16370..16390);
    if r.tier_thorough { sizes.extend(400..16370); sizes.extend(2097140..2097156); } else { sizes.extend([510, 511, 512, 1023, 4095, 8192, 16000, 65535, 65536, 2097140, 2097146, 2097149, 2097150, 2097152]); }
    let sizes = &sizes;
    r.suite_exhaustive("padding-sizes", sizes.len() as u64, |rng, i, run| {
        let n = sizes[i as usize];
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        { let mut o = OBUEncoder::new(&e, &mut w, &mut c); o.encode_temporal_unit(&mut OBU::OBU_PADDING(n)); }
        w.flush().map_err(|e| e.to_string())?;
        let d = d.borrow();
        let (b, end) = unit_at(&d, 0).map_err(|m| format!("padding {}: {}", n, m))?;
        ensure_eq!(end, d.len(), "bytes of the unit with padding {}", n);
        check_obu(&bits::from_bytes(&b), &Unit::Pad(n))?;
        run.count("padding sizes", 1);
        Ok(Case::new(n as u64, true, format!("padding {} -> {} bytes", n, d.len())))
    });
    // frame headers and tile groups: the payload on its own, the OBU and the temporal unit, each from the same state
    let n = r.n(1000, 40000);
    r.suite("frames", n, |rng, _i, run| {
        let group = rng.bool();
        let state = rng.u64();
        let make = || -> (Rc<RefCell<EncoderContext>>, OBU) {
            let mut rng = Rng::new(state);
            let e = Rc::new(RefCell::new(EncoderContext::new()));
            if group {
                let (rows, cols) = (1 + rng.usize(4), 1 + rng.usize(4));
                let mut f = Frame::new(FrameType::KEY_FRAME, cols * 64, rows * 64);
                let cut = |n: usize| -> Vec<usize> { (0..n + 1).map(|x| x * 16).collect() };
                f.tile_row_starts = cut(rows)[..rows].to_vec();
                f.tile_col_starts = cut(cols)[..cols].to_vec();
                if rng.bool() { f.tile_groups = vec![0]; }
                {
                    let mut x = e.borrow_mut();
                    x.frame_is_intra = true;
                    x.num_planes = 3;
                    x.enable_cdef = false;
                    x.use_128x128_superblock = false;
                    x.mi_row_starts = cut(rows);
                    x.mi_col_starts = cut(cols);
                    x.frame_restoration_type = [FrameRestorationType::RESTORE_NONE; 3];
                    x.tile_size_bytes = 1 + rng.usize(4);
                    x.tg_start = rng.usize(rows * cols);
                    x.tg_end = x.tg_start + rng.usize(rows * cols - x.tg_start);
                    x.seen_frame_header = true;
                }
                (e, OBU::OBU_TILE_GROUP(f))
            } else {
                let mut cfg = random_seq(&mut rng);
                if let Some(f) = cfg.frame_id { if f.0 + f.1 > 16 { cfg.frame_id = Some((f.0.min(15), 1)); } }
                let s = normal(&cfg);
                let mut h = OBU::OBU_SEQUENCE_HEADER(build_seq(&cfg, &mut e.borrow_mut()));
                let mut w = BinaryWriter::verif_from(Box::new(Vec::new()));
                let mut c = BoolCoder::new();
                OBUEncoder::new(&e, &mut w, &mut c).encode_obu_payload(&mut h, &mut vec![]);
                let mut st = vec![Slot::new(); 8];
                for x in st.iter_mut() { x.dims = (s.max_w, s.max_h, s.max_w, s.max_h); }
                let c = random_cfg(&mut rng, &s, &st);
                let f = build_frame(&c, &s, &st, &mut e.borrow_mut());
                (e, OBU::OBU_FRAME_HEADER(f))
            }
        };
        let mut got = vec![];
        let (d, s) = sink(rng, 3);
        for k in 0..2 {
            let (e, mut obu) = make();
            let mut c = BoolCoder::new();
            let mut bits = vec![];
            let mut w = BinaryWriter::verif_from(Box::new(Vec::new()));
            let mut o = OBUEncoder::new(&e, &mut w, &mut c);
            if k == 0 { o.encode_obu_payload(&mut obu, &mut bits); } else { o.encode_obu(&mut obu, &mut bits); }
            got.push(bits);
        }
        {
            let (e, mut obu) = make();
            let mut c = BoolCoder::new();
            let mut w = BinaryWriter::verif_from(Box::new(s));
            OBUEncoder::new(&e, &mut w, &mut c).encode_temporal_unit(&mut obu);
        }
        let what = if group { "tile group" } else { "frame header" };
        let mut want = bits::f(if group { 4 << 3 } else { 3 << 3 }, 8);
        want.extend_from_slice(&got[0]);
        // a tile group ends with its last tile, everything else with trailing bits
        if !group { want.push(1); }
        while want.len() % 8 != 0 { want.push(0); }
        ensure!(!got[0].is_empty(), "a {} has no payload", what);
        if group { ensure_eq!(got[0].len() % 8, 0, "bits beyond a whole byte in a tile group"); }
        ensure!(got[1] == want, "the OBU of a {} is {} and not {}", what, bits::show(&got[1]), bits::show(&want));
        let d = d.borrow();
        let (b, end) = unit_at(&d, 0).map_err(|m| format!("temporal unit of a {}: {}", what, m))?;
        ensure_eq!(end, d.len(), "bytes of the temporal unit of a {}", what);
        ensure!(bits::from_bytes(&b) == want, "the temporal unit carries {} and not the {} {}", bits::show(&bits::from_bytes(&b)), what, bits::show(&want));
        run.count(if group { "tile groups framed" } else { "frame headers framed" }, 1);
        Ok(Case::new(hash_bytes(&d), true, format!("{} of {} bits", what, got[0].len())))
    });
    for k in ["frame headers framed", "tile groups framed", "temporal units split", "units with one-byte sizes", "units with multi-byte sizes", "units at the one-byte size limit", "units without payload", "padding sizes"] { r.require(k); }
    r.finish();
}
