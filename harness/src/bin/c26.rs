//! C26: a tile group carries its tiles: bounds, sizes and each tile's own session.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
#[path = "../blockinfo.rs"] mod blockinfo;
#[path = "../tilesyntax.rs"] mod tilesyntax;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use mon::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tilesyntax::*;

fn groups(r: &mut Rng, large: bool, run: &Runner) -> CaseResult {
    let (mut w, mut ecx) = if large { large_world(r) } else { world(r) };
    let k = cuts(r, &mut w, &mut ecx);
    let nt = k.count();
    // either one group of everything without bounds, or groups with bounds in order
    let split = r.chance(2, 3);
    let mut bounds = vec![];
    if split && nt > 1 {
        let mut a = 0;
        while a < nt { let b = if r.chance(1, 4) { nt - 1 } else { a + r.usize((nt - a).min(4)) }; bounds.push((a, b)); a = b + 1; }
    } else { bounds.push((0, nt - 1)); }
    w.f.tile_groups = if split { bounds.iter().map(|b| b.0).collect() } else { vec![] };
    let size_bytes = if large { 2 + r.usize(3) } else { 1 + r.usize(4) };
    ecx.tile_size_bytes = size_bytes;
    ecx.disable_frame_end_update_cdf = r.bool();
    ecx.seen_frame_header = true;
    let ectx = Rc::new(RefCell::new(ecx));
    let frame = std::mem::replace(&mut w.f, av1enc::frame::Frame::new(av1enc::constants::FrameType::KEY_FRAME, 8, 8));
    let mut obu = OBU::OBU_TILE_GROUP(frame);
    let mut writer = BinaryWriter::verif_from(Box::new(Vec::new()));
    let mut coder = BoolCoder::new();
    coder.disable_cdf_update = r.bool();
    let mut outs: Vec<(Vec<u8>, bool, usize, usize)> = vec![];
    {
        let mut oe = OBUEncoder::new(&ectx, &mut writer, &mut coder);
        for (a, b) in &bounds {
            { let mut e = ectx.borrow_mut(); if split && nt > 1 { e.tg_start = *a; e.tg_end = *b; } else { e.tg_start = r.usize(100); e.tg_end = r.usize(100); } e.tile_num = r.usize(100); }
            let mut out = vec![];
            oe.encode_obu_payload(&mut obu, &mut out);
            let e = ectx.borrow();
            outs.push((out, e.seen_frame_header, e.tg_start, e.tg_end));
        }
    }
    w.f = match obu { OBU::OBU_TILE_GROUP(f) => f, _ => unreachable!() };

    let mut ev = BTreeMap::new();
    let (mut h, mut bytes) = (0, 0);
    for (g, (a, b)) in bounds.iter().enumerate() {
        let (out, seen, s, e) = &outs[g];
        let at = format!("tile group {}..{} of {} tiles (rows {:?}, columns {:?})", a, b, nt, k.rs, k.cs);
        if !read_group(&mut w, &k, out, *a, *b, split, size_bytes, &mut ev)? { return Ok(Case::new(0, false, "a tile may not fit its size field".into())); }
        ensure_eq!((*s, *e), (*a, *b), "first and last tile after {}", at);
        ensure_eq!(*seen, *b != nt - 1, "frame header still in force after {}", at);
        h ^= hash_bytes(out);
        bytes += out.len() / 8;
    }
    ensure!(w.f.cdef_idx == w.grid, "CDEF indices after the tile groups (rows {:?}, columns {:?})", k.rs, k.cs);
    run.count_all(&ev);
    Ok(Case::new(h ^ hash_of(&(&k.rs, &k.cs, &bounds)), nt > 1, format!("{} tiles (rows {:?}, columns {:?}) in groups {:?}, sizes of {} bytes: {} bytes", nt, k.rs, k.cs, bounds, size_bytes, bytes)))
}

fn main() {
    let mut r = Runner::new("C26", "a case is a picture cut into tiles at random superblock boundaries and coded as one tile group or as consecutive groups by the real OBU encoder; each payload is parsed into bounds, sizes and tiles, and each tile is read back by an independent parser of the draft's tile syntax from the initial probabilities; non-trivial: several tiles; distinct: by payload, cuts and groups");
    for k in ["tiles of more than 256 bytes", "groups with bounds", "groups of all tiles of several", "single tiles", "tiles", "sizes of 1 bytes", "sizes of 2 bytes", "sizes of 3 bytes", "sizes of 4 bytes", "restoration units", "CDEF index", "deltas", "tiles with fixed probabilities"] { r.require(k); }
    let n = r.n(500, 30_000);
    r.suite("tile-groups", n, |rng, _i, run| groups(rng, false, run));
    let n = r.n(40, 1000);
    r.suite("large-pictures", n, |rng, _i, run| groups(rng, true, run));
    r.assume("blocks carry default settings (the encoder's partition search does not choose any yet, so the quantizer index of every block is 0 before clipping); the mode information of neighbours is what the frame records; tiles fit their size fields");
    r.finish();
}
