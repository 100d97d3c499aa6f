//! C27: a stream of pictures decodes from its own headers: what the tiles carry is what the
//! sequence header and the frame header before them say.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
#[path = "../blockinfo.rs"] mod blockinfo;
#[path = "../tilesyntax.rs"] mod tilesyntax;
#[path = "../obus.rs"] mod obus;
#[path = "../fheader.rs"] mod fheader;
use av1enc::binary_writer::BinaryWriter;
use av1enc::block::{LRUnit, Superblock};
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::constants::ModeInfo;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use fheader::{build_frame, random_cfg, walk, Slot, Src, Walk};
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use syntax::*;
use tilesyntax::*;

/// what the caller put into the frame and the decoder cannot read: mode information, the way the
/// tiles are grouped
struct Picture { c: fheader::Cfg, mis: Vec<Vec<Option<ModeInfo>>>, bounds: Vec<(usize, usize)>, split: bool, delimiter: bool }

fn payload(b: &[u8], typ: u64) -> Result<Vec<u8>, String> {
    let b = bits::from_bytes(b);
    let mut r = BitReader::new(&b);
    ensure_eq!((r.f(1)?, r.f(4)?, r.f(3)?), (0, typ, 0), "OBU header");
    let body = b[8..].to_vec();
    if typ == 4 || body.is_empty() { return Ok(body); }
    let stop = body.iter().rposition(|x| *x == 1).ok_or("no trailing one bit")?;
    ensure!(body.len() - stop <= 8, "{} zero bits after the trailing one bit", body.len() - stop - 1);
    Ok(body[..stop].to_vec())
}
fn units(s: &Seq, o: &fheader::Out, sb: usize, i: usize, j: usize) -> Vec<(u64, usize, usize)> {
    let mut v = vec![];
    if o.intrabc { return v; }
    for p in 0..if s.mono { 1 } else { 3 } {
        if o.lr[p] == 0 { continue; }
        let (dx, dy) = if p == 0 { (0, 0) } else { (s.ssx as usize, s.ssy as usize) };
        let size = o.lrsize[p] as usize;
        let n = |len: usize, d: usize| { let l = if d == 1 { (len + 1) / 2 } else { len }; ((l + size / 2) / size).max(1) };
        let rows = (0..n(o.h as usize, dy)).filter(|u| { let y = u * size; y >= (i * sb) >> dy && y < ((i + 1) * sb) >> dy }).count();
        let cols = (0..n(o.up as usize, dx)).filter(|u| { let x = u * size * 8; x >= ((j * sb) >> dx) * o.denom as usize && x < (((j + 1) * sb) >> dx) * o.denom as usize }).count();
        v.push((o.lr[p], rows, cols));
    }
    v
}

fn stream(r: &mut Rng, run: &Runner) -> CaseResult {
    let mut cfg = random_seq(r);
    if let Some(f) = cfg.frame_id { if f.0 + f.1 > 16 { cfg.frame_id = Some((f.0.min(15), 1 + r.below(16 - f.0.min(15)))); } }
    let big = r.chance(1, 25);
    let edge = |r: &mut Rng| match if big { 9 } else { r.below(3) } { 9 => 300 + r.below(1200), 0 => 1 + r.below(300), 1 => 64 * (1 + r.below(5)), _ => 8 * (1 + r.below(40)) };
    cfg.max_w = edge(r); cfg.max_h = edge(r);
    let s = normal(&cfg);
    let sb = if s.sb128 { 128 } else { 64 };
    let n = sb / 4;
    let planes = if s.mono { 1 } else { 3 };
    let e = Rc::new(RefCell::new(EncoderContext::new()));
    let (d, sk) = sink(r, 4);
    let mut coder = BoolCoder::new();
    let mut pictures: Vec<Picture> = vec![];
    let fresh = { let mut st = vec![Slot::new(); 8]; for x in st.iter_mut() { x.dims = (s.max_w, s.max_h, s.max_w, s.max_h); } st };
    let mut st = fresh.clone();
    let keep = |st: &mut Vec<Slot>, w: &fheader::Out| for i in 0..8 {
        st[i].valid = w.valid[i];
        if w.typ == 0 && w.show { st[i].order_hint = 0; }
        if w.refresh >> i & 1 == 1 { st[i] = Slot { order_hint: w.oh, typ: w.typ, id: w.id, valid: true, gm: w.gm, feat: w.feat, lf: w.rd, md: w.md, grain: w.grain.clone().unwrap_or_default(), dims: (w.up, w.h, w.rw, w.rh) }; }
    };
    {
        let mut writer = BinaryWriter::verif_from(Box::new(sk));
        let mut o = OBUEncoder::new(&e, &mut writer, &mut coder);
        // the same encoder may have coded another sequence before
        if r.chance(1, 3) {
            let mut other = random_seq(r);
            if let Some(f) = other.frame_id { if f.0 + f.1 > 16 { other.frame_id = Some((f.0.min(15), 1)); } }
            other.max_w = 1 + r.below(300); other.max_h = 1 + r.below(300);
            let mut h = OBU::OBU_SEQUENCE_HEADER(build_seq(&other, &mut e.borrow_mut()));
            let mut junk = vec![];
            o.encode_obu_payload(&mut h, &mut junk);
            let s = normal(&other);
            let mut st = vec![Slot::new(); 8];
            for x in st.iter_mut() { x.dims = (s.max_w, s.max_h, s.max_w, s.max_h); }
            let c = random_cfg(r, &s, &st);
            let f = build_frame(&c, &s, &st, &mut e.borrow_mut());
            o.encode_obu_payload(&mut OBU::OBU_FRAME_HEADER(f), &mut junk);
            o.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut junk);
            run.count("earlier sequences of the same encoder", 1);
        }
        let mut h = OBU::OBU_SEQUENCE_HEADER(build_seq(&cfg, &mut e.borrow_mut()));
        o.encode_temporal_unit(&mut h);
        for _ in 0..if s.reduced { 1 } else { 1 + r.usize(3) } {
            let mut c = random_cfg(r, &s, &st);
            while c.existing || !(s.reduced || c.typ == 0 || c.typ == 2) { c = random_cfg(r, &s, &st); }
            // blocks are in segment 0 and of intra kind; their quantizer index is reached by the frame's steps
            c.feat[0][5] = None; c.feat[0][7] = None;
            c.q = c.q >> c.dqr << c.dqr;
            let want = walk(&mut Walk { src: Src::Told, log: vec![] }, &s, &st, &c)?;
            let (rows, cols) = (2 * ((want.h as usize + 7) >> 3), 2 * ((want.w as usize + 7) >> 3));
            let (nr, nc) = ((rows + n - 1) / n, (cols + n - 1) / n);
            let mut f = build_frame(&c, &s, &st, &mut e.borrow_mut());
            f.subsampling_x = s.ssx; f.subsampling_y = s.ssy;
            let mut mis: Vec<Vec<Option<ModeInfo>>> = (0..rows).map(|_| (0..cols).map(|_| Some(random_mi(r))).collect()).collect();
            for row in mis.iter_mut() { for m in row.iter_mut().flatten() { m.segment_id = if want.seg { r.usize(want.last_seg as usize + 1) } else { 0 }; } }
            f.mis = mis.clone();
            f.cdef_idx = vec![vec![r.range(-1, 3) as isize; cols + 64]; rows + 64];
            f.superblocks = (0..nr).map(|i| (0..nc).map(|j| {
                let mut x = Superblock::new(BS[size(n, n)], j * sb, i * sb);
                let list = units(&s, &want, sb, i, j);
                let mut it = list.iter();
                x.lr_units = (0..3).map(|p| if p < planes && want.lr[p] != 0 && !want.intrabc { let (_, a, b) = it.next().unwrap(); (0..*a).map(|_| (0..*b).map(|_| LRUnit { use_wiener: false, use_sgrproj: false, restoration_type: RT[0], lr_sgr_set: 0, lr_wiener: [[0; 3]; 2], lr_sgr_xqd: [0; 2] }).collect()).collect() } else { vec![] }).collect();
                x
            }).collect()).collect();
            f.lr_type = vec![vec![vec![RT[3]; 64]; 64]; 3];
            let nt = (want.rows.len() - 1) * (want.cols.len() - 1);
            let split = r.bool();
            let mut bounds = vec![];
            if split && nt > 1 { let mut a = 0; while a < nt { let b = a + r.usize((nt - a).min(4)); bounds.push((a, b)); a = b + 1; } } else { bounds.push((0, nt - 1)); }
            f.tile_groups = if split { bounds.iter().map(|b| b.0).collect() } else { vec![] };
            let delimiter = r.bool();
            if delimiter { o.encode_temporal_unit(&mut OBU::OBU_TEMPORAL_DELIMITER); } else { o.encode_temporal_unit(&mut OBU::OBU_PADDING(3)); }
            let mut header = OBU::OBU_FRAME_HEADER(f);
            o.encode_temporal_unit(&mut header);
            let f = match header { OBU::OBU_FRAME_HEADER(f) => f, _ => unreachable!() };
            let mut group = OBU::OBU_TILE_GROUP(f);
            for (a, b) in &bounds {
                { let mut x = e.borrow_mut(); x.tg_start = *a; x.tg_end = *b; }
                o.encode_temporal_unit(&mut group);
            }
            keep(&mut st, &want);
            pictures.push(Picture { c, mis, bounds, split, delimiter });
        }
    }

    // the decoder: nothing but the bytes, and what the caller kept to itself
    let d = d.borrow();
    let mut at = 0;
    let mut ev: BTreeMap<String, u64> = BTreeMap::new();
    let mut next = |typ: u64| -> Result<Vec<u8>, String> { ensure!(at < d.len(), "the stream ends early"); let (b, end) = unit_at(&d, at)?; at = end; ensure!(!b.is_empty(), "an empty OBU"); payload(&b, typ) };
    let b = next(1)?;
    let s2 = parse_seq(&mut BitReader::new(&b))?;
    ensure!(s2 == s, "the sequence header reads {:?} and not {:?}", s2, s);
    let mut st = fresh;
    let mut h = 0;
    for (i, p) in pictures.iter().enumerate() {
        let b = next(if p.delimiter { 2 } else { 15 })?;
        ensure!(b == vec![0; if p.delimiter { 0 } else { 24 }], "what is before picture {} has the payload {}", i, bits::show(&b));
        let b = next(3)?;
        let mut read = Walk { src: Src::Read(BitReader::new(&b)), log: vec![] };
        let got = walk(&mut read, &s2, &st, &p.c).map_err(|m| format!("header of picture {}: {}", i, m))?;
        if let Src::Read(ref b) = read.src { ensure!(b.left() == 0, "{} bits follow the header of picture {}", b.left(), i); }
        let log = |name: &str| read.log.iter().find(|x| x.0 == name).map(|x| x.1);
        let (rows, cols) = (2 * ((got.h as usize + 7) >> 3), 2 * ((got.w as usize + 7) >> 3));
        let (nr, nc) = ((rows + n - 1) / n, (cols + n - 1) / n);
        ensure_eq!((p.mis.len(), p.mis[0].len()), (rows, cols), "size of picture {} in units", i);
        let mut f = av1enc::frame::Frame::new(av1enc::constants::FrameType::KEY_FRAME, 8, 8);
        f.mis = p.mis.clone(); f.allow_intrabc = got.intrabc;
        let lfs = if !got.dlp { 0 } else if !got.dlm { 1 } else if planes > 1 { 4 } else { 2 };
        let mut w = World { f, rows, cols, r0: 0, r1: 0, c0: 0, c1: 0, use128: s2.sb128, planes, enabled: got.seg, pre: got.pre_skip, last: got.last_seg as usize, skip0: got.seg && got.feat[0][6].is_some(), cdef_off: got.coded_ll || !s2.cdef || got.intrabc,
            cbits: got.cdef.1 as u32, grid: vec![vec![-1; cols + 64]; rows + 64], dq: if got.dqp { Some((got.dqr as u32, lfs, got.dlm)) } else { None }, base: got.q as i64, q: 0, need: false, frozen: log("disable_cdf_update") == Some(1) };
        let off = (0..nr).map(|i| (0..nc).map(|j| units(&s2, &got, sb, i, j).iter().map(|u| (u.0, u.1 * u.2)).collect()).collect()).collect();
        let k = Cuts { rs: got.rows.iter().map(|x| *x as usize).collect(), cs: got.cols.iter().map(|x| *x as usize).collect(), restored: false, units: vec![], off };
        let bytes = log("tile_size_bytes_minus_1").unwrap_or(0) as usize + 1;
        for (a, b) in &p.bounds {
            let body = next(4)?;
            if !read_group(&mut w, &k, &body, *a, *b, p.split, bytes, &mut ev).map_err(|m| format!("picture {}: {}", i, m))? { return Ok(Case::new(0, false, "a tile may not fit its size field".into())); }
            h ^= hash_bytes(&body).rotate_left(i as u32);
        }
        for (name, yes) in [("pictures", true), ("pictures of several tiles", k.count() > 1), ("pictures of several tile groups", p.bounds.len() > 1), ("segmented pictures", got.seg), ("pictures with fixed probabilities", w.frozen), ("pictures with quantizer deltas", got.dqp), ("pictures with CDEF", !w.cdef_off), ("restored pictures", got.uses_lr), ("scaled pictures", got.denom > 8), ("intra-only pictures", got.typ == 2), ("monochrome pictures", s2.mono)] { if yes { *ev.entry(name.into()).or_insert(0) += 1; } }
        keep(&mut st, &got);
    }
    ensure_eq!(at, d.len(), "bytes after the last picture");
    run.count_all(&ev);
    Ok(Case::new(h ^ hash_of(&cfg), true, format!("{} pictures of {}x{} at most, {} bytes", pictures.len(), s.max_w, s.max_h, d.len())))
}

fn main() {
    let mut r = Runner::new("C27", "a case is a stream: a sequence header and one to three intra pictures with random frame headers (size, superres, tiles, segmentation, deltas, CDEF, restoration), each followed by its tile groups, written as temporal units by one encoder; an independent decoder reads the bytes, takes everything from the headers it reads, and parses every tile; distinct: by tiles and sequence header");
    for k in ["pictures", "pictures of several tiles", "pictures of several tile groups", "segmented pictures", "pictures with fixed probabilities", "pictures with quantizer deltas", "pictures with CDEF", "restored pictures", "scaled pictures", "intra-only pictures", "monochrome pictures", "restoration units", "deltas", "CDEF index"] { r.require(k); }
    let n = r.n(500, 30_000);
    r.suite("streams", n, |rng, _i, run| stream(rng, run));
    r.assume("blocks carry default settings (the encoder's partition search does not choose any yet, so the quantizer index of every block is 0 before clipping); the mode information of neighbours is what the frame records; restoration units are off; tiles fit their size fields");
    r.finish();
}
