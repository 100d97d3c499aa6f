//! C14: a frame header says exactly what was configured, given the sequence header and references.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
#[path = "../fheader.rs"] mod fheader;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use fheader::*;
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::cell::RefCell;
use std::rc::Rc;

fn frame_seq(rng: &mut Rng, kind: u64) -> Seq {
    let mut s = random_seq(rng);
    if let Some(f) = s.frame_id { if f.0 + f.1 > 16 { s.frame_id = Some((f.0.min(15), 1 + rng.below(16 - f.0.min(15)))); } }
    match kind {
        0 => { s.max_w = 1 + rng.edgy(400); s.max_h = 1 + rng.edgy(400); }
        1 => { s.max_w = 1 + rng.edgy(9000); s.max_h = 1 + rng.edgy(9000); }
        2 => { s.max_w = 65536 - rng.below(3); }
        _ => {}
    }
    s
}

fn main() {
    let mut r = Runner::new("C14", "a case is a session of one encoder: a sequence header (after other sequences or not), then up to 8 frame headers of all types, with the references, identifiers, segmentation data, filter deltas, global motion and film grain of the earlier ones; each header is read back by an independent walk over the draft's uncompressed_header and compared element by element with the configuration, and the encoder's derived state (tile boundaries, sizes, sign biases, lossless segments, skip mode frames, ...) with what the decoder infers; non-trivial: more than one header; distinct: by the configurations");
    let session = |rng: &mut Rng, run: &Runner, kind: u64| -> CaseResult {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (d, sk) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(sk));
        let mut coder = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut coder);
        // the same encoder may have coded other sequences before, with a frame or two
        for _ in 0..if rng.chance(1, 3) { 1 + rng.usize(2) } else { 0 } {
            let cfg = frame_seq(rng, kind);
            let s = normal(&cfg);
            let mut junk = vec![];
            let mut h = OBU::OBU_SEQUENCE_HEADER(build_seq(&cfg, &mut e.borrow_mut()));
            o.encode_obu_payload(&mut h, &mut junk);
            let mut st = vec![Slot::new(); 8];
            for x in st.iter_mut() { x.dims = (s.max_w, s.max_h, s.max_w, s.max_h); }
            for _ in 0..rng.usize(3) {
                o.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut junk);
                let c = random_cfg(rng, &s, &st);
                let f = build_frame(&c, &s, &st, &mut e.borrow_mut());
                o.encode_obu_payload(&mut OBU::OBU_FRAME_HEADER(f), &mut junk);
            }
            o.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut junk);
            run.count("earlier sequences of the same encoder", 1);
        }
        let cfg = frame_seq(rng, kind);
        let s = normal(&cfg);
        let mut h = OBU::OBU_SEQUENCE_HEADER(build_seq(&cfg, &mut e.borrow_mut()));
        let mut out = vec![];
        o.encode_obu_payload(&mut h, &mut out);
        let mut st = vec![Slot::new(); 8];
        for x in st.iter_mut() { x.dims = (s.max_w, s.max_h, s.max_w, s.max_h); }
        if rng.bool() { for x in st.iter_mut() { x.order_hint = if s.ohb > 0 { rng.below(1 << s.ohb) } else { 0 }; x.valid = rng.bool(); x.typ = rng.below(4); if let Some(f) = s.frame_id { x.id = rng.below(1 << (f.0 + f.1)); } } }
        let n = if s.reduced { 1 + rng.usize(2) } else { 1 + rng.usize(8) };
        let mut key = hash_of(&cfg); let mut desc = String::new(); let mut must_delimit = false;
        for k in 0..n {
            // a temporal delimiter starts a new frame; after a shown existing frame none is needed
            if must_delimit || rng.bool() { let mut t = vec![]; o.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut t); ensure!(t.is_empty(), "a temporal delimiter has a payload"); }
            let c = random_cfg(rng, &s, &st);
            let f = build_frame(&c, &s, &st, &mut e.borrow_mut());
            let mut obu = OBU::OBU_FRAME_HEADER(f);
            let pre: Vec<u8> = rng.bytes(5).iter().map(|x| x & 1).collect();
            let mut out = pre.clone();
            o.encode_obu_payload(&mut obu, &mut out);
            ensure!(out.len() >= 5 && out[..5] == pre[..], "what was already in the output changed");
            let body = out[5..].to_vec();
            ensure!(!body.is_empty(), "header {} of the session has no payload: {:?}", k, c);
            let mut told = Walk { src: Src::Told, log: vec![] };
            let want = walk(&mut told, &s, &st, &c)?;
            let mut read = Walk { src: Src::Read(BitReader::new(&body)), log: vec![] };
            let got = walk(&mut read, &s, &st, &c);
            for (i, (a, b)) in told.log.iter().zip(read.log.iter()).enumerate() {
                ensure!(a == b, "header {}, element {}: a decoder reads {} = {}, configured is {} = {}; before it {:?}; {:?} {:?}", k, i, b.0, b.1, a.0, a.1, &told.log[i.saturating_sub(3)..i], s, c);
            }
            let got = got.map_err(|m| format!("header {}: a decoder fails: {}; {:?} {:?}", k, m, s, c))?;
            ensure_eq!(told.log.len(), read.log.len(), "elements in header {} of {:?} {:?}", k, s, c);
            ensure!(got == want, "header {}: a decoder infers {:?} instead of {:?}", k, got, want);
            if let Src::Read(ref b) = read.src { ensure!(b.left() == 0, "{} bits follow header {}: {:?} {:?}", b.left(), k, s, c); }
            let f = match obu { OBU::OBU_FRAME_HEADER(f) => f, _ => return Err("HARNESS".into()) };
            check_state(&want, &f, &e.borrow(), &s).map_err(|m| format!("header {}: {}; {:?} {:?}", k, m, s, c))?;
            run.count("frame headers", 1); run.count("syntax elements compared", told.log.len() as u64);
            for (name, yes) in [("existing frames shown", want.existing), ("key frames", !want.existing && want.typ == 0), ("inter frames", !want.existing && want.typ == 1), ("intra-only frames", !want.existing && want.typ == 2), ("switch frames", !want.existing && want.typ == 3),
                ("superres", !want.existing && want.denom > 8), ("several tiles", want.cl2 + want.rl2 > 0), ("tile columns below a power of two", want.cols.len() > 1 && want.cols.len() - 1 < 1 << want.cl2), ("frames that need several tiles", want.cl2 > 0 && tiles(want.w, want.h, &s).minc > 0),
                ("segmentation", want.seg), ("lossless frames", want.coded_ll), ("partly lossless frames", !want.coded_ll && want.lossless.contains(&true)), ("intra block copy", want.intrabc), ("skip mode frames", want.skf.is_some()), ("loop restoration", want.uses_lr),
                ("global motion", want.gmt.iter().any(|t| *t > 0)), ("film grain", want.grain.as_ref().map_or(false, |g| g.apply)), ("short reference signaling", c.short && told.log.iter().any(|x| x.0 == "last_frame_idx")), ("sizes from a reference", told.log.iter().any(|x| x.0 == "found_ref")),
                ("explicit order hints", told.log.iter().any(|x| x.0 == "ref_order_hint")), ("frame ids", s.frame_id.is_some()), ("buffer removal delays", told.log.iter().any(|x| x.0 == "buffer_removal_delay")), ("backward references", want.bias.contains(&1))] { if yes { run.count(name, 1); } }
            key ^= hash_of(&c).rotate_left(k as u32 + 1);
            if desc.is_empty() { desc = format!("{} bits, {} elements, {:?}", body.len(), told.log.len(), told.log.iter().take(12).collect::<Vec<_>>()); }
            must_delimit = !want.existing;
            // the caller stores the frame in the refreshed slots
            if want.existing { continue; }
            for i in 0..8 {
                st[i].valid = want.valid[i];
                if want.typ == 0 && want.show { st[i].order_hint = 0; }
                if want.refresh >> i & 1 == 1 {
                    st[i] = Slot { order_hint: want.oh, typ: want.typ, id: want.id, valid: true, gm: want.gm, feat: want.feat, lf: want.rd, md: want.md, grain: want.grain.clone().unwrap_or_default(), dims: (want.up, want.h, want.rw, want.rh) };
                }
            }
        }
        drop(o);
        ensure!(d.borrow().is_empty(), "coding a payload wrote to the output");
        Ok(Case::new(key, n > 1, desc))
    };
    let session = &session;
    let n = r.n(150000, 6000000);
    r.suite("sessions", n, |rng, i, run| session(rng, run, i % 4));
    for k in ["frame headers", "existing frames shown", "key frames", "inter frames", "intra-only frames", "switch frames", "superres", "several tiles", "tile columns below a power of two", "frames that need several tiles", "segmentation", "lossless frames", "partly lossless frames", "intra block copy", "skip mode frames",
        "loop restoration", "global motion", "film grain", "short reference signaling", "sizes from a reference", "explicit order hints", "frame ids", "buffer removal delays", "backward references", "earlier sequences of the same encoder"] { r.require(k); }
    r.assume("tiles are uniformly spaced; a frame whose size override is set and which is not error resilient has the size of its first reference; the caller keeps the reference slots (the project has no reference update process yet)");
    r.finish();
}
