//! C13: a sequence header OBU says exactly what was configured.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
use av1enc::binary_writer::BinaryWriter;
use av1enc::bool_coder::BoolCoder;
use av1enc::encoder::EncoderContext;
use av1enc::obu::OBU;
use av1enc::obu_encoder::OBUEncoder;
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut r = Runner::new("C13", "a case is a history of 1 to 4 sequence headers with random configurations (all profiles, sizes 1 to 65536 biased to powers of two, reduced still picture headers, timing and decoder models, operating points, color descriptions) coded by one encoder; each is parsed by an independent reader of the draft's syntax and compared field by field with the configuration after inference; non-trivial: the header differs from the default; distinct: by configuration");
    let one = |s: &Seq, e: &Rc<RefCell<EncoderContext>>, o: &mut OBUEncoder, rng: &mut Rng, run: &Runner| -> Result<Vec<u8>, String> {
        let h = build_seq(s, &mut e.borrow_mut());
        let mut obu = OBU::OBU_SEQUENCE_HEADER(h);
        let pre = rng.bytes(3).iter().map(|x| x & 1).collect::<Vec<u8>>();
        let mut out = pre.clone();
        o.encode_obu_payload(&mut obu, &mut out);
        ensure!(out.len() > 3 && out[..3] == pre[..], "what was already in the output changed");
        let body = out[3..].to_vec();
        let mut b = BitReader::new(&body);
        let got = parse_seq(&mut b).map_err(|m| format!("a decoder cannot read the header of {:?}: {} in {}", s, m, bits::show(&body)))?;
        let want = normal(s);
        if got != want { return Err(format!("a decoder reads {:?}, configured was {:?}", got, want)); }
        ensure!(b.left() == 0, "{} bits follow the header of {:?}", b.left(), s);
        // the encoder's own state agrees with what a decoder infers
        {
            let x = e.borrow(); let c = &x.color_config;
            ensure_eq!((c.subsampling_x, c.subsampling_y, c.color_range, c.mono_chrome, c.separate_uv_delta_q), (want.ssx, want.ssy, want.range, want.mono, want.sep_uv), "color configuration the encoder goes on with for {:?}", s);
            ensure_eq!((x.seq_force_screen_content_tools as u64, x.seq_force_integer_mv as u64), (want.force_sct, want.force_imv), "screen content settings the encoder goes on with for {:?}", s);
            ensure_eq!((x.enable_order_hint, x.enable_ref_frame_mvs, x.enable_warped_motion), (want.order_hint, want.ref_mvs, want.warped), "tools the encoder goes on with for {:?}", s);
            ensure_eq!(x.timing_info.as_ref().map(|t| (t.num_units_in_display_tick as u64, t.time_scale as u64, if t.equal_picture_interval { Some(t.num_ticks_per_picture as u64) } else { None })), want.timing, "timing information the encoder goes on with for {:?}", s);
            if want.mono || want.ssx && want.ssy { ensure_eq!(c.chroma_sample_position as u64, want.csp, "chroma sample position the encoder goes on with for {:?}", s); }
            ensure_eq!(c.color_description.is_some(), s.cd.is_some(), "color description after coding {:?}", s);
        }
        if let OBU::OBU_SEQUENCE_HEADER(ref h) = obu {
            ensure_eq!((h.max_frame_width as u64, h.max_frame_height as u64, h.profile as u64), (s.max_w, s.max_h, s.profile), "header object");
            ensure_eq!((h.still_picture, h.enable_filter_intra, h.enable_intra_edge_filter, h.enable_interintra_compound, h.enable_masked_compound, h.enable_dual_filter, h.enable_jnt_comp),
                (want.still, want.filter_intra, want.intra_edge, want.interintra, want.masked, want.dual, want.jnt), "tools in the header object after coding {:?}", s);
            ensure_eq!(h.decoder_model_info.is_some(), want.dmi.is_some(), "decoder model of the header object after coding {:?}", s);
            ensure_eq!(h.frame_id.as_ref().map(|f| (f.delta_frame_id_length as u64, f.additional_frame_id_length as u64)), s.frame_id, "frame id lengths in the header object");
        }
        {
            let x = e.borrow();
            ensure_eq!((x.use_128x128_superblock, x.enable_superres, x.enable_cdef, x.enable_restoration, x.frame_id_numbers_present_flag, x.num_planes), (want.sb128, want.superres, want.cdef, want.restoration, want.frame_id.is_some(), if want.mono { 1 } else { 3 }), "settings the encoder goes on with for {:?}", s);
            if let Some(f) = s.frame_id { ensure_eq!((x.delta_frame_id_length as u64, x.additional_frame_id_length as u64), f, "frame id lengths the encoder goes on with"); }
            // widths that hold the largest size
            ensure!(s.max_w - 1 < 1 << x.frame_width_bits && s.max_h - 1 < 1 << x.frame_height_bits, "sizes of {}x{} do not fit {} and {} bits", s.max_w, s.max_h, x.frame_width_bits, x.frame_height_bits);
        }
        let mut again = vec![];
        o.encode_obu_payload(&mut obu, &mut again);
        ensure!(again == body, "the same header coded again differs: {} then {}", bits::show(&body), bits::show(&again));
        run.count("headers parsed back", 2);
        if s.reduced { run.count("reduced still picture headers", 1); }
        if want.mono { run.count("monochrome headers", 1); }
        if want.cd == Some((1, 13, 0)) { run.count("sRGB headers", 1); }
        if !want.opdm.is_empty() { run.count("headers with decoder models", 1); }
        Ok(body)
    };
    let one = &one;
    let n = r.n(20000, 600000);
    r.suite("histories", n, |rng, _i, run| {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut c);
        let k = 1 + rng.usize(4);
        let mut key = 0; let mut desc = String::new();
        for _ in 0..k { let s = random_seq(rng); let b = one(&s, &e, &mut o, rng, run)?; key ^= hash_of(&s); if desc.is_empty() { desc = format!("{} bits: {:?}", b.len(), s); } }
        drop(o);
        ensure!(d.borrow().is_empty(), "coding a payload wrote to the output");
        Ok(Case::new(key, true, desc))
    });
    // every small size, every neighbourhood of a power of two
    let mut sizes: Vec<u64> = (1..300).collect();
    for k in 8..17 { for x in -2i64..3 { let v = (1i64 << k) + x; if v <= 65536 { sizes.push(v as u64); } } }
    let sizes = &sizes;
    r.suite_exhaustive("sizes", sizes.len() as u64 * 4, |rng, i, run| {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (_d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut c);
        let a = sizes[i as usize / 4]; let b = match i % 4 { 0 => a, 1 => 1, 2 => 65536, _ => 1 + rng.below(65536) };
        let mut s = random_seq(rng); s.max_w = if rng.bool() { a } else { b }; s.max_h = if s.max_w == a { b } else { a };
        one(&s, &e, &mut o, rng, run)?;
        Ok(Case::new(hash_of(&(s.max_w, s.max_h)), true, format!("{}x{}", s.max_w, s.max_h)))
    });
    // the header the program itself makes
    let n = r.n(2000, 20000);
    r.suite("default-header", n, |rng, _i, run| {
        let e = Rc::new(RefCell::new(EncoderContext::new()));
        let (_d, s) = sink(rng, 0);
        let mut w = BinaryWriter::verif_from(Box::new(s));
        let mut c = BoolCoder::new();
        let mut o = OBUEncoder::new(&e, &mut w, &mut c);
        let (x, y) = (1 + rng.edgy(8190), 1 + rng.edgy(8190));
        let mut obu = OBU::OBU_SEQUENCE_HEADER(av1enc::sequence_header::SequenceHeader::new(x as usize, y as usize));
        let mut out = vec![];
        o.encode_obu_payload(&mut obu, &mut out);
        let mut b = BitReader::new(&out);
        let got = parse_seq(&mut b)?;
        ensure!(b.left() == 0, "{} bits follow", b.left());
        ensure_eq!((got.max_w, got.max_h, got.profile, got.mono, got.ssx, got.ssy, got.high, got.reduced, got.ops.len()), (x, y, 0, false, true, true, false, false, 1), "default header of {}x{}", x, y);
        run.count("default headers", 1);
        Ok(Case::new(hash_of(&(x, y)), true, format!("{}x{}: {}", x, y, bits::show(&out))))
    });
    for k in ["headers parsed back", "reduced still picture headers", "monochrome headers", "sRGB headers", "headers with decoder models"] { r.require(k); }
    r.assume("the element order is that of the bitstream draft the project follows (the order its source lists), restated in harness/src/obus.rs");
    r.finish();
}
