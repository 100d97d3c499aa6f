//! Generators, builders and an independent parser for sequence headers, metadata and OBU framing.
use av1enc::constants::*;
use av1enc::encoder::EncoderContext;
use av1enc::frame::FilmGrainParams;
use av1enc::obu::*;
use av1enc::sequence_header::*;
use mon::bits::BitReader;
use mon::*;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

use av1enc::constants::ColorPrimaries::*;
use av1enc::constants::MatrixCoefficients::*;
use av1enc::constants::TransferCharacteristics::*;
pub const CP: [(ColorPrimaries, u64); 12] = [(CP_BT_709, 1), (CP_UNSPECIFIED, 2), (CP_BT_470_M, 4), (CP_BT_470_B_G, 5), (CP_BT_601, 6), (CP_SMPTE_240, 7), (CP_GENERIC_FILM, 8), (CP_BT_2020, 9), (CP_XYZ, 10), (CP_SMPTE_431, 11), (CP_SMPTE_432, 12), (CP_EBU_3213, 22)];
pub const TC: [(TransferCharacteristics, u64); 19] = [(TC_RESERVED_0, 0), (TC_BT_709, 1), (TC_UNSPECIFIED, 2), (TC_RESERVED_3, 3), (TC_BT_470_M, 4), (TC_BT_470_B_G, 5), (TC_BT_601, 6), (TC_SMPTE_240, 7), (TC_LINEAR, 8), (TC_LOG_100, 9), (TC_LOG_100_SQRT10, 10), (TC_IEC_61966, 11), (TC_BT_1361, 12), (TC_SRGB, 13), (TC_BT_2020_10_BIT, 14), (TC_BT_2020_12_BIT, 15), (TC_SMPTE_2084, 16), (TC_SMPTE_428, 17), (TC_HLG, 18)];
pub const MC: [(MatrixCoefficients, u64); 15] = [(MC_IDENTITY, 0), (MC_BT_709, 1), (MC_UNSPECIFIED, 2), (MC_RESERVED_3, 3), (MC_FCC, 4), (MC_BT_470_B_G, 5), (MC_BT_601, 6), (MC_SMPTE_240, 7), (MC_SMPTE_YCGCO, 8), (MC_BT_2020_NCL, 9), (MC_BT_2020_CL, 10), (MC_SMPTE_2085, 11), (MC_CHROMAT_NCL, 12), (MC_CHROMAT_CL, 13), (MC_ICTCP, 14)];
pub const CSP: [ChromaSamplePosition; 4] = [ChromaSamplePosition::CSP_UNKNOWN, ChromaSamplePosition::CSP_VERTICAL, ChromaSamplePosition::CSP_COLOCATED, ChromaSamplePosition::CSP_RESERVED];

/// What a sequence header says, after a decoder has inferred what is not coded.
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Seq {
    pub profile: u64, pub still: bool, pub reduced: bool, pub ops: Vec<(u64, u64, Option<bool>)>, pub max_w: u64, pub max_h: u64, pub frame_id: Option<(u64, u64)>,
    pub sb128: bool, pub filter_intra: bool, pub intra_edge: bool, pub interintra: bool, pub masked: bool, pub warped: bool, pub dual: bool, pub order_hint: bool, pub jnt: bool, pub ref_mvs: bool,
    pub choose_sct: bool, pub force_sct: u64, pub choose_imv: bool, pub force_imv: u64, pub ohb: u64, pub superres: bool, pub cdef: bool, pub restoration: bool,
    pub high: bool, pub twelve: bool, pub mono: bool, pub cd: Option<(u64, u64, u64)>, pub range: bool, pub ssx: bool, pub ssy: bool, pub csp: u64, pub sep_uv: bool,
    pub timing: Option<(u64, u64, Option<u64>)>, pub dmi: Option<(u64, u64, u64, u64, u64, u64)>, pub opdm: Vec<(u64, Option<u64>, Option<(u64, u64, bool, u64, u64, bool)>)>, pub grain: bool,
}

pub fn random_seq(r: &mut Rng) -> Seq {
    let dim = |r: &mut Rng| match r.below(4) { 0 => 1 + r.below(20), 1 => { let k = r.below(16); ((1i64 << k) + r.range(-1, 2)).clamp(1, 65536) as u64 }, 2 => 65536 - r.below(3), _ => 1 + r.below(8191) };
    let reduced = r.chance(1, 4);
    let profile = r.below(3);
    let nops = if r.bool() { 1 } else { 1 + r.usize(32) };
    let timing = if r.bool() { None } else { Some((r.edgy((1 << 32) - 1), r.edgy((1 << 32) - 1), if r.bool() { None } else { Some(1 + r.edgy((1 << 32) - 2)) })) };
    let dmi = if timing.is_some() && r.chance(2, 3) { Some((r.below(16), r.below(16), 1 + r.below(32), r.edgy((1 << 32) - 1), 1 + r.below(32), 1 + r.below(32))) } else { None };
    let n = dmi.map_or(0, |d| d.2);
    let m = if r.bool() { 0 } else { 1 + r.usize(32) };
    let cd = match r.below(4) { 0 => None, 1 => Some((1, 13, 0)), 2 => { let mut t = [1, 13, 0]; let k = r.usize(3); t[k] = [r.pick(&CP).1, r.pick(&TC).1, r.pick(&MC).1][k]; Some((t[0], t[1], t[2])) }, _ => Some((r.pick(&CP).1, r.pick(&TC).1, r.pick(&MC).1)) };
    let mut s = Seq {
        profile, still: r.bool(), reduced, ops: (0..nops).map(|_| { let l = r.below(32); (r.below(4096), l, if l > 7 { Some(r.bool()) } else { None }) }).collect(),
        max_w: dim(r), max_h: dim(r), frame_id: if r.bool() || reduced { None } else { Some((2 + r.below(16), 1 + r.below(8))) },
        sb128: r.bool(), filter_intra: r.bool(), intra_edge: r.bool(), interintra: r.bool(), masked: r.bool(), warped: r.bool(), dual: r.bool(), order_hint: r.bool(), jnt: r.bool(), ref_mvs: r.bool(),
        choose_sct: r.bool(), force_sct: r.below(2), choose_imv: r.bool(), force_imv: r.below(2), ohb: 1 + r.below(8), superres: r.bool(), cdef: r.bool(), restoration: r.bool(),
        high: r.bool(), twelve: r.bool(), mono: r.chance(1, 3), cd, range: r.bool(), ssx: r.bool(), ssy: r.bool(), csp: r.below(4), sep_uv: r.bool(),
        timing, dmi, grain: r.bool(),
        opdm: (0..m).map(|_| (r.below(4096), if r.bool() { None } else { Some(1 + r.below(16)) }, if n == 0 || r.bool() { None } else {
            let lim = if n == 32 { (1u64 << 32) - 1 } else { (1 << n) - 1 };
            Some((1 + r.edgy((1 << 32) - 2), 1 + r.edgy((1 << 32) - 2), r.bool(), r.edgy(lim), r.edgy(lim), r.bool())) })).collect(),
    };
    if reduced && r.bool() { s.still = true; }
    s
}

/// the same header after inference of everything that is not coded
pub fn normal(s: &Seq) -> Seq {
    let mut s = s.clone();
    if s.reduced {
        s.ops = vec![(0, s.ops[0].1, None)]; s.frame_id = None;
        s.interintra = false; s.masked = false; s.warped = false; s.dual = false; s.order_hint = false; s.jnt = false; s.ref_mvs = false;
        s.choose_sct = true; s.force_sct = 2; s.choose_imv = true; s.force_imv = 2; s.ohb = 0; s.timing = None;
    }
    if !s.order_hint { s.jnt = false; s.ref_mvs = false; s.ohb = 0; }
    if s.choose_sct { s.force_sct = 2; }
    if s.force_sct == 0 { s.choose_imv = true; }
    if s.choose_imv { s.force_imv = 2; }
    if s.timing.is_none() { s.dmi = None; }
    if s.dmi.is_none() { for o in s.opdm.iter_mut() { o.2 = None; } }
    if !(s.profile == 2 && s.high) { s.twelve = false; }
    if s.profile == 1 { s.mono = false; }
    if s.mono { s.ssx = true; s.ssy = true; s.csp = 0; s.sep_uv = false; }
    else if s.cd == Some((1, 13, 0)) { s.range = true; s.ssx = false; s.ssy = false; s.csp = 0; }
    else {
        match s.profile { 0 => { s.ssx = true; s.ssy = true; } 1 => { s.ssx = false; s.ssy = false; } _ => if s.twelve { if !s.ssx { s.ssy = false; } } else { s.ssx = true; s.ssy = false; } }
        if !(s.ssx && s.ssy) { s.csp = 0; }
    }
    s
}

/// a decoder's view of the bits, written from the draft
pub fn parse_seq(b: &mut BitReader) -> Result<Seq, String> {
    let mut s = Seq { profile: b.f(3)?, still: b.flag()?, reduced: b.flag()?, ops: vec![], max_w: 0, max_h: 0, frame_id: None, sb128: false, filter_intra: false, intra_edge: false, interintra: false, masked: false, warped: false, dual: false,
        order_hint: false, jnt: false, ref_mvs: false, choose_sct: true, force_sct: 2, choose_imv: true, force_imv: 2, ohb: 0, superres: false, cdef: false, restoration: false, high: false, twelve: false, mono: false, cd: None, range: false,
        ssx: false, ssy: false, csp: 0, sep_uv: false, timing: None, dmi: None, opdm: vec![], grain: false };
    if s.reduced { s.ops.push((0, b.f(5)?, None)); } else {
        let n = b.f(5)? + 1;
        for _ in 0..n { let idc = b.f(12)?; let l = b.f(5)?; s.ops.push((idc, l, if l > 7 { Some(b.flag()?) } else { None })); }
    }
    let (wb, hb) = (b.f(4)? as usize + 1, b.f(4)? as usize + 1);
    s.max_w = b.f(wb)? + 1; s.max_h = b.f(hb)? + 1;
    if !s.reduced && b.flag()? { s.frame_id = Some((b.f(4)? + 2, b.f(3)? + 1)); }
    s.sb128 = b.flag()?; s.filter_intra = b.flag()?; s.intra_edge = b.flag()?;
    if !s.reduced {
        s.interintra = b.flag()?; s.masked = b.flag()?; s.warped = b.flag()?; s.dual = b.flag()?; s.order_hint = b.flag()?;
        if s.order_hint { s.jnt = b.flag()?; s.ref_mvs = b.flag()?; }
        s.choose_sct = b.flag()?;
        s.force_sct = if s.choose_sct { 2 } else { b.bit()? };
        if s.force_sct > 0 { s.choose_imv = b.flag()?; s.force_imv = if s.choose_imv { 2 } else { b.bit()? }; }
        if s.order_hint { s.ohb = b.f(3)? + 1; }
    }
    s.superres = b.flag()?; s.cdef = b.flag()?; s.restoration = b.flag()?;
    s.high = b.flag()?;
    if s.profile == 2 && s.high { s.twelve = b.flag()?; }
    if s.profile != 1 { s.mono = b.flag()?; }
    if b.flag()? { s.cd = Some((b.f(8)?, b.f(8)?, b.f(8)?)); }
    if s.mono { s.range = b.flag()?; s.ssx = true; s.ssy = true; }
    else {
        if s.cd == Some((1, 13, 0)) { s.range = true; }
        else {
            s.range = b.flag()?;
            match s.profile { 0 => { s.ssx = true; s.ssy = true; } 1 => {} _ => if s.twelve { s.ssx = b.flag()?; if s.ssx { s.ssy = b.flag()?; } } else { s.ssx = true; } }
            if s.ssx && s.ssy { s.csp = b.f(2)?; }
        }
        s.sep_uv = b.flag()?;
    }
    if !s.reduced && b.flag()? {
        let (t, c) = (b.f(32)?, b.f(32)?);
        s.timing = Some((t, c, if b.flag()? { Some(b.uvlc()? + 1) } else { None }));
        if b.flag()? { s.dmi = Some((b.f(4)?, b.f(4)?, b.f(5)? + 1, b.f(32)?, b.f(5)? + 1, b.f(5)? + 1)); }
    }
    if b.flag()? {
        let n = b.f(5)? + 1;
        for _ in 0..n {
            let idc = b.f(12)?;
            let idd = if b.flag()? { Some(b.f(4)? + 1) } else { None };
            let mut opi = None;
            if let Some(d) = s.dmi { if b.flag()? { let k = d.2 as usize; opi = Some((b.uvlc()? + 1, b.uvlc()? + 1, b.flag()?, b.f(k)?, b.f(k)?, b.flag()?)); } }
            s.opdm.push((idc, idd, opi));
        }
    }
    s.grain = b.flag()?;
    Ok(s)
}

/// the project's objects for a header
pub fn build_seq(s: &Seq, e: &mut EncoderContext) -> SequenceHeader {
    let mut h = SequenceHeader::new(s.max_w as usize, s.max_h as usize);
    h.profile = s.profile as u8; h.still_picture = s.still; e.reduced_still_picture_header = s.reduced;
    h.operating_points = s.ops.iter().map(|o| OperatingPoint { idc: o.0 as u16, seq_level_idx: o.1 as u8, seq_tier: o.2 }).collect();
    h.frame_id = s.frame_id.map(|f| FrameID { delta_frame_id_length: f.0 as u8, additional_frame_id_length: f.1 as u8 });
    e.use_128x128_superblock = s.sb128; h.enable_filter_intra = s.filter_intra; h.enable_intra_edge_filter = s.intra_edge; h.enable_interintra_compound = s.interintra;
    h.enable_masked_compound = s.masked; e.enable_warped_motion = s.warped; h.enable_dual_filter = s.dual; e.enable_order_hint = s.order_hint; h.enable_jnt_comp = s.jnt; e.enable_ref_frame_mvs = s.ref_mvs;
    h.seq_choose_screen_content_tools = s.choose_sct; e.seq_force_screen_content_tools = s.force_sct as usize; h.seq_choose_integer_mv = s.choose_imv; e.seq_force_integer_mv = s.force_imv as usize;
    e.order_hint_bits = s.ohb as u8; e.enable_superres = s.superres; e.enable_cdef = s.cdef; e.enable_restoration = s.restoration;
    let cc = &mut e.color_config;
    cc.high_bitdepth = s.high; cc.twelve_bit = s.twelve; cc.mono_chrome = s.mono;
    cc.color_description = s.cd.map(|c| ColorDescription { color_primaries: CP.iter().find(|x| x.1 == c.0).unwrap().0, transfer_characteristics: TC.iter().find(|x| x.1 == c.1).unwrap().0, matrix_coefficients: MC.iter().find(|x| x.1 == c.2).unwrap().0 });
    cc.color_range = s.range; cc.subsampling_x = s.ssx; cc.subsampling_y = s.ssy; cc.chroma_sample_position = CSP[s.csp as usize]; cc.separate_uv_delta_q = s.sep_uv;
    e.timing_info = s.timing.map(|t| TimingInfo { num_units_in_display_tick: t.0 as u32, time_scale: t.1 as u32, equal_picture_interval: t.2.is_some(), num_ticks_per_picture: t.2.unwrap_or(1) as u32 });
    h.decoder_model_info = s.dmi.map(|d| DecoderModelInfo { bitrate_scale: d.0 as u8, buffer_size_scale: d.1 as u8, encoder_decoder_buffer_delay_length: d.2 as u8, num_units_in_decoding_tick: d.3 as u32,
        buffer_removal_delay: 0, buffer_removal_delay_length: d.4 as u8, buffer_removal_delay_present: false, frame_presentation_delay_length: d.5 as u8 });
    e.operating_points_decoder_model = s.opdm.iter().map(|o| OperatingPointsDecoderModel { idc: o.0 as u16, initial_display_delay: o.1.map(|x| x as u8),
        operating_parameters_info: o.2.map(|p| OperatingParametersInfo { bitrate: p.0 as u32, buffer_size: p.1 as u32, cbr_flag: p.2, decoder_buffer_delay: p.3 as u32, encoder_buffer_delay: p.4 as u32, low_delay_mode_flag: p.5 }) }).collect();
    e.film_grain_params = if s.grain { Some(FilmGrainParams::new()) } else { None };
    h
}

// ---------------------------------------------------------------- metadata
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Meta {
    T35 { cc: u16, pb: Vec<u16> },
    Cll(u16, u16),
    Mdcv([u16; 3], [u16; 3], u16, u16, u32, u32),
    Scal { mode: u8, dims: Vec<(u16, u16)>, descs: Vec<u8>, groups: Vec<(u8, u8, u8, Vec<u8>)> },
    Time { ct: u8, s: Option<u8>, m: Option<u8>, h: Option<u8>, len: u8, val: u32 },
}
use av1enc::obu::ScalabilityModeIdc::*;
pub const SM: [ScalabilityModeIdc; 15] = [SCALABILITY_L1T2, SCALABILITY_L1T3, SCALABILITY_L2T1, SCALABILITY_L2T2, SCALABILITY_L2T3, SCALABILITY_S2T1, SCALABILITY_S2T2, SCALABILITY_S2T3, SCALABILITY_L2T1h, SCALABILITY_L2T2h,
    SCALABILITY_L2T3h, SCALABILITY_S2T1h, SCALABILITY_S2T2h, SCALABILITY_S2T3h, SCALABILITY_SS];
pub fn random_meta(r: &mut Rng) -> Meta {
    match r.below(5) {
        0 => Meta::T35 { cc: if r.chance(1, 3) { 255 } else { r.below(256) as u16 }, pb: (0..r.usize(40)).map(|_| r.below(256) as u16).collect() },
        1 => Meta::Cll(r.edgy(65535) as u16, r.edgy(65535) as u16),
        2 => { let v = |r: &mut Rng| r.edgy(65535) as u16; Meta::Mdcv([v(r), v(r), v(r)], [v(r), v(r), v(r)], v(r), v(r), r.edgy((1 << 32) - 1) as u32, r.edgy((1 << 32) - 1) as u32) }
        3 => {
            let mode = if r.bool() { 14 } else { r.below(14) as u8 };
            let n = 1 + r.usize(4); let k = r.below(3);
            let dims = if k != 1 { (0..n).map(|_| (r.edgy(65535) as u16, r.edgy(65535) as u16)).collect() } else { vec![] };
            let descs = if k != 0 { (0..n).map(|_| r.u64() as u8).collect() } else { vec![] };
            let g = match r.below(4) { 0 => 0, 1 => 1, 2 => 255, _ => r.usize(20) };
            let groups = (0..g).map(|_| (r.below(8) as u8, r.below(2) as u8, r.below(2) as u8, (0..r.usize(8)).map(|_| r.u64() as u8).collect())).collect();
            if mode == 14 { Meta::Scal { mode, dims, descs, groups } } else { Meta::Scal { mode, dims: vec![], descs: vec![], groups: vec![] } }
        }
        _ => {
            let (s, m, h) = (r.below(60) as u8, r.below(60) as u8, r.below(24) as u8);
            let k = r.below(4);
            let len = match r.below(3) { 0 => 0, 1 => 31, _ => r.below(32) as u8 };
            Meta::Time { ct: r.below(32) as u8, s: if k > 0 { Some(s) } else { None }, m: if k > 1 { Some(m) } else { None }, h: if k > 2 { Some(h) } else { None }, len, val: if len == 0 { 0 } else { r.edgy((1 << len) - 1) as u32 } }
        }
    }
}
pub fn build_meta(m: &Meta) -> MetaData {
    match m.clone() {
        Meta::T35 { cc, pb } => MetaData::METADATA_TYPE_ITUT_T35 { country_code: cc, payload_bytes: pb },
        Meta::Cll(a, b) => MetaData::METADATA_TYPE_HDR_CLL { max_cll: a, max_fall: b },
        Meta::Mdcv(x, y, wx, wy, a, b) => MetaData::METADATA_TYPE_HDR_MDCV { primary_chromaticity_x: x, primary_chromaticity_y: y, white_point_chromaticity_x: wx, white_point_chromaticity_y: wy, luminance_max: a, luminance_min: b },
        Meta::Scal { mode, dims, descs, groups } => MetaData::METADATA_TYPE_SCALABILITY { mode_idc: SM[mode as usize], structure: if mode != 14 { None } else { Some(ScalabilityStructure {
            spatial_layer_dimensions: dims.into_iter().map(|d| SpatialLayerDimension { max_width: d.0, max_height: d.1 }).collect(),
            spatial_layer_descriptions: descs.into_iter().map(|d| SpatialLayerDescription { ref_id: d }).collect(),
            temporal_groups: groups.into_iter().map(|g| TemporalGroup { temporal_id: g.0, temporal_switching_up_point_flag: g.1, spatial_switching_up_point_flag: g.2, ref_pic_diffs: g.3 }).collect() }) } },
        Meta::Time { ct, s, m, h, len, val } => MetaData::METADATA_TYPE_TIMECODE { counting_type: ct, seconds: s, minutes: m, hours: h, time_offset_length: len, time_offset_value: val },
    }
}
/// reads one metadata payload; T.35 takes the rest of the payload
pub fn parse_meta(b: &mut BitReader) -> Result<Meta, String> {
    Ok(match b.leb128()? {
        1 => Meta::Cll(b.f(16)? as u16, b.f(16)? as u16),
        2 => {
            let (mut x, mut y) = ([0; 3], [0; 3]);
            for i in 0..3 { x[i] = b.f(16)? as u16; y[i] = b.f(16)? as u16; }
            Meta::Mdcv(x, y, b.f(16)? as u16, b.f(16)? as u16, b.f(32)? as u32, b.f(32)? as u32)
        }
        3 => {
            let mode = b.f(8)? as u8;
            let (mut dims, mut descs, mut groups) = (vec![], vec![], vec![]);
            if mode == 14 {
                let n = b.f(2)? + 1; let (hd, hs, hg) = (b.flag()?, b.flag()?, b.flag()?);
                if b.f(3)? != 0 { return Err("reserved bits of the scalability structure are set".into()); }
                if hd { for _ in 0..n { dims.push((b.f(16)? as u16, b.f(16)? as u16)); } }
                if hs { for _ in 0..n { descs.push(b.f(8)? as u8); } }
                if hg { for _ in 0..b.f(8)? { let (t, a, s) = (b.f(3)? as u8, b.f(1)? as u8, b.f(1)? as u8); let mut d = vec![]; for _ in 0..b.f(3)? { d.push(b.f(8)? as u8); } groups.push((t, a, s, d)); } }
            }
            Meta::Scal { mode, dims, descs, groups }
        }
        4 => {
            let cc = b.f(8)? as u16;
            if cc == 255 && b.f(8)? != 0 { return Err("country code extension".into()); }
            let mut pb = vec![];
            while b.left() >= 8 { pb.push(b.f(8)? as u16); }
            Meta::T35 { cc, pb }
        }
        5 => {
            let ct = b.f(5)? as u8;
            let (mut s, mut m, mut h) = (None, None, None);
            if b.flag()? { s = Some(b.f(6)? as u8); m = Some(b.f(6)? as u8); h = Some(b.f(5)? as u8); }
            else if b.flag()? { s = Some(b.f(6)? as u8); if b.flag()? { m = Some(b.f(6)? as u8); if b.flag()? { h = Some(b.f(5)? as u8); } } }
            let len = b.f(5)? as u8;
            Meta::Time { ct, s, m, h, len, val: b.f(len as usize)? as u32 }
        }
        t => return Err(format!("unknown metadata type {}", t)),
    })
}

// ---------------------------------------------------------------- sinks
/// A sink that misbehaves within the contract of `Write`: interrupts now and then.
pub struct Sink { pub data: Rc<RefCell<Vec<u8>>>, pub rng: Rng, pub interrupts: u64, pub den: u64, pub fail_at: Option<usize>, pub zero: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.den > 0 && self.rng.chance(1, self.den) { self.interrupts += 1; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if let Some(k) = self.fail_at { if self.data.borrow().len() >= k { return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "disk full")) }; } }
        if b.is_empty() { return Ok(0); }
        let mut n = 1 + self.rng.usize(b.len());
        if let Some(k) = self.fail_at { n = n.min(k - self.data.borrow().len()); }
        self.data.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn sink(rng: &mut Rng, den: u64) -> (Rc<RefCell<Vec<u8>>>, Sink) {
    let d = Rc::new(RefCell::new(vec![]));
    (d.clone(), Sink { data: d, rng: Rng::new(rng.u64()), interrupts: 0, den, fail_at: None, zero: false })
}
/// reads one temporal unit at `at` (bytes) and returns the bytes of its one OBU and the next position
pub fn unit_at(d: &[u8], at: usize) -> Result<(Vec<u8>, usize), String> {
    let leb = |p: &mut usize, end: usize, what: &str| -> Result<usize, String> {
        let mut v = 0u64;
        for i in 0..8 {
            ensure!(*p < end, "{} runs past its container", what);
            let x = d[*p]; *p += 1;
            v |= ((x & 127) as u64) << (7 * i);
            if x & 128 == 0 { return Ok(v as usize); }
        }
        Err(format!("{} has more than 8 bytes", what))
    };
    let mut p = at;
    let tu = leb(&mut p, d.len(), "temporal_unit_size")?;
    let tu_end = p + tu;
    ensure!(tu_end <= d.len(), "temporal unit of {} bytes at {}, only {} bytes follow", tu, at, d.len() - p);
    let fu = leb(&mut p, tu_end, "frame_unit_size")?;
    let fu_end = p + fu;
    ensure_eq!(fu_end, tu_end, "end of the frame unit");
    let n = leb(&mut p, fu_end, "obu_length")?;
    ensure_eq!(p + n, fu_end, "end of the OBU");
    Ok((d[p..fu_end].to_vec(), tu_end))
}
