//! Frame headers: random configurations, the project's objects for them, and a decoder's walk over
//! the draft's uncompressed_header, which either reads bits or is told the configured values.
use crate::obus::*;
use av1enc::constants::FrameType;
use av1enc::constants::InterpFilter;
use av1enc::encoder::EncoderContext;
use av1enc::frame::{FilmGrainParams, Frame, TemporalPointInfo};
use av1enc::sequence_header::DecoderModelInfo;
use mon::bits::BitReader;
use mon::*;

pub const FT: [FrameType; 4] = [FrameType::KEY_FRAME, FrameType::INTER_FRAME, FrameType::INTRA_ONLY_FRAME, FrameType::SWITCH_FRAME];
pub const IFL: [InterpFilter; 5] = [InterpFilter::EIGHTTAP, InterpFilter::EIGHTTAP_SMOOTH, InterpFilter::EIGHTTAP_SHARP, InterpFilter::BILINEAR, InterpFilter::SWITCHABLE];
pub const GM0: [i64; 6] = [0, 0, 65536, 0, 0, 65536];
pub const LF0: [i64; 8] = [1, 0, 0, 0, -1, 0, -1, -1];
const FBITS: [usize; 8] = [8, 6, 6, 6, 6, 3, 0, 0];
const FMAX: [i64; 8] = [255, 63, 63, 63, 63, 7, 0, 0];
const FSIGNED: [bool; 8] = [true, true, true, true, true, false, false, false];

#[derive(Clone, Debug, PartialEq, Hash, Default)]
pub struct Grain {
    pub apply: bool, pub seed: u64, pub update: bool, pub ref_idx: u64, pub y: Vec<(u64, u64)>, pub from_luma: bool, pub cb: Vec<(u64, u64)>, pub cr: Vec<(u64, u64)>,
    pub scaling: u64, pub lag: u64, pub ay: Vec<i64>, pub ab: Vec<i64>, pub ar: Vec<i64>, pub shift: u64, pub scale_shift: u64, pub mb: (u64, u64, u64), pub mr: (u64, u64, u64), pub overlap: bool, pub clip: bool,
}
pub fn build_grain(g: &Grain) -> FilmGrainParams {
    let mut p = FilmGrainParams::new();
    let v = |x: &Vec<(u64, u64)>| (x.iter().map(|e| e.0 as u8).collect::<Vec<u8>>(), x.iter().map(|e| e.1 as u8).collect::<Vec<u8>>());
    p.apply_grain = g.apply; p.grain_seed = g.seed as u16; p.update_grain = g.update; p.film_grain_params_ref_idx = g.ref_idx as usize;
    p.num_y_points = g.y.len(); p.num_cb_points = g.cb.len(); p.num_cr_points = g.cr.len(); p.chroma_scaling_from_luma = g.from_luma;
    let t = v(&g.y); p.point_y_value = t.0; p.point_y_scaling = t.1; let t = v(&g.cb); p.point_cb_value = t.0; p.point_cb_scaling = t.1; let t = v(&g.cr); p.point_cr_value = t.0; p.point_cr_scaling = t.1;
    p.grain_scaling = g.scaling as usize; p.ar_coeff_lag = g.lag as usize; p.ar_coeff_shift = g.shift as usize; p.grain_scale_shift = g.scale_shift as usize;
    let w = |x: &Vec<i64>| x.iter().map(|e| *e as i16).collect::<Vec<i16>>();
    p.ar_coeffs_y = w(&g.ay); p.ar_coeffs_cb = w(&g.ab); p.ar_coeffs_cr = w(&g.ar);
    p.cb_mult = g.mb.0 as usize; p.cb_luma_mult = g.mb.1 as usize; p.cb_offset = g.mb.2 as usize; p.cr_mult = g.mr.0 as usize; p.cr_luma_mult = g.mr.1 as usize; p.cr_offset = g.mr.2 as usize;
    p.overlap_flag = g.overlap; p.clip_to_restricted_range = g.clip;
    p
}
/// what of film grain parameters has a meaning
pub fn sense(p: &FilmGrainParams) -> Grain {
    let z = |n: usize, a: &Vec<u8>, b: &Vec<u8>| (0..n).map(|i| (a[i] as u64, b[i] as u64)).collect::<Vec<_>>();
    let mut g = Grain { apply: p.apply_grain, seed: p.grain_seed as u64, ..Default::default() };
    if !p.apply_grain { return Grain::default(); }
    g.y = z(p.num_y_points, &p.point_y_value, &p.point_y_scaling); g.cb = z(p.num_cb_points, &p.point_cb_value, &p.point_cb_scaling); g.cr = z(p.num_cr_points, &p.point_cr_value, &p.point_cr_scaling);
    g.from_luma = p.chroma_scaling_from_luma; g.scaling = p.grain_scaling as u64; g.lag = p.ar_coeff_lag as u64; g.shift = p.ar_coeff_shift as u64; g.scale_shift = p.grain_scale_shift as u64;
    let n = 2 * p.ar_coeff_lag * (p.ar_coeff_lag + 1); let m = if p.num_y_points > 0 { n + 1 } else { n };
    let w = |n: usize, v: &Vec<i16>| v[..n].iter().map(|x| *x as i64).collect::<Vec<i64>>();
    if p.num_y_points > 0 { g.ay = w(n, &p.ar_coeffs_y); }
    if g.from_luma || p.num_cb_points > 0 { g.ab = w(m, &p.ar_coeffs_cb); }
    if g.from_luma || p.num_cr_points > 0 { g.ar = w(m, &p.ar_coeffs_cr); }
    if p.num_cb_points > 0 { g.mb = (p.cb_mult as u64, p.cb_luma_mult as u64, p.cb_offset as u64); }
    if p.num_cr_points > 0 { g.mr = (p.cr_mult as u64, p.cr_luma_mult as u64, p.cr_offset as u64); }
    g.overlap = p.overlap_flag; g.clip = p.clip_to_restricted_range;
    g
}
pub fn random_grain(r: &mut Rng, s: &Seq) -> Grain {
    let pts = |r: &mut Rng, n: usize| { let mut v: Vec<u64> = (0..n).map(|_| r.below(256)).collect(); v.sort(); v.dedup(); v.into_iter().map(|x| (x, r.below(256))).collect::<Vec<_>>() };
    let (ny, nb, nr) = (match r.below(4) { 0 => 0, 1 => 14, _ => r.usize(15) }, r.usize(11), r.usize(11));
    let mut g = Grain { apply: r.chance(3, 4), seed: r.edgy(65535), update: r.bool(), ref_idx: 0, y: pts(r, ny), from_luma: r.chance(1, 3), cb: pts(r, nb), cr: pts(r, nr), scaling: 8 + r.below(4), lag: r.below(4),
        ay: (0..24).map(|_| r.range(-128, 127)).collect(), ab: (0..25).map(|_| r.range(-128, 127)).collect(), ar: (0..25).map(|_| r.range(-128, 127)).collect(), shift: 6 + r.below(4), scale_shift: r.below(4),
        mb: (r.below(256), r.below(256), r.below(512)), mr: (r.below(256), r.below(256), r.below(512)), overlap: r.bool(), clip: r.bool() };
    if s.ssx && s.ssy && (g.cb.is_empty() != g.cr.is_empty()) { g.cr = g.cb.clone(); }
    g
}

/// what a decoder keeps of each reference slot
#[derive(Clone, Debug)]
pub struct Slot { pub order_hint: u64, pub typ: u64, pub id: u64, pub valid: bool, pub gm: [[i64; 6]; 8], pub feat: [[Option<i64>; 8]; 8], pub lf: [i64; 8], pub md: [i64; 2], pub grain: Grain, pub dims: (u64, u64, u64, u64) }
impl Slot { pub fn new() -> Slot { Slot { order_hint: 0, typ: 0, id: 0, valid: false, gm: [GM0; 8], feat: [[None; 8]; 8], lf: LF0, md: [0; 2], grain: Grain::default(), dims: (1, 1, 1, 1) } } }

/// a frame header configuration
#[derive(Clone, Debug, Hash)]
pub struct Cfg {
    pub existing: bool, pub show_idx: u64, pub tpd: u64, pub display_id: u64, pub typ: u64, pub show: bool, pub showable: bool, pub er: bool, pub no_cdf_update: bool, pub sct: u64, pub imv: u64, pub id: u64, pub over: bool, pub oh: u64,
    pub primary: u64, pub brd: Option<u64>, pub tid: u64, pub sid: u64, pub refresh: u64, pub roh: [u64; 8], pub w: u64, pub h: u64, pub rw: u64, pub rh: u64, pub sr: bool, pub denom: u64, pub intrabc: bool, pub short: bool, pub last: u64, pub gold: u64,
    pub refs: [u64; 7], pub delta_id: [u64; 7], pub hp: bool, pub switchable: bool, pub filt: u64, pub mmsw: bool, pub refmvs: bool, pub no_end: bool, pub cols_pick: u64, pub rows_pick: u64, pub ctx_tile_pick: u64, pub tsb: u64,
    pub q: u64, pub dq: [i64; 5], pub diff_uv: bool, pub qm: Option<(u64, u64, u64)>, pub qm3: (u64, u64, u64), pub seg: bool, pub seg_map: bool, pub seg_temp: bool, pub seg_data: bool, pub feat: [[Option<i64>; 8]; 8],
    pub dqp: bool, pub dqr: u64, pub dlp: bool, pub dlr: u64, pub dlm: bool, pub lv: [u64; 4], pub sharp: u64, pub lde: bool, pub ldu: bool, pub ur: [bool; 8], pub rd: [i64; 8], pub um: [bool; 2], pub md: [i64; 2],
    pub damp: u64, pub cbits: u64, pub cd: Vec<(u64, u64, u64, u64)>, pub lr: u64, pub lrs: u64, pub lruv: u64, pub txs: bool, pub rs: bool, pub skm: bool, pub warp: bool, pub rtx: bool, pub gmt: [u64; 8], pub gm: [[i64; 6]; 8], pub grain: Grain,
}

/// what the header means to a decoder
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out {
    pub existing: bool, pub typ: u64, pub intra: bool, pub show: bool, pub showable: bool, pub er: bool, pub sct: u64, pub imv: u64, pub id: u64, pub over: bool, pub oh: u64, pub primary: u64, pub refresh: u64, pub valid: [bool; 8],
    pub w: u64, pub h: u64, pub up: u64, pub rw: u64, pub rh: u64, pub denom: u64, pub intrabc: bool, pub refs: [u64; 7], pub eid: [u64; 7], pub hp: bool, pub filt: u64, pub refmvs: bool, pub ohs: [u64; 8], pub bias: [u64; 8], pub no_end: bool,
    pub cols: Vec<u64>, pub rows: Vec<u64>, pub cl2: u64, pub rl2: u64, pub ctx_tile: u64, pub q: u64, pub dq: [i64; 5], pub qm: Option<[u64; 3]>, pub diff_uv: bool, pub seg: bool, pub seg_upd: (bool, Option<bool>, bool), pub feat: [[Option<i64>; 8]; 8], pub pre_skip: bool, pub last_seg: u64,
    pub dqp: bool, pub dqr: u64, pub dlp: bool, pub dlr: u64, pub dlm: bool, pub lossless: [bool; 8], pub qml: [[u64; 8]; 3], pub coded_ll: bool, pub all_ll: bool, pub lv: [u64; 2], pub rd: [i64; 8], pub md: [i64; 2],
    pub cdef: (u64, u64, Vec<(u64, u64)>, Vec<(u64, u64)>), pub lr: [u64; 3], pub lrsize: [u64; 3], pub uses_lr: bool, pub uses_clr: bool, pub tx: u64, pub rs: bool, pub skf: Option<(u64, u64)>, pub skm: bool, pub warp: bool, pub gmt: [u64; 8], pub gm: [[i64; 6]; 8], pub grain: Option<Grain>,
}

/// where the walk gets its values from
pub enum Src<'a> { Read(BitReader<'a>), Told }
pub struct Walk<'a> { pub src: Src<'a>, pub log: Vec<(&'static str, i64)> }
impl<'a> Walk<'a> {
    fn f(&mut self, name: &'static str, n: usize, told: u64) -> Result<u64, String> {
        let v = match self.src { Src::Read(ref mut b) => b.f(n).map_err(|e| format!("{}: {}", name, e))?, Src::Told => { if n < 64 && told >> n != 0 { return Err(format!("HARNESS: {} = {} does not fit {} bits", name, told, n)); } told } };
        self.log.push((name, v as i64)); Ok(v)
    }
    fn flag(&mut self, name: &'static str, told: bool) -> Result<bool, String> { Ok(self.f(name, 1, told as u64)? == 1) }
    fn su(&mut self, name: &'static str, n: usize, told: i64) -> Result<i64, String> {
        let v = match self.src { Src::Read(ref mut b) => b.su(n).map_err(|e| format!("{}: {}", name, e))?, Src::Told => told };
        self.log.push((name, v)); Ok(v)
    }
    /// decode_signed_subexp_with_ref
    fn subexp(&mut self, name: &'static str, low: i64, high: i64, r: i64, told: i64) -> Result<i64, String> {
        let v = match self.src {
            Src::Told => { if told < low || told >= high { return Err(format!("HARNESS: {} = {} outside {}..{}", name, told, low, high)); } told }
            Src::Read(ref mut b) => {
                let (mx, r) = (high - low, r - low);
                let inv = |v: i64, r: i64| if v > 2 * r { v } else if v & 1 == 1 { r - ((v + 1) >> 1) } else { r + (v >> 1) };
                let x = {
                    let (mut i, mut mk, k) = (0, 0i64, 3);
                    loop {
                        let b2 = if i > 0 { k + i - 1 } else { k };
                        let a = 1i64 << b2;
                        if mx <= mk + 3 * a { break b.ns((mx - mk) as u64)? as i64 + mk; }
                        if b.flag()? { i += 1; mk += a; } else { break b.f(b2)? as i64 + mk; }
                    }
                };
                (if (r << 1) <= mx { inv(x, r) } else { mx - 1 - inv(x, mx - 1 - r) }) + low
            }
        };
        self.log.push((name, v)); Ok(v)
    }
}

fn rel(a: u64, b: u64, s: &Seq) -> i64 {
    if !s.order_hint { return 0; }
    let n = 1i64 << s.ohb; let d = (a as i64 - b as i64).rem_euclid(n);
    if d >= n / 2 { d - n } else { d }
}
/// set_frame_refs of the draft
pub fn short_refs(last: u64, gold: u64, oh: u64, st: &[Slot], s: &Seq) -> [u64; 7] {
    let mut idx = [-1i64; 7]; let mut used = [false; 8];
    idx[0] = last as i64; idx[3] = gold as i64; used[last as usize] = true; used[gold as usize] = true;
    let cur = 1i64 << (s.ohb - 1);
    let sh: Vec<i64> = (0..8).map(|i| cur + rel(st[i].order_hint, oh, s)).collect();
    // the latest backward reference becomes ALTREF
    let mut b = -1i64; let mut best = 0;
    for i in 0..8 { if !used[i] && sh[i] >= cur && (b < 0 || sh[i] >= best) { b = i as i64; best = sh[i]; } }
    if b >= 0 { idx[6] = b; used[b as usize] = true; }
    // the closest backward references become BWDREF and ALTREF2
    for k in [4, 5] {
        let mut b = -1i64; let mut best = 0;
        for i in 0..8 { if !used[i] && sh[i] >= cur && (b < 0 || sh[i] < best) { b = i as i64; best = sh[i]; } }
        if b >= 0 { idx[k] = b; used[b as usize] = true; }
    }
    // the remaining are forward references, latest first
    for k in [1, 2, 4, 5, 6] { if idx[k] < 0 {
        let mut b = -1i64; let mut best = 0;
        for i in 0..8 { if !used[i] && sh[i] < cur && (b < 0 || sh[i] >= best) { b = i as i64; best = sh[i]; } }
        if b >= 0 { idx[k] = b; used[b as usize] = true; }
    } }
    let mut b = 0; let mut best = i64::MAX;
    for i in 0..8 { if sh[i] < best { b = i as i64; best = sh[i]; } }
    let mut o = [0; 7];
    for k in 0..7 { o[k] = if idx[k] < 0 { b as u64 } else { idx[k] as u64 }; }
    o
}
fn log2up(blk: u64, target: u64) -> u64 { let mut k = 0; while (blk << k) < target { k += 1; } k }
pub struct Tiles { pub sbc: u64, pub sbr: u64, pub shift: u64, pub minc: u64, pub maxc: u64, pub maxr: u64, pub mint: u64 }
pub fn tiles(w: u64, h: u64, s: &Seq) -> Tiles {
    let (mc, mr) = (2 * ((w + 7) / 8), 2 * ((h + 7) / 8));
    let shift = if s.sb128 { 5 } else { 4 };
    let (sbc, sbr) = ((mc + (1 << shift) - 1) >> shift, (mr + (1 << shift) - 1) >> shift);
    let sz = shift + 2;
    let minc = log2up(4096 >> sz, sbc);
    Tiles { sbc, sbr, shift, minc, maxc: log2up(1, sbc.min(64)), maxr: log2up(1, sbr.min(64)), mint: minc.max(log2up((4096 * 2304) >> (2 * sz), sbc * sbr)) }
}
/// first column of every tile, in units of 4 samples, and the end
pub fn starts(sbs: u64, log2: u64, shift: u64, end: u64) -> Vec<u64> {
    let tw = (sbs + (1 << log2) - 1) >> log2;
    let mut v = vec![]; let mut x = 0;
    while x < sbs { v.push(x << shift); x += tw; }
    v.push(end); v
}
pub fn width_after(up: u64, denom: u64) -> u64 { (up * 8 + denom / 2) / denom }
/// the tile layout a configuration asks for
pub fn pick_tiles(c: &Cfg, w: u64, h: u64, s: &Seq) -> (u64, u64) {
    let t = tiles(w, h, s);
    let cl = t.minc + c.cols_pick % (t.maxc.max(t.minc) - t.minc + 1);
    let minr = t.mint.saturating_sub(cl);
    (cl, minr + c.rows_pick % (t.maxr.max(minr) - minr + 1))
}

/// uncompressed_header of the draft, `s` being the sequence header in force
pub fn walk(x: &mut Walk, s: &Seq, st: &[Slot], c: &Cfg) -> Result<Out, String> {
    let mut o = Out::default();
    let planes = if s.mono { 1 } else { 3 };
    let idlen = s.frame_id.map_or(0, |f| f.0 + f.1) as usize;
    for i in 0..8 { o.valid[i] = st[i].valid; o.ohs[i] = 0; }
    let mut roh: Vec<u64> = st.iter().map(|e| e.order_hint).collect();
    let tpi = s.dmi.is_some() && !s.timing.map_or(false, |t| t.2.is_some());
    if s.reduced { o.typ = 0; o.intra = true; o.show = true; o.showable = false; o.er = true; }
    else {
        o.existing = x.flag("show_existing_frame", c.existing)?;
        if o.existing {
            let k = x.f("frame_to_show_map_idx", 3, c.show_idx)? as usize;
            if tpi { x.f("tu_presentation_delay", s.dmi.unwrap().5 as usize, c.tpd)?; }
            if s.frame_id.is_some() { x.f("display_frame_id", idlen, c.display_id)?; }
            o.typ = st[k].typ;
            o.refresh = if o.typ == 0 { 255 } else { 0 };
            return Ok(o);
        }
        o.typ = x.f("frame_type", 2, c.typ)?;
        o.intra = o.typ == 0 || o.typ == 2;
        o.show = x.flag("show_frame", c.show)?;
        if o.show && tpi { x.f("tu_presentation_delay", s.dmi.unwrap().5 as usize, c.tpd)?; }
        o.showable = if o.show { false } else { x.flag("showable_frame", c.showable)? };
        o.er = if o.typ == 3 || (o.typ == 0 && o.show) { true } else { x.flag("error_resilient_mode", c.er)? };
    }
    if o.typ == 0 && o.show { o.valid = [false; 8]; roh = vec![0; 8]; }
    let ncu = x.flag("disable_cdf_update", c.no_cdf_update)?;
    o.sct = if s.force_sct == 2 { x.f("allow_screen_content_tools", 1, c.sct)? } else { s.force_sct };
    o.imv = if o.sct > 0 { if s.force_imv == 2 { x.f("force_integer_mv", 1, c.imv)? } else { s.force_imv } } else { 0 };
    if o.intra { o.imv = 1; }
    if let Some(fid) = s.frame_id {
        o.id = x.f("current_frame_id", idlen, c.id)?;
        let d = 1i64 << fid.0; let cur = o.id as i64;
        for i in 0..8 {
            let ri = st[i].id as i64;
            if cur > d { if ri > cur || ri < cur - d { o.valid[i] = false; } }
            else if ri > cur && ri < (1i64 << idlen) + cur - d { o.valid[i] = false; }
        }
    }
    o.over = if o.typ == 3 { true } else if s.reduced { false } else { x.flag("frame_size_override_flag", c.over)? };
    o.oh = x.f("order_hint", s.ohb as usize, c.oh)?;
    o.primary = if o.intra || o.er { 7 } else { x.f("primary_ref_frame", 3, c.primary)? };
    if let Some(d) = s.dmi {
        if x.flag("buffer_removal_delay_present_flag", c.brd.is_some())? {
            for op in s.opdm.iter() {
                if op.0 == 0 || ((op.0 >> c.tid) & 1 == 1 && (op.0 >> (c.sid + 8)) & 1 == 1) { x.f("buffer_removal_delay", d.4 as usize, c.brd.unwrap_or(0))?; }
            }
        }
    }
    o.refresh = if o.typ == 3 || (o.typ == 0 && o.show) { 255 } else { x.f("refresh_frame_flags", 8, c.refresh)? };
    if (!o.intra || o.refresh != 255) && o.er && s.order_hint {
        for i in 0..8 { let v = x.f("ref_order_hint", s.ohb as usize, c.roh[i])?; if v != roh[i] { o.valid[i] = false; } }
    }
    // sizes: what is not coded is the size in the sequence header
    let (wb, hb) = ((64 - (s.max_w - 1).max(1).leading_zeros()) as usize, (64 - (s.max_h - 1).max(1).leading_zeros()) as usize);
    o.refs = [0; 7];
    let mut found = false;
    if !o.intra {
        let short = if s.order_hint { x.flag("frame_refs_short_signaling", c.short)? } else { false };
        if short {
            let l = x.f("last_frame_idx", 3, c.last)?; let g = x.f("gold_frame_idx", 3, c.gold)?;
            o.refs = short_refs(l, g, o.oh, &roh.iter().map(|h| Slot { order_hint: *h, ..Slot::new() }).collect::<Vec<_>>(), s);
        }
        for i in 0..7 {
            if !short { o.refs[i] = x.f("ref_frame_idx", 3, c.refs[i])?; }
            if let Some(fid) = s.frame_id {
                let d = x.f("delta_frame_id_minus_1", fid.0 as usize, c.delta_id[i] - 1)? + 1;
                o.eid[i] = (o.id + (1 << idlen) - d) % (1 << idlen);
            }
        }
        if o.over && !o.er {
            for i in 0..7 {
                found = x.flag("found_ref", true)?;
                if found { let d = st[o.refs[i] as usize].dims; o.up = d.0; o.h = d.1; o.rw = d.2; o.rh = d.3; break; }
            }
        }
    }
    if !found {
        if o.over { o.up = x.f("frame_width_minus_1", wb, c.w - 1)? + 1; o.h = x.f("frame_height_minus_1", hb, c.h - 1)? + 1; } else { o.up = s.max_w; o.h = s.max_h; }
    }
    let usr = if s.superres { x.flag("use_superres", c.sr)? } else { false };
    o.denom = if usr { x.f("coded_denom", 3, c.denom - 9)? + 9 } else { 8 };
    o.w = width_after(o.up, o.denom);
    if !found {
        if x.flag("render_and_frame_size_different", c.rw != o.up || c.rh != o.h)? { o.rw = x.f("render_width_minus_1", 16, c.rw - 1)? + 1; o.rh = x.f("render_height_minus_1", 16, c.rh - 1)? + 1; } else { o.rw = o.up; o.rh = o.h; }
    }
    if o.intra {
        o.intrabc = if o.sct > 0 && o.up == o.w { x.flag("allow_intrabc", c.intrabc)? } else { false };
    } else {
        o.hp = if o.imv > 0 { false } else { x.flag("allow_high_precision_mv", c.hp)? };
        o.filt = if x.flag("is_filter_switchable", c.switchable)? { 4 } else { x.f("interpolation_filter", 2, c.filt)? };
        x.flag("is_motion_mode_switchable", c.mmsw)?;
        o.refmvs = if o.er || !s.ref_mvs { false } else { x.flag("use_ref_frame_mvs", c.refmvs)? };
        for i in 0..7 { let h = roh[o.refs[i] as usize]; o.ohs[i + 1] = h; o.bias[i + 1] = (rel(h, o.oh, s) > 0) as u64; }
    }
    o.no_end = if s.reduced || ncu { true } else { x.flag("disable_frame_end_update_cdf", c.no_end)? };
    // tile info
    let t = tiles(o.w, o.h, s);
    let (wc, wr) = pick_tiles(c, o.w, o.h, s);
    if !x.flag("uniform_tile_spacing_flag", true)? { return Err("tiles of explicit size".into()); }
    o.cl2 = t.minc;
    while o.cl2 < t.maxc { if x.flag("increment_tile_cols_log2", o.cl2 < wc)? { o.cl2 += 1; } else { break; } }
    o.cols = starts(t.sbc, o.cl2, t.shift, 2 * ((o.w + 7) / 8));
    o.rl2 = t.mint.saturating_sub(o.cl2);
    while o.rl2 < t.maxr { if x.flag("increment_tile_rows_log2", o.rl2 < wr)? { o.rl2 += 1; } else { break; } }
    o.rows = starts(t.sbr, o.rl2, t.shift, 2 * ((o.h + 7) / 8));
    if o.cl2 > 0 || o.rl2 > 0 {
        o.ctx_tile = x.f("context_update_tile_id", (o.cl2 + o.rl2) as usize, c.ctx_tile_pick % ((o.cols.len() - 1) * (o.rows.len() - 1)) as u64)?;
        x.f("tile_size_bytes_minus_1", 2, c.tsb - 1)?;
    }
    // quantization
    o.q = x.f("base_q_idx", 8, c.q)?;
    fn dq(x: &mut Walk, name: &'static str, v: i64) -> Result<i64, String> { if x.flag("delta_coded", v != 0)? { x.su(name, 7, v) } else { Ok(0) } }
    o.dq[0] = dq(x, "delta_q_y_dc", c.dq[0])?;
    if planes > 1 {
        let diff = if s.sep_uv { x.flag("diff_uv_delta", c.diff_uv)? } else { false };
        o.diff_uv = diff;
        o.dq[1] = dq(x, "delta_q_u_dc", c.dq[1])?; o.dq[2] = dq(x, "delta_q_u_ac", c.dq[2])?;
        if diff { o.dq[3] = dq(x, "delta_q_v_dc", c.dq[3])?; o.dq[4] = dq(x, "delta_q_v_ac", c.dq[4])?; } else { o.dq[3] = o.dq[1]; o.dq[4] = o.dq[2]; }
    }
    if x.flag("using_qmatrix", c.qm.is_some())? {
        let y = x.f("qm_y", 4, c.qm3.0)?; let u = x.f("qm_u", 4, c.qm3.1)?;
        let v = if s.sep_uv { x.f("qm_v", 4, c.qm3.2)? } else { u };
        o.qm = Some([y, u, v]);
    }
    // segmentation
    let prev = if o.primary == 7 { None } else { Some(o.refs[o.primary as usize] as usize) };
    o.seg = x.flag("segmentation_enabled", c.seg)?;
    if o.seg {
        let mut data = true;
        // without an update of the map, temporal_update is neither coded nor inferred
        o.seg_upd = (true, Some(false), true);
        if o.primary != 7 {
            o.seg_upd.0 = x.flag("segmentation_update_map", c.seg_map)?;
            o.seg_upd.1 = if o.seg_upd.0 { Some(x.flag("segmentation_temporal_update", c.seg_temp)?) } else { None };
            data = x.flag("segmentation_update_data", c.seg_data)?;
            o.seg_upd.2 = data;
        }
        if data {
            for i in 0..8 { for j in 0..8 {
                if x.flag("feature_enabled", c.feat[i][j].is_some())? {
                    let told = c.feat[i][j].unwrap_or(0);
                    let v = if FSIGNED[j] { x.su("feature_value", 1 + FBITS[j], told)?.clamp(-FMAX[j], FMAX[j]) } else { (x.f("feature_value", FBITS[j], told as u64)? as i64).clamp(0, FMAX[j]) };
                    o.feat[i][j] = Some(v);
                }
            } }
        } else { o.feat = st[prev.unwrap()].feat; }
        for i in 0..8 { for j in 0..8 { if o.feat[i][j].is_some() { o.last_seg = i as u64; if j >= 5 { o.pre_skip = true; } } } }
    }
    // delta q and delta lf
    if o.q > 0 { o.dqp = x.flag("delta_q_present", c.dqp)?; }
    if o.dqp {
        o.dqr = x.f("delta_q_res", 2, c.dqr)?;
        if !o.intrabc { o.dlp = x.flag("delta_lf_present", c.dlp)?; }
        if o.dlp { o.dlr = x.f("delta_lf_res", 2, c.dlr)?; o.dlm = x.flag("delta_lf_multi", c.dlm)?; }
    }
    o.coded_ll = true;
    for i in 0..8 {
        let qi = if o.seg && o.feat[i][0].is_some() { (o.q as i64 + o.feat[i][0].unwrap()).clamp(0, 255) } else { o.q as i64 };
        o.lossless[i] = qi == 0 && o.dq == [0; 5];
        o.coded_ll &= o.lossless[i];
        if let Some(m) = o.qm { for p in 0..3 { o.qml[p][i] = if o.lossless[i] { 15 } else { m[p] }; } }
    }
    o.all_ll = o.coded_ll && o.w == o.up;
    // loop filter
    o.rd = prev.map_or(LF0, |k| st[k].lf); o.md = prev.map_or([0; 2], |k| st[k].md);
    if o.coded_ll || o.intrabc { o.rd = LF0; o.md = [0; 2]; }
    else {
        o.lv[0] = x.f("loop_filter_level[0]", 6, c.lv[0])?; o.lv[1] = x.f("loop_filter_level[1]", 6, c.lv[1])?;
        if planes > 1 && (o.lv[0] > 0 || o.lv[1] > 0) { x.f("loop_filter_level[2]", 6, c.lv[2])?; x.f("loop_filter_level[3]", 6, c.lv[3])?; }
        x.f("loop_filter_sharpness", 3, c.sharp)?;
        if x.flag("loop_filter_delta_enabled", c.lde)? && x.flag("loop_filter_delta_update", c.ldu)? {
            for i in 0..8 { if x.flag("update_ref_delta", c.ur[i])? { o.rd[i] = x.su("loop_filter_ref_deltas", 7, c.rd[i])?; } }
            for i in 0..2 { if x.flag("update_mode_delta", c.um[i])? { o.md[i] = x.su("loop_filter_mode_deltas", 7, c.md[i])?; } }
        }
    }
    // cdef
    if o.coded_ll || o.intrabc || !s.cdef { o.cdef = (3, 0, vec![(0, 0)], vec![(0, 0)]); }
    else {
        o.cdef.0 = x.f("cdef_damping_minus_3", 2, c.damp - 3)? + 3; o.cdef.1 = x.f("cdef_bits", 2, c.cbits)?;
        for i in 0..1usize << o.cdef.1 {
            let k = c.cd.get(i).cloned().unwrap_or((0, 0, 0, 0));
            let four = |v: u64| if v == 3 { 4 } else { v };
            let a = (x.f("cdef_y_pri_strength", 4, k.0)?, four(x.f("cdef_y_sec_strength", 2, k.1)?)); o.cdef.2.push(a);
            if planes > 1 { let a = (x.f("cdef_uv_pri_strength", 4, k.2)?, four(x.f("cdef_uv_sec_strength", 2, k.3)?)); o.cdef.3.push(a); }
        }
    }
    // loop restoration
    if !(o.all_ll || o.intrabc || !s.restoration) {
        for p in 0..planes { let v = x.f("lr_type", 2, c.lr)?; o.lr[p] = [0, 3, 1, 2][v as usize]; if v > 0 { o.uses_lr = true; if p > 0 { o.uses_clr = true; } } }
        if o.uses_lr {
            let sh = if s.sb128 { x.f("lr_unit_shift", 1, c.lrs - 1)? + 1 } else if x.flag("lr_unit_shift", c.lrs > 0)? { 1 + x.f("lr_unit_extra_shift", 1, c.lrs.saturating_sub(1))? } else { 0 };
            let uv = if s.ssx && s.ssy && o.uses_clr { x.f("lr_uv_shift", 1, c.lruv)? } else { 0 };
            o.lrsize = [64 << sh, (64 << sh) >> uv, (64 << sh) >> uv];
        }
    }
    o.tx = if o.coded_ll { 0 } else if x.flag("tx_mode_select", c.txs)? { 2 } else { 1 };
    if !o.intra { o.rs = x.flag("reference_select", c.rs)?; }
    if !o.intra && o.rs && s.order_hint {
        // the nearest reference on each side, or the two nearest in the past
        let d: Vec<i64> = (0..7).map(|i| rel(roh[o.refs[i] as usize], o.oh, s)).collect();
        let h: Vec<u64> = (0..7).map(|i| roh[o.refs[i] as usize]).collect();
        let mut fw: Option<usize> = None; let mut bw: Option<usize> = None;
        for i in 0..7 {
            if d[i] < 0 { if fw.map_or(true, |k| rel(h[i], h[k], s) > 0) { fw = Some(i); } }
            else if d[i] > 0 && bw.map_or(true, |k| rel(h[i], h[k], s) < 0) { bw = Some(i); }
        }
        if let Some(a) = fw {
            let mut b = bw;
            if b.is_none() { for i in 0..7 { if rel(h[i], h[a], s) < 0 && b.map_or(true, |k| rel(h[i], h[k], s) > 0) { b = Some(i); } } }
            if let Some(b) = b { o.skf = Some((1 + a.min(b) as u64, 1 + a.max(b) as u64)); }
        }
    }
    if o.skf.is_some() { o.skm = x.flag("skip_mode_present", c.skm)?; }
    if !o.intra && !o.er && s.warped { o.warp = x.flag("allow_warped_motion", c.warp)?; }
    x.flag("reduced_tx_set", c.rtx)?;
    // global motion
    o.gm = [GM0; 8];
    if !o.intra {
        let pg = prev.map_or([GM0; 8], |k| st[k].gm);
        for rf in 1..8 {
            let t = c.gmt[rf];
            o.gmt[rf] = if !x.flag("is_global", t > 0)? { 0 } else if x.flag("is_rot_zoom", t == 2)? { 2 } else if x.flag("is_translation", t == 1)? { 1 } else { 3 };
            let ty = o.gmt[rf]; let hp = o.hp;
            let mut par = |x: &mut Walk, k: usize| -> Result<i64, String> {
                let (ab, pb) = if k < 2 { if ty == 1 { (9 - !hp as i64, 3 - !hp as i64) } else { (12, 6) } } else { (12, 15) };
                let diff = 16 - pb; let (round, sub) = if k % 3 == 2 { (1 << 16, 1 << pb) } else { (0, 0) };
                let mx = 1i64 << ab; let r = (pg[rf][k] >> diff) - sub;
                // the configured value, at the precision in force
                let told = ((c.gm[rf][k] - round) >> diff).clamp(-mx, mx);
                Ok((x.subexp("gm_params", -mx, mx + 1, r, told)? << diff) + round)
            };
            if ty >= 2 {
                o.gm[rf][2] = par(x, 2)?; o.gm[rf][3] = par(x, 3)?;
                if ty == 3 { o.gm[rf][4] = par(x, 4)?; o.gm[rf][5] = par(x, 5)?; } else { o.gm[rf][4] = -o.gm[rf][3]; o.gm[rf][5] = o.gm[rf][2]; }
            }
            if ty >= 1 { o.gm[rf][0] = par(x, 0)?; o.gm[rf][1] = par(x, 1)?; }
        }
    }
    // film grain
    if s.grain {
        let mut g = Grain::default();
        if o.show || o.showable {
            let k = &c.grain;
            g.apply = x.flag("apply_grain", k.apply)?;
            if g.apply {
                g.seed = x.f("grain_seed", 16, k.seed)?;
                let upd = if o.typ == 1 { x.flag("update_grain", k.update)? } else { true };
                if !upd { let i = x.f("film_grain_params_ref_idx", 3, k.ref_idx)?; let seed = g.seed; g = st[i as usize].grain.clone(); g.seed = seed; if !g.apply { g = Grain::default(); } }
                else {
                    let at = |v: &Vec<(u64, u64)>, i: usize| v.get(i).cloned().unwrap_or((0, 0));
                    let co = |v: &Vec<i64>, i: usize| (v.get(i).cloned().unwrap_or(0) + 128) as u64;
                    let n = x.f("num_y_points", 4, k.y.len() as u64)?;
                    for i in 0..n as usize { let e = at(&k.y, i); g.y.push((x.f("point_y_value", 8, e.0)?, x.f("point_y_scaling", 8, e.1)?)); }
                    g.from_luma = if s.mono { false } else { x.flag("chroma_scaling_from_luma", k.from_luma)? };
                    if !(s.mono || g.from_luma || (s.ssx && s.ssy && n == 0)) {
                        let m = x.f("num_cb_points", 4, k.cb.len() as u64)?;
                        for i in 0..m as usize { let e = at(&k.cb, i); g.cb.push((x.f("point_cb_value", 8, e.0)?, x.f("point_cb_scaling", 8, e.1)?)); }
                        let m = x.f("num_cr_points", 4, k.cr.len() as u64)?;
                        for i in 0..m as usize { let e = at(&k.cr, i); g.cr.push((x.f("point_cr_value", 8, e.0)?, x.f("point_cr_scaling", 8, e.1)?)); }
                    }
                    g.scaling = x.f("grain_scaling_minus_8", 2, k.scaling - 8)? + 8; g.lag = x.f("ar_coeff_lag", 2, k.lag)?;
                    let nl = 2 * g.lag * (g.lag + 1); let nc = if n > 0 { nl + 1 } else { nl };
                    if n > 0 { for i in 0..nl as usize { g.ay.push(x.f("ar_coeffs_y_plus_128", 8, co(&k.ay, i))? as i64 - 128); } }
                    if g.from_luma || !g.cb.is_empty() { for i in 0..nc as usize { g.ab.push(x.f("ar_coeffs_cb_plus_128", 8, co(&k.ab, i))? as i64 - 128); } }
                    if g.from_luma || !g.cr.is_empty() { for i in 0..nc as usize { g.ar.push(x.f("ar_coeffs_cr_plus_128", 8, co(&k.ar, i))? as i64 - 128); } }
                    g.shift = x.f("ar_coeff_shift_minus_6", 2, k.shift - 6)? + 6; g.scale_shift = x.f("grain_scale_shift", 2, k.scale_shift)?;
                    if !g.cb.is_empty() { g.mb = (x.f("cb_mult", 8, k.mb.0)?, x.f("cb_luma_mult", 8, k.mb.1)?, x.f("cb_offset", 9, k.mb.2)?); }
                    if !g.cr.is_empty() { g.mr = (x.f("cr_mult", 8, k.mr.0)?, x.f("cr_luma_mult", 8, k.mr.1)?, x.f("cr_offset", 9, k.mr.2)?); }
                    g.overlap = x.flag("overlap_flag", k.overlap)?; g.clip = x.flag("clip_to_restricted_range", k.clip)?;
                }
            }
        }
        o.grain = Some(g);
    }
    Ok(o)
}

/// a legal random configuration, given the sequence header in force and the reference slots
pub fn random_cfg(r: &mut Rng, s: &Seq, st: &[Slot]) -> Cfg {
    let ohm = if s.ohb == 0 { 1 } else { 1u64 << s.ohb };
    let fid = s.frame_id.unwrap_or((2, 1)); let idm = 1u64 << (fid.0 + fid.1);
    let bit = |r: &mut Rng, n: u64| if n >= 32 { r.edgy((1 << 32) - 1) } else { r.edgy((1 << n) - 1) };
    let feature = |r: &mut Rng, j: usize| if FSIGNED[j] { match r.below(5) { 0 => FMAX[j], 1 => -FMAX[j], 2 => -(1i64 << FBITS[j]), _ => r.range(-FMAX[j], FMAX[j]) } } else { r.range(0, FMAX[j]) };
    let typ = if s.reduced { r.below(4) } else { r.pick(&[0, 1, 1, 1, 2, 3]) };
    let mut c = Cfg {
        existing: !s.reduced && r.chance(1, 12), show_idx: r.below(8), tpd: bit(r, s.dmi.map_or(1, |d| d.5)), display_id: r.edgy(idm - 1), typ, show: r.chance(2, 3), showable: r.bool(), er: r.chance(1, 3), no_cdf_update: r.bool(), sct: r.below(2), imv: r.below(2),
        id: if s.frame_id.is_some() { r.edgy(idm - 1) } else { 0 }, over: r.bool(), oh: r.below(ohm), primary: if r.chance(1, 3) { 7 } else { r.below(7) }, brd: if r.bool() { Some(bit(r, s.dmi.map_or(1, |d| d.4))) } else { None }, tid: r.below(8), sid: r.below(4),
        refresh: if typ == 2 { r.below(255) } else { r.edgy(255) }, roh: [0; 8], w: 1, h: 1, rw: 1, rh: 1, sr: r.bool(), denom: 9 + r.below(8), intrabc: r.bool(), short: r.chance(1, 5), last: r.below(8), gold: r.below(8),
        refs: [0; 7], delta_id: [1; 7], hp: r.bool(), switchable: r.bool(), filt: r.below(4), mmsw: r.bool(), refmvs: r.bool(), no_end: r.bool(), cols_pick: r.u64() >> 1, rows_pick: r.u64() >> 1, ctx_tile_pick: r.u64() >> 1, tsb: 1 + r.below(4),
        q: match r.below(4) { 0 => 0, 1 => r.below(4), _ => r.below(256) }, dq: [0; 5], diff_uv: r.bool(), qm: None, qm3: (r.below(16), r.below(16), r.below(16)), seg: r.chance(1, 3), seg_map: r.bool(), seg_temp: r.bool(), seg_data: r.bool(), feat: [[None; 8]; 8],
        dqp: r.bool(), dqr: r.below(4), dlp: r.bool(), dlr: r.below(4), dlm: r.bool(), lv: [0; 4], sharp: r.below(8), lde: r.bool(), ldu: r.bool(), ur: [false; 8], rd: [0; 8], um: [r.bool(), r.bool()], md: [0; 2],
        damp: 3 + r.below(4), cbits: r.below(4), cd: vec![], lr: r.below(4), lrs: if s.sb128 { 1 + r.below(2) } else { r.below(3) }, lruv: r.below(2), txs: r.bool(), rs: r.bool(), skm: r.bool(), warp: r.bool(), rtx: r.bool(), gmt: [0; 8], gm: [GM0; 8], grain: random_grain(r, s),
    };
    if r.bool() { c.qm = Some(c.qm3); }
    if r.bool() { for i in 0..5 { if r.bool() { c.dq[i] = match r.below(4) { 0 => 63, 1 => -64, _ => r.range(-64, 63) }; } } }
    for i in 0..4 { if r.bool() { c.lv[i] = r.below(64); } }
    for i in 0..1 << c.cbits { let _ = i; c.cd.push((r.below(16), r.below(4), r.below(16), r.below(4))); }
    let few = r.chance(1, 3);
    let pool: Vec<u64> = (0..3).map(|_| r.below(8)).collect();
    for i in 0..7 { c.refs[i] = if few { r.pick(&pool) } else { r.below(8) }; c.delta_id[i] = 1 + r.edgy((1 << fid.0) - 1); }
    if s.order_hint && c.short { c.refs = short_refs(c.last, c.gold, c.oh, &if typ == 0 { vec![Slot::new(); 8] } else { st.to_vec() }, s); } else { c.short = false; }
    c.grain.ref_idx = c.refs[r.usize(7)];
    // what is in force after the draft's inference
    let (typ, show) = if s.reduced { (0, true) } else { (c.typ, c.show) };
    let er = s.reduced || typ == 3 || (typ == 0 && show) || c.er;
    let intra = typ == 0 || typ == 2;
    let primary = if intra || er { 7 } else { c.primary };
    let over = if typ == 3 { true } else if s.reduced { false } else { c.over };
    for i in 0..8 {
        c.roh[i] = st[i].order_hint;
        // a lost reference: one which this frame does not use
        if s.order_hint && er && r.chance(1, 8) && (intra || !c.refs.contains(&(i as u64))) && !c.short { c.roh[i] = r.below(ohm); }
    }
    if typ == 0 && show { c.roh = [0; 8]; }
    // size
    c.w = s.max_w; c.h = s.max_h;
    if !intra && over && !er { let d = st[c.refs[0] as usize].dims; c.w = d.0; c.h = d.1; c.rw = d.2; c.rh = d.3; }
    else {
        if over && r.chance(3, 4) { c.w = 1 + r.edgy(s.max_w - 1); c.h = 1 + r.edgy(s.max_h - 1); }
        match r.below(5) { 0 => { c.rw = 1 + r.edgy(65535); c.rh = 1 + r.edgy(65535); } 1 => { c.rw = c.w; c.rh = 1 + r.below(65536); } 2 => { c.rh = c.h; c.rw = width_after(c.w, c.denom); } _ => { c.rw = c.w; c.rh = c.h; } }
    }
    // segmentation data and filter deltas: what is not updated is that of the primary reference
    let prev = if primary == 7 { None } else { Some(&st[c.refs[primary as usize] as usize]) };
    for i in 0..8 { for j in 0..8 { if r.chance(1, 6) { c.feat[i][j] = Some(feature(r, j)); } } }
    if r.chance(1, 3) { for i in 0..8 { c.feat[i][0] = Some(-(c.q as i64).min(255)); } }
    if c.seg && !c.seg_data { if let Some(p) = prev { c.feat = p.feat; } }
    c.rd = prev.map_or(LF0, |p| p.lf); c.md = prev.map_or([0; 2], |p| p.md);
    let upd = c.lde && c.ldu;
    for i in 0..8 { c.ur[i] = r.bool(); if upd && c.ur[i] { c.rd[i] = match r.below(4) { 0 => 63, 1 => -64, _ => r.range(-64, 63) }; } }
    for i in 0..2 { if upd && c.um[i] { c.md[i] = r.range(0, 63); } }
    // global motion
    let hp = c.hp;
    let imv_zero = { let sct = if s.force_sct == 2 { c.sct } else { s.force_sct }; !(sct > 0 && (if s.force_imv == 2 { c.imv } else { s.force_imv }) > 0) };
    let hp = hp && imv_zero;
    for rf in 1..8 {
        c.gmt[rf] = if r.bool() { 0 } else { r.below(4) };
        for k in 0..6 {
            let (ab, pb) = if k < 2 { if c.gmt[rf] == 1 { (9 - !hp as i64, 3 - !hp as i64) } else { (12, 6) } } else { (12, 15) };
            let mx = 1i64 << ab;
            let v = match r.below(6) { 0 => mx, 1 => -mx, 2 => 0, 3 => r.range(-8, 8), 4 => { let p = prev.map_or(GM0, |p| p.gm[rf])[k]; (((p - if k % 3 == 2 { 65536 } else { 0 }) >> (16 - pb)) + r.range(-3, 3)).clamp(-mx, mx) } _ => r.range(-mx, mx) };
            c.gm[rf][k] = (v << (16 - pb)) + if k % 3 == 2 { 65536 } else { 0 };
        }
    }
    c
}

/// the project's frame for a configuration; puts the rest into the encoder context
pub fn build_frame(c: &Cfg, s: &Seq, st: &[Slot], e: &mut EncoderContext) -> Frame {
    let small = c.w * c.h <= 1 << 14;
    let mut f = if small { Frame::new(FT[c.typ as usize], c.w as usize, c.h as usize) } else { Frame::new(FT[c.typ as usize], 8, 8) };
    f.frame_width = c.w as usize; f.frame_height = c.h as usize; f.render_width = c.rw as usize; f.render_height = c.rh as usize;
    e.show_existing_frame = c.existing; e.frame_to_show_map_idx = c.show_idx as u8; e.show_frame = c.show; e.showable_frame = c.showable; e.disable_cdf_update = c.no_cdf_update; e.current_frame_id = if s.frame_id.is_some() { c.id as usize } else { (c.cols_pick & 0xfff) as usize };
    e.tg_start = (c.rows_pick & 3) as usize; e.tg_end = e.tg_start + (c.rows_pick >> 2 & 7) as usize; e.tile_num = (c.rows_pick >> 5 & 7) as usize; e.frame_size_override_flag = c.over;
    e.refresh_frame_flags = c.refresh as u8; e.superres_denom = c.denom as usize; e.disable_frame_end_update_cdf = c.no_end; e.tile_size_bytes = c.tsb as usize; e.temporal_id = c.tid as usize; e.spatial_id = c.sid as usize;
    e.delta_q_y_dc = c.dq[0] as isize; e.delta_q_u_dc = c.dq[1] as isize; e.delta_q_u_ac = c.dq[2] as isize; e.delta_q_v_dc = c.dq[3] as isize; e.delta_q_v_ac = c.dq[4] as isize;
    for i in 0..8 {
        e.ref_frame_type[i] = FT[st[i].typ as usize]; e.ref_valid[i] = st[i].valid; e.ref_frame_id[i] = st[i].id as usize; e.ref_order_hint[i] = st[i].order_hint as usize; e.ref_film_grain_params[i] = build_grain(&st[i].grain);
        f.ref_order_hint[i] = c.roh[i] as usize;
        for k in 0..6 { e.gm_params[i][k] = c.gm[i][k] as isize; }
    }
    if s.grain { e.film_grain_params = Some(build_grain(&c.grain)); }
    f.decoder_model_info = s.dmi.map(|d| DecoderModelInfo { bitrate_scale: d.0 as u8, buffer_size_scale: d.1 as u8, encoder_decoder_buffer_delay_length: d.2 as u8, num_units_in_decoding_tick: d.3 as u32,
        buffer_removal_delay: c.brd.unwrap_or(0) as usize, buffer_removal_delay_length: d.4 as u8, buffer_removal_delay_present: c.brd.is_some(), frame_presentation_delay_length: d.5 as u8 });
    f.temporal_point_info = s.dmi.map(|_| TemporalPointInfo { tu_presentation_delay: c.tpd as u32 });
    f.display_frame_id = Some(c.display_id as u32); f.error_resilient_mode = c.er; f.allow_screen_content_tools = c.sct as usize; f.force_integer_mv = c.imv as usize; f.order_hint = c.oh as u8; f.primary_ref_frame = c.primary as u8;
    f.use_superres = c.sr; f.allow_intrabc = c.intrabc; f.frame_refs_short_signaling = c.short; f.last_frame_idx = c.last as u8; f.gold_frame_idx = c.gold as u8;
    for i in 0..7 { f.ref_frame_idx[i] = c.refs[i] as u8; f.delta_frame_id[i] = c.delta_id[i] as usize; }
    f.allow_high_precision_mv = c.hp; f.is_filter_switchable = c.switchable; f.interp_filter = IFL[c.filt as usize]; f.is_motion_mode_switchable = c.mmsw; f.use_ref_frame_mvs = c.refmvs;
    let q = &mut f.quantization_params; q.base_q_idx = c.q as u8; q.diff_uv_delta = c.diff_uv; q.using_qmatrix = c.qm.is_some(); q.qm_y = c.qm3.0 as u8; q.qm_u = c.qm3.1 as u8; q.qm_v = c.qm3.2 as u8;
    let g = &mut f.segmentation_params; g.segmentation_enabled = c.seg; g.segmentation_update_map = c.seg_map; g.segmentation_temporal_update = c.seg_temp; g.segmentation_update_data = c.seg_data;
    for i in 0..8 { for j in 0..8 { g.feature_value[i][j] = c.feat[i][j].map(|v| v as isize); } }
    f.delta_q_params.delta_q_present = c.dqp; f.delta_q_params.delta_q_res = c.dqr as u8; f.delta_lf_params.delta_lf_present = c.dlp; f.delta_lf_params.delta_lf_res = c.dlr as u8; f.delta_lf_params.delta_lf_multi = c.dlm;
    let l = &mut f.loop_filter_params;
    for i in 0..4 { l.loop_filter_level[i] = c.lv[i] as u8; }
    l.loop_filter_sharpness = c.sharp as u8; l.loop_filter_delta_enabled = c.lde; l.loop_filter_delta_update = c.ldu; l.update_ref_delta = c.ur; l.update_mode_delta = c.um;
    for i in 0..8 { l.loop_filter_ref_deltas[i] = c.rd[i] as isize; }
    for i in 0..2 { l.loop_filter_mode_deltas[i] = c.md[i] as u8; }
    let d = &mut f.cdef_params; d.cdef_damping = c.damp as u8; d.cdef_bits = c.cbits as u8;
    d.cdef_y_pri_strength = c.cd.iter().map(|k| k.0 as u8).collect(); d.cdef_y_sec_strength = c.cd.iter().map(|k| k.1 as u8).collect(); d.cdef_uv_pri_strength = c.cd.iter().map(|k| k.2 as u8).collect(); d.cdef_uv_sec_strength = c.cd.iter().map(|k| k.3 as u8).collect();
    f.lr_params.lr_type = c.lr as u8; f.lr_params.lr_unit_shift = c.lrs as usize; f.lr_params.lr_uv_shift = c.lruv as usize;
    f.tx_mode_select = c.txs; f.reference_select = c.rs; f.skip_mode_present = c.skm; f.allow_warped_motion = c.warp; f.reduced_tx_set = c.rtx;
    for i in 0..8 { f.global_motion_params.is_global[i] = c.gmt[i] > 0; f.global_motion_params.is_rot_zoom[i] = c.gmt[i] == 2; f.global_motion_params.is_translation[i] = c.gmt[i] == 1; }
    // tiles, for the width after superres
    let w = if s.superres && c.sr { width_after(c.w, c.denom) } else { c.w };
    let t = tiles(w, c.h, s); let (cl, rl) = pick_tiles(c, w, c.h, s);
    let mut a = starts(t.sbc, cl, t.shift, 0); a.pop(); let mut b = starts(t.sbr, rl, t.shift, 0); b.pop();
    e.context_update_tile_id = (c.ctx_tile_pick % (a.len() * b.len()) as u64) as usize;
    f.tile_col_starts = a.iter().map(|v| *v as usize).collect(); f.tile_row_starts = b.iter().map(|v| *v as usize).collect();
    // the caller loads the primary reference's global motion
    let typ = if s.reduced { 0 } else { c.typ }; let show = s.reduced || c.show;
    let primary = if typ == 0 || typ == 2 || typ == 3 || c.er || (typ == 0 && show) { 7 } else { c.primary };
    if primary < 7 { let p = st[c.refs[primary as usize] as usize].gm; for i in 0..8 { for k in 0..6 { e.prev_gm_params[i][k] = p[i][k] as isize; } } }
    f
}

/// the encoder's own state after the header agrees with what a decoder infers
pub fn check_state(o: &Out, f: &Frame, e: &EncoderContext, s: &Seq) -> Result<(), String> {
    macro_rules! same { ($n:expr, $g:expr, $w:expr) => { { let (g, w) = ($g, $w); if g != w { return Err(format!("after coding, the encoder has {} = {:?}; a decoder has {:?}", $n, g, w)); } } } }
    same!("frame_type", f.frame_type as u64, o.typ);
    same!("refresh_frame_flags", e.refresh_frame_flags as u64, o.refresh);
    same!("show_existing_frame", e.show_existing_frame, o.existing);
    same!("SeenFrameHeader", e.seen_frame_header, !o.existing);
    if o.existing { return Ok(()); }
    if o.typ == 0 && o.show {
        for i in 0..8 { same!("RefOrderHint after a shown key frame", e.ref_order_hint[i] as u64, 0); }
        for i in 1..8 { same!("OrderHints of a shown key frame", e.order_hints[i] as u64, 0); }
    }
    same!("use_superres", f.use_superres, o.denom > 8);
    same!("base_q_idx", f.quantization_params.base_q_idx as u64, o.q);
    if !s.mono { same!("diff_uv_delta", f.quantization_params.diff_uv_delta, o.diff_uv); }
    if let Some(q) = o.qm { same!("qm_y, qm_u, qm_v", [f.quantization_params.qm_y as u64, f.quantization_params.qm_u as u64, f.quantization_params.qm_v as u64], q); }
    if o.seg {
        let g = &f.segmentation_params;
        same!("segmentation_update_map, segmentation_update_data", (g.segmentation_update_map, g.segmentation_update_data), (o.seg_upd.0, o.seg_upd.2));
        if let Some(t) = o.seg_upd.1 { same!("segmentation_temporal_update", g.segmentation_temporal_update, t); }
    }
    same!("FrameIsIntra", e.frame_is_intra, o.intra); same!("show_frame", e.show_frame, o.show); same!("showable_frame", e.showable_frame, o.showable);
    if !s.reduced { same!("error_resilient_mode", f.error_resilient_mode, o.er); }
    same!("allow_screen_content_tools", f.allow_screen_content_tools as u64, o.sct); same!("force_integer_mv", f.force_integer_mv as u64, o.imv); same!("current_frame_id", e.current_frame_id as u64, o.id);
    same!("frame_size_override_flag", e.frame_size_override_flag, o.over); same!("primary_ref_frame", f.primary_ref_frame as u64, o.primary); same!("ref_valid", e.ref_valid, o.valid);
    same!("frame size", (f.frame_width as u64, f.frame_height as u64, e.upscaled_width as u64), (o.w, o.h, o.up)); same!("render size", (f.render_width as u64, f.render_height as u64), (o.rw, o.rh)); same!("superres_denom", e.superres_denom as u64, o.denom);
    same!("allow_intrabc", f.allow_intrabc, o.intrabc); same!("allow_high_precision_mv", f.allow_high_precision_mv, o.hp); same!("use_ref_frame_mvs", f.use_ref_frame_mvs, o.refmvs);
    if !o.intra {
        same!("interp_filter", f.interp_filter as u64, o.filt);
        for i in 1..8 { same!("order_hints", e.order_hints[i] as u64, o.ohs[i]); same!("ref_frame_sign_bias", e.ref_frame_sign_bias[i] as u64, o.bias[i]); }
        if s.frame_id.is_some() { for i in 0..7 { same!("expected_frame_id", e.expected_frame_id[i] as u64, o.eid[i]); } }
    }
    same!("disable_frame_end_update_cdf", e.disable_frame_end_update_cdf, o.no_end);
    same!("mi_col_starts", e.mi_col_starts.iter().map(|v| *v as u64).collect::<Vec<u64>>(), o.cols.clone()); same!("mi_row_starts", e.mi_row_starts.iter().map(|v| *v as u64).collect::<Vec<u64>>(), o.rows.clone());
    same!("context_update_tile_id", e.context_update_tile_id as u64, o.ctx_tile);
    same!("quantizer deltas", [e.delta_q_y_dc as i64, e.delta_q_u_dc as i64, e.delta_q_u_ac as i64, e.delta_q_v_dc as i64, e.delta_q_v_ac as i64], o.dq);
    same!("segmentation_enabled", f.segmentation_params.segmentation_enabled, o.seg);
    for i in 0..8 { for j in 0..8 { same!("segmentation feature", f.segmentation_params.feature_value[i][j].map(|v| v as i64), o.feat[i][j]); } }
    same!("seg_id_pre_skip, last_active_seg_id", (e.seg_id_pre_skip, e.last_active_seg_id as u64), (o.pre_skip, o.last_seg));
    same!("delta_q", (f.delta_q_params.delta_q_present, f.delta_q_params.delta_q_res as u64), (o.dqp, o.dqr)); same!("delta_lf", (f.delta_lf_params.delta_lf_present, f.delta_lf_params.delta_lf_res as u64, f.delta_lf_params.delta_lf_multi), (o.dlp, o.dlr, o.dlm));
    same!("lossless segments", e.lossless_array, o.lossless); same!("coded_lossless, all_lossless", (e.coded_lossless, e.all_lossless), (o.coded_ll, o.all_ll));
    if o.qm.is_some() { for p in 0..3 { for i in 0..8 { same!("quantizer matrix level", e.seg_q_m_level[p][i] as u64, o.qml[p][i]); } } }
    let l = &f.loop_filter_params;
    same!("loop_filter_level", [l.loop_filter_level[0] as u64, l.loop_filter_level[1] as u64], o.lv);
    for i in 0..8 { same!("loop_filter_ref_deltas", l.loop_filter_ref_deltas[i] as i64, o.rd[i]); } for i in 0..2 { same!("loop_filter_mode_deltas", l.loop_filter_mode_deltas[i] as i64, o.md[i]); }
    let d = &f.cdef_params; let n = 1usize << o.cdef.1;
    same!("cdef damping and bits", (d.cdef_damping as u64, d.cdef_bits as u64), (o.cdef.0, o.cdef.1));
    same!("cdef luma strengths", (0..n).map(|i| (d.cdef_y_pri_strength[i] as u64, d.cdef_y_sec_strength[i] as u64)).collect::<Vec<_>>(), o.cdef.2.clone());
    if !s.mono { same!("cdef chroma strengths", (0..n).map(|i| (d.cdef_uv_pri_strength[i] as u64, d.cdef_uv_sec_strength[i] as u64)).collect::<Vec<_>>(), o.cdef.3.clone()); }
    for p in 0..if s.mono { 1 } else { 3 } { same!("frame_restoration_type", e.frame_restoration_type[p] as u64, o.lr[p]); if o.uses_lr { same!("loop_restoration_size", e.loop_restoration_size[p] as u64, o.lrsize[p]); } }
    same!("uses_lr, uses_chroma_lr", (e.uses_lr, e.uses_chroma_lr), (o.uses_lr, o.uses_clr));
    same!("tx_mode", e.tx_mode as u64, o.tx); same!("reference_select", f.reference_select, o.rs); same!("skip_mode_allowed", e.skip_mode_allowed, o.skf.is_some()); same!("skip_mode_present", f.skip_mode_present, o.skm);
    if let Some(k) = o.skf { same!("skip mode frames", (e.skip_mode_frame[0] as u64, e.skip_mode_frame[1] as u64), k); }
    same!("allow_warped_motion", f.allow_warped_motion, o.warp);
    for rf in 1..8 { same!("gm_type", e.gm_type[rf] as u64, o.gmt[rf]); for k in 0..6 { same!("gm_params", e.gm_params[rf][k] as i64, o.gm[rf][k]); } }
    same!("film_grain_params", e.film_grain_params.as_ref().map(sense), o.grain.clone());
    Ok(())
}
