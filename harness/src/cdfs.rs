//! All distributions of the coder's probability state, by name.
use av1enc::cdf::CDF;

pub trait Leaves { fn leaves<'a>(&'a self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &'a [i32])); 
    fn leaves_mut(&mut self, f: &mut dyn FnMut(&mut [i32])); }
pub struct Leaf;
impl<const N: usize> Leaves for [i32; N] {
    fn leaves<'a>(&'a self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &'a [i32])) { f(path, &self[..]) }
    fn leaves_mut(&mut self, f: &mut dyn FnMut(&mut [i32])) { f(&mut self[..]) }
}
impl<T: Leaves, const N: usize> Leaves for [T; N] {
    fn leaves<'a>(&'a self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &'a [i32])) {
        for (i, x) in self.iter().enumerate() { path.push(i); x.leaves(path, f); path.pop(); }
    }
    fn leaves_mut(&mut self, f: &mut dyn FnMut(&mut [i32])) { for x in self.iter_mut() { x.leaves_mut(f); } }
}
macro_rules! fields { ($($n:ident)*) => {
    pub const FIELDS: &[&str] = &[$(stringify!($n)),*];
    /// visit every distribution: (field, index path, entries)
    pub fn visit<'a>(c: &'a CDF, f: &mut dyn FnMut(&'static str, &[usize], &'a [i32])) {
        $( c.$n.leaves(&mut vec![], &mut |p, l| f(stringify!($n), p, l)); )*
    }
    pub fn visit_mut(c: &mut CDF, f: &mut dyn FnMut(&'static str, &mut [i32])) {
        $( c.$n.leaves_mut(&mut |l| f(stringify!($n), l)); )*
    }
} }
fields! {
    intra_frame_y_mode
    y_mode
    uv_mode_cfl_not_allowed
    uv_mode_cfl_allowed
    angle_delta
    intrabc
    partition_w8
    partition_w16
    partition_w32
    partition_w64
    partition_w128
    tx_8x8
    tx_16x16
    tx_32x32
    tx_64x64
    txfm_split
    filter_intra_mode
    filter_intra
    segment_id
    segment_id_predicted
    mv_class0_hp
    mv_hp
    mv_sign
    mv_bit
    mv_class0_bit
    new_mv
    zero_mv
    ref_mv
    drl_mode
    is_inter
    comp_mode
    skip_mode
    skip
    comp_ref
    comp_bwd_ref
    single_ref
    compound_mode
    interp_filter
    motion_mode
    mv_joint
    mv_class
    mv_class0_fr
    mv_fr
    palette_y_size
    palette_uv_size
    palette_size_2_y_color
    palette_size_3_y_color
    palette_size_4_y_color
    palette_size_5_y_color
    palette_size_6_y_color
    palette_size_7_y_color
    palette_size_8_y_color
    palette_size_2_uv_color
    palette_size_3_uv_color
    palette_size_4_uv_color
    palette_size_5_uv_color
    palette_size_6_uv_color
    palette_size_7_uv_color
    palette_size_8_uv_color
    palette_y_mode
    palette_uv_mode
    delta_q
    delta_lf
    delta_lf_multi
    intra_tx_type_set1
    intra_tx_type_set2
    inter_tx_type_set1
    inter_tx_type_set2
    inter_tx_type_set3
    compound_idx
    comp_group_idx
    compound_type
    inter_intra
    inter_intra_mode
    wedge_index
    wedge_inter_intra
    use_obmc
    comp_ref_type
    uni_comp_ref
    cfl_sign
    cfl_alpha
    use_wiener
    use_sgrproj
    restoration_type
    txb_skip
    eob_pt_16
    eob_pt_32
    eob_pt_64
    eob_pt_128
    eob_pt_256
    eob_pt_512
    eob_pt_1024
    eob_extra
    dc_sign
    coeff_base_eob
    coeff_base
    coeff_br
}
/// every distribution that differs: (name, before, after)
pub fn diff(a: &CDF, b: &CDF) -> Vec<(String, Vec<i32>, Vec<i32>)> {
    let mut va: Vec<(&'static str, Vec<usize>, &[i32])> = vec![];
    visit(a, &mut |n, p, l| va.push((n, p.to_vec(), l)));
    let mut k = 0;
    let mut out = vec![];
    visit(b, &mut |_n, _p, l| { let (an, ap, al) = &va[k]; if *al != l { out.push((name(an, ap), al.to_vec(), l.to_vec())); } k += 1; });
    out
}
pub fn name(f: &str, p: &[usize]) -> String { let mut s = f.to_string(); for i in p { s += &format!("[{}]", i); } s }
