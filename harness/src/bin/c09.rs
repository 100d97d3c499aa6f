//! C09: block, transform, partition and syntax geometry tables describe the draft's geometry.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
use av1enc::constants as c;
use av1enc::constants::*;
use mon::*;
use syntax::{tx, BS, IF, PT, TT};

const SCALARS: &[(&str, usize, usize)] = &include!("../constants_list.rs");

fn main() {
    let mut r = Runner::new("C09", "one case per table row or constant, all of them on every run: the live value is compared with the value computed from the draft's geometry (width x height of each block and transform size) or stated there; non-trivial: every case; distinct: by name");
    let ok = |k: &str, i: u64| Ok(Case::new(hash_of(&(k, i)), true, format!("{} {}", k, i)));
    r.suite_exhaustive("constants", SCALARS.len() as u64, |_g, i, run| {
        let (n, v, w) = SCALARS[i as usize];
        run.count("constants compared", 1);
        ensure_eq!(v, w, "{}", n);
        ok(n, i)
    });
    let private: Vec<(&str, Vec<i64>)> = c::verif::private_tables();
    let p = |n: &str| private.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
    let (max_depth, biggest) = (p("max_tx_depth"), p("tx_mode_to_biggest_tx_size"));
    r.suite_exhaustive("block-sizes", 22, |_g, i, run| {
        let b = i as usize; let (w, h) = spec::BLOCKS[b];
        run.count("block sizes", 1);
        ensure_eq!(BS[b] as usize, b, "numbering of block size {}x{}", w, h);
        ensure_eq!((c::block_width[b], c::block_height[b]), (w, h), "dimensions of block size {}", b);
        ensure_eq!((c::mi_width_log2[b], c::mi_height_log2[b]), (spec::lg(w / 4), spec::lg(h / 4)), "mi_*_log2 of {}x{}", w, h);
        ensure_eq!((c::num_4x4_blocks_wide[b], c::num_4x4_blocks_high[b]), (w / 4, h / 4), "num_4x4_blocks of {}x{}", w, h);
        ensure_eq!(c::size_group[b], spec::size_group(b), "size_group of {}x{}", w, h);
        // halvings needed from the largest transform of the block down to 4x4, longest side
        ensure_eq!(max_depth[b] as usize, (spec::lg(w.max(h)) - 2).min(4), "max_tx_depth of {}x{}", w, h);
        for sx in 0..2 { for sy in 0..2 {
            let want = spec::subsampled(b, sx == 1, sy == 1).unwrap_or(BLOCK_INVALID_N);
            ensure_eq!(c::subsampled_size[b][sx][sy] as usize, want, "subsampled_size of {}x{} with {}{}", w, h, sx, sy);
        } }
        for q in 0..10 {
            ensure_eq!(PT[q] as usize, q, "numbering of partition {}", q);
            ensure_eq!(c::partition_subsize[q][b] as usize, spec::partition_subsize(q, b).unwrap_or(BLOCK_INVALID_N), "partition_subsize {} of {}x{}", q, w, h);
        }
        ok("block", i)
    });
    r.suite_exhaustive("transform-sizes", 19, |_g, i, run| {
        let t = i as usize; let (w, h) = spec::TXS[t];
        run.count("transform sizes", 1);
        ensure_eq!(tx(t) as usize, t, "numbering of transform size {}x{}", w, h);
        ensure_eq!((c::tx_width[t], c::tx_height[t]), (w, h), "dimensions of transform size {}", t);
        ensure_eq!((c::tx_width_log2[t], c::tx_height_log2[t]), (spec::lg(w), spec::lg(h)), "log2 dimensions of transform {}x{}", w, h);
        ensure_eq!(c::tx_size_sqr[t] as usize, spec::tx_sqr(t), "tx_size_sqr of {}x{}", w, h);
        ensure_eq!(c::tx_size_sqr_up[t] as usize, spec::tx_sqr_up(t), "tx_size_sqr_up of {}x{}", w, h);
        ensure_eq!(c::adjusted_tx_size[t] as usize, spec::tx_adjusted(t), "adjusted_tx_size of {}x{}", w, h);
        for row in 0..5 { for col in 0..5 {
            let want = if (row, col) == (0, 0) { 0 } else if w < h && row < 2 { 11 } else if w > h && col < 2 { 16 } else if w == h && row + col < 2 { 1 } else if row + col < 4 { 6 } else { 21 };
            // only positions that exist in the transform matter
            let (aw, ah) = spec::TXS[spec::tx_adjusted(t)];
            if row < ah && col < aw { ensure_eq!(c::coeff_base_ctx_offset[t][row][col], want, "coeff_base_ctx_offset of {}x{} at {},{}", w, h, row, col); run.count("coefficient context offsets", 1); }
        } }
        ok("transform", i)
    });
    let rows: Vec<(&str, Vec<i64>, Vec<i64>)> = vec![
        ("coeff_base_pos_ctx_offset", c::coeff_base_pos_ctx_offset.iter().map(|x| *x as i64).collect(), vec![26, 31, 36]),
        ("sig_ref_diff_offset", c::sig_ref_diff_offset.iter().flatten().flatten().map(|x| *x as i64).collect(),
            vec![0, 1, 1, 0, 1, 1, 0, 2, 2, 0, 0, 1, 1, 0, 0, 2, 0, 3, 0, 4, 0, 1, 1, 0, 2, 0, 3, 0, 4, 0]),
        ("mag_ref_offset_with_tx_class", c::mag_ref_offset_with_tx_class.iter().flatten().flatten().map(|x| *x as i64).collect(), vec![0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 0, 2, 0, 1, 1, 0, 2, 0]),
        ("palette_color_context", c::palette_color_context.iter().map(|x| *x as i64).collect(), vec![-1, -1, 0, -1, -1, 4, 3, 2, 1]),
        ("filter_intra_mode_to_intra_dir", c::filter_intra_mode_to_intra_dir.iter().map(|x| *x as i64).collect(), vec![0, 1, 2, 6, 0]),
        ("intra_mode_context", c::intra_mode_context.iter().map(|x| *x as i64).collect(), spec::INTRA_CTX.iter().map(|x| *x as i64).collect()),
        ("mode_to_txfm", c::mode_to_txfm.iter().take(14).map(|x| *x as i64).collect(), (0..14).map(|m| spec::mode_tx(m) as i64).collect()),
        ("segmentation_feature_bits", c::segmentation_feature_bits.iter().map(|x| *x as i64).collect(), vec![8, 6, 6, 6, 6, 3, 0, 0]),
        ("segmentation_feature_signed", c::segmentation_feature_signed.iter().map(|x| *x as i64).collect(), vec![1, 1, 1, 1, 1, 0, 0, 0]),
        ("segmentation_feature_max", c::segmentation_feature_max.iter().map(|x| *x as i64).collect(), vec![255, 63, 63, 63, 63, 7, 0, 0]),
        ("remap_lr_type", c::remap_lr_type.iter().map(|x| *x as i64).collect(), vec![0, 3, 1, 2]),
        ("wiener_taps_min", c::wiener_taps_min.iter().map(|x| *x as i64).collect(), vec![-5, -23, -17]),
        ("wiener_taps_mid", c::wiener_taps_mid.iter().map(|x| *x as i64).collect(), vec![3, -7, 15]),
        ("wiener_taps_max", c::wiener_taps_max.iter().map(|x| *x as i64).collect(), vec![10, 8, 46]),
        ("wiener_taps_k", c::wiener_taps_k.iter().map(|x| *x as i64).collect(), vec![1, 2, 3]),
        ("sgrproj_xqd_min", c::sgrproj_xqd_min.iter().map(|x| *x as i64).collect(), vec![-96, -32]),
        ("sgrproj_xqd_mid", c::sgrproj_xqd_mid.iter().map(|x| *x as i64).collect(), vec![-32, 31]),
        ("sgrproj_xqd_max", c::sgrproj_xqd_max.iter().map(|x| *x as i64).collect(), vec![31, 95]),
        ("sgrproj_taps_min", c::sgrproj_taps_min.iter().map(|x| *x as i64).collect(), vec![-96, -32]),
        ("sgrproj_taps_max", c::sgrproj_taps_max.iter().map(|x| *x as i64).collect(), vec![31, 95]),
        ("tx_mode_to_biggest_tx_size", biggest, vec![0, 4, 4]),
        ("TxType", TT.iter().map(|x| *x as i64).collect(), (0..16).collect()),
        ("InterpFilter", IF.iter().map(|x| *x as i64).chain([InterpFilter::SWITCHABLE as i64]).collect(), (0..5).collect()),
        ("FrameType", vec![FrameType::KEY_FRAME as i64, FrameType::INTER_FRAME as i64, FrameType::INTRA_ONLY_FRAME as i64, FrameType::SWITCH_FRAME as i64], (0..4).collect()),
        ("FrameRestorationType", vec![FrameRestorationType::RESTORE_NONE as i64, FrameRestorationType::RESTORE_WIENER as i64, FrameRestorationType::RESTORE_SGRPROJ as i64, FrameRestorationType::RESTORE_SWITCHABLE as i64], (0..4).collect()),
        ("TxMode", vec![TxMode::ONLY_4X4 as i64, TxMode::TX_MODE_LARGEST as i64, TxMode::TX_MODE_SELECT as i64], (0..3).collect()),
        ("ChromaSamplePosition", vec![ChromaSamplePosition::CSP_UNKNOWN as i64, ChromaSamplePosition::CSP_VERTICAL as i64, ChromaSamplePosition::CSP_COLOCATED as i64, ChromaSamplePosition::CSP_RESERVED as i64], (0..4).collect()),
        ("YMode", { use c::YMode::*; vec![DC_PRED as i64, V_PRED as i64, H_PRED as i64, D45_PRED as i64, D135_PRED as i64, D113_PRED as i64, D157_PRED as i64, D203_PRED as i64, D67_PRED as i64, SMOOTH_PRED as i64, SMOOTH_V_PRED as i64, SMOOTH_H_PRED as i64, PAETH_PRED as i64, UV_CFL_PRED as i64] }, (0..14).collect()),
        ("compound modes", { use c::YMode::*; let z = NEAREST_NEARESTMV as i64; vec![NEAREST_NEARESTMV as i64 - z, NEAR_NEARMV as i64 - z, NEAREST_NEWMV as i64 - z, NEW_NEARESTMV as i64 - z, NEAR_NEWMV as i64 - z, NEW_NEARMV as i64 - z, GLOBAL_GLOBALMV as i64 - z, NEW_NEWMV as i64 - z] }, (0..8).collect()),
        ("RefFrame", { use c::RefFrame::*; vec![NONE as i64, INTRA_FRAME as i64, LAST_FRAME as i64, LAST2_FRAME as i64, LAST3_FRAME as i64, GOLDEN_FRAME as i64, BWDREF_FRAME as i64, ALTREF2_FRAME as i64, ALTREF_FRAME as i64] }, (-1..8).collect()),
        ("MvJoint", { use c::MvJoint::*; vec![MV_JOINT_ZERO as i64, MV_JOINT_HNZVZ as i64, MV_JOINT_HZVNZ as i64, MV_JOINT_HNZVNZ as i64] }, (0..4).collect()),
        ("ColorPrimaries", { use c::ColorPrimaries::*; vec![CP_BT_709 as i64, CP_UNSPECIFIED as i64, CP_BT_470_M as i64, CP_BT_470_B_G as i64, CP_BT_601 as i64, CP_SMPTE_240 as i64, CP_GENERIC_FILM as i64, CP_BT_2020 as i64, CP_XYZ as i64, CP_SMPTE_431 as i64, CP_SMPTE_432 as i64, CP_EBU_3213 as i64] }, vec![1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]),
        ("TransferCharacteristics", { use c::TransferCharacteristics::*; vec![TC_BT_709 as i64, TC_UNSPECIFIED as i64, TC_BT_470_M as i64, TC_BT_470_B_G as i64, TC_BT_601 as i64, TC_SMPTE_240 as i64, TC_LINEAR as i64, TC_LOG_100 as i64, TC_LOG_100_SQRT10 as i64, TC_IEC_61966 as i64, TC_BT_1361 as i64, TC_SRGB as i64, TC_BT_2020_10_BIT as i64, TC_BT_2020_12_BIT as i64, TC_SMPTE_2084 as i64, TC_SMPTE_428 as i64, TC_HLG as i64] }, vec![1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]),
        ("MatrixCoefficients", { use c::MatrixCoefficients::*; vec![MC_IDENTITY as i64, MC_BT_709 as i64, MC_UNSPECIFIED as i64, MC_FCC as i64, MC_BT_470_B_G as i64, MC_BT_601 as i64, MC_SMPTE_240 as i64, MC_SMPTE_YCGCO as i64, MC_BT_2020_NCL as i64, MC_BT_2020_CL as i64, MC_SMPTE_2085 as i64, MC_CHROMAT_NCL as i64, MC_CHROMAT_CL as i64, MC_ICTCP as i64] }, vec![0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]),
    ];
    let rows = &rows;
    r.suite_exhaustive("tables-and-numbering", rows.len() as u64, |_g, i, run| {
        let (n, got, want) = &rows[i as usize];
        run.count("table entries compared", want.len() as u64);
        ensure_eq!(got, want, "{}", n);
        ok(n, i)
    });
    r.suite_exhaustive("transform-sets", 2 * 4 * 16, |_g, i, run| {
        let (inter, set, t) = (i & 1 == 1, (i >> 1 & 3) as usize, (i >> 3) as usize);
        if !inter && set == 3 { return ok("no such set", i); }
        let want = spec::tx_set_types(set, inter);
        let live = if inter { c::tx_type_in_set_inter[set][t] } else { c::tx_type_in_set_intra[set][t] };
        run.count("set memberships", 1);
        ensure_eq!(live, want.contains(&t), "transform type {} in {} set {}", t, if inter { "inter" } else { "intra" }, set);
        // the coding order of the set
        if t == 0 && set > 0 {
            let order: Vec<usize> = match (inter, set) {
                (false, 1) => c::tx_type_intra_inv_set1.iter().map(|x| *x as usize).collect(),
                (false, _) => c::tx_type_intra_inv_set2.iter().map(|x| *x as usize).collect(),
                (true, 1) => c::tx_type_inter_inv_set1.iter().map(|x| *x as usize).collect(),
                (true, 2) => c::tx_type_inter_inv_set12.iter().map(|x| *x as usize).collect(),
                (true, _) => c::tx_type_inter_inv_set3.iter().map(|x| *x as usize).collect(),
            };
            ensure_eq!(&order[..], want, "coding order of {} set {}", if inter { "inter" } else { "intra" }, set);
        }
        ok("set", i)
    });
    r.require("constants compared"); r.require("block sizes"); r.require("transform sizes");
    r.assume("the draft's numbering of block, transform and mode names, restated in harness/src/spec.rs");
    r.finish();
}
const BLOCK_INVALID_N: usize = 22;
