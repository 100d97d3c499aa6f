// the draft's symbolic constants: (name, value in the code under test, value in the draft)
[
    ("REFS_PER_FRAME", c::REFS_PER_FRAME, 7),
    ("TOTAL_REFS_PER_FRAME", c::TOTAL_REFS_PER_FRAME, 8),
    ("BLOCK_SIZE_GROUPS", c::BLOCK_SIZE_GROUPS, 4),
    ("BLOCK_SIZES", c::BLOCK_SIZES, 22),
    ("MAX_SB_SIZE", c::MAX_SB_SIZE, 128),
    ("MI_SIZE", c::MI_SIZE, 4),
    ("MI_SIZE_LOG2", c::MI_SIZE_LOG2, 2),
    ("MAX_TILE_WIDTH", c::MAX_TILE_WIDTH, 4096),
    ("MAX_TILE_AREA", c::MAX_TILE_AREA, 9437184),
    ("MAX_TILE_ROWS", c::MAX_TILE_ROWS, 64),
    ("MAX_TILE_COLS", c::MAX_TILE_COLS, 64),
    ("INTRABC_DELAY_PIXELS", c::INTRABC_DELAY_PIXELS, 256),
    ("INTRABC_DELAY_SB64", c::INTRABC_DELAY_SB64, 4),
    ("NUM_REF_FRAMES", c::NUM_REF_FRAMES, 8),
    ("IS_INTER_CONTEXTS", c::IS_INTER_CONTEXTS, 4),
    ("REF_CONTEXTS", c::REF_CONTEXTS, 3),
    ("MAX_SEGMENTS", c::MAX_SEGMENTS, 8),
    ("SEGMENT_ID_CONTEXTS", c::SEGMENT_ID_CONTEXTS, 3),
    ("SEG_LVL_ALT_Q", c::SEG_LVL_ALT_Q, 0),
    ("SEG_LVL_ALT_LF_Y_V", c::SEG_LVL_ALT_LF_Y_V, 1),
    ("SEG_LVL_REF_FRAME", c::SEG_LVL_REF_FRAME, 5),
    ("SEG_LVL_SKIP", c::SEG_LVL_SKIP, 6),
    ("SEG_LVL_GLOBALMV", c::SEG_LVL_GLOBALMV, 7),
    ("SEG_LVL_MAX", c::SEG_LVL_MAX, 8),
    ("PLANE_TYPES", c::PLANE_TYPES, 2),
    ("TX_SIZE_CONTEXTS", c::TX_SIZE_CONTEXTS, 3),
    ("INTERP_FILTERS", c::INTERP_FILTERS, 3),
    ("INTERP_FILTER_CONTEXTS", c::INTERP_FILTER_CONTEXTS, 16),
    ("SKIP_MODE_CONTEXTS", c::SKIP_MODE_CONTEXTS, 3),
    ("SKIP_CONTEXTS", c::SKIP_CONTEXTS, 3),
    ("PARTITION_CONTEXTS", c::PARTITION_CONTEXTS, 4),
    ("TX_SIZES", c::TX_SIZES, 5),
    ("TX_SIZES_ALL", c::TX_SIZES_ALL, 19),
    ("TX_MODES", c::TX_MODES, 3),
    ("TX_TYPES", c::TX_TYPES, 16),
    ("MB_MODE_COUNT", c::MB_MODE_COUNT, 17),
    ("INTRA_MODES", c::INTRA_MODES, 13),
    ("UV_INTRA_MODES_CFL_NOT_ALLOWED", c::UV_INTRA_MODES_CFL_NOT_ALLOWED, 13),
    ("UV_INTRA_MODES_CFL_ALLOWED", c::UV_INTRA_MODES_CFL_ALLOWED, 14),
    ("COMPOUND_MODES", c::COMPOUND_MODES, 8),
    ("COMPOUND_MODE_CONTEXTS", c::COMPOUND_MODE_CONTEXTS, 8),
    ("COMP_NEWMV_CTXS", c::COMP_NEWMV_CTXS, 5),
    ("NEW_MV_CONTEXTS", c::NEW_MV_CONTEXTS, 6),
    ("ZERO_MV_CONTEXTS", c::ZERO_MV_CONTEXTS, 2),
    ("REF_MV_CONTEXTS", c::REF_MV_CONTEXTS, 6),
    ("DRL_MODE_CONTEXTS", c::DRL_MODE_CONTEXTS, 3),
    ("MV_CONTEXTS", c::MV_CONTEXTS, 2),
    ("MV_INTRABC_CONTEXT", c::MV_INTRABC_CONTEXT, 1),
    ("MV_JOINTS", c::MV_JOINTS, 4),
    ("MV_CLASSES", c::MV_CLASSES, 11),
    ("CLASS0_SIZE", c::CLASS0_SIZE, 2),
    ("MV_OFFSET_BITS", c::MV_OFFSET_BITS, 10),
    ("MAX_LOOP_FILTER", c::MAX_LOOP_FILTER, 63),
    ("REF_SCALE_SHIFT", c::REF_SCALE_SHIFT, 14),
    ("SUBPEL_BITS", c::SUBPEL_BITS, 4),
    ("SUBPEL_MASK", c::SUBPEL_MASK, 15),
    ("SCALE_SUBPEL_BITS", c::SCALE_SUBPEL_BITS, 10),
    ("MV_BORDER", c::MV_BORDER, 128),
    ("PALETTE_COLOR_CONTEXTS", c::PALETTE_COLOR_CONTEXTS, 5),
    ("PALETTE_MAX_COLOR_CONTEXT_HASH", c::PALETTE_MAX_COLOR_CONTEXT_HASH, 8),
    ("PALETTE_BLOCK_SIZE_CONTEXTS", c::PALETTE_BLOCK_SIZE_CONTEXTS, 7),
    ("PALETTE_Y_MODE_CONTEXTS", c::PALETTE_Y_MODE_CONTEXTS, 3),
    ("PALETTE_UV_MODE_CONTEXTS", c::PALETTE_UV_MODE_CONTEXTS, 2),
    ("PALETTE_SIZES", c::PALETTE_SIZES, 7),
    ("PALETTE_COLORS", c::PALETTE_COLORS, 8),
    ("PALETTE_NUM_NEIGHBORS", c::PALETTE_NUM_NEIGHBORS, 3),
    ("DELTA_Q_SMALL", c::DELTA_Q_SMALL, 3),
    ("DELTA_LF_SMALL", c::DELTA_LF_SMALL, 3),
    ("QM_TOTAL_SIZE", c::QM_TOTAL_SIZE, 3344),
    ("MAX_ANGLE_DELTA", c::MAX_ANGLE_DELTA, 3),
    ("DIRECTIONAL_MODES", c::DIRECTIONAL_MODES, 8),
    ("ANGLE_STEP", c::ANGLE_STEP, 3),
    ("TX_SET_TYPES_INTRA", c::TX_SET_TYPES_INTRA, 3),
    ("TX_SET_TYPES_INTER", c::TX_SET_TYPES_INTER, 4),
    ("WARPEDMODEL_PREC_BITS", c::WARPEDMODEL_PREC_BITS, 16),
    ("IDENTITY", c::IDENTITY, 0),
    ("TRANSLATION", c::TRANSLATION, 1),
    ("ROTZOOM", c::ROTZOOM, 2),
    ("AFFINE", c::AFFINE, 3),
    ("GM_ABS_TRANS_BITS", c::GM_ABS_TRANS_BITS, 12),
    ("GM_ABS_TRANS_ONLY_BITS", c::GM_ABS_TRANS_ONLY_BITS, 9),
    ("GM_ABS_ALPHA_BITS", c::GM_ABS_ALPHA_BITS, 12),
    ("DIV_LUT_PREC_BITS", c::DIV_LUT_PREC_BITS, 14),
    ("DIV_LUT_BITS", c::DIV_LUT_BITS, 8),
    ("DIV_LUT_NUM", c::DIV_LUT_NUM, 257),
    ("MOTION_MODES", c::MOTION_MODES, 3),
    ("SIMPLE", c::SIMPLE, 0),
    ("OBMC", c::OBMC, 1),
    ("LOCALWARP", c::LOCALWARP, 2),
    ("LEAST_SQUARES_SAMPLES_MAX", c::LEAST_SQUARES_SAMPLES_MAX, 8),
    ("LS_MV_MAX", c::LS_MV_MAX, 256),
    ("WARPEDMODEL_TRANS_CLAMP", c::WARPEDMODEL_TRANS_CLAMP, 8388608),
    ("WARPEDMODEL_NONDIAGAFFINE_CLAMP", c::WARPEDMODEL_NONDIAGAFFINE_CLAMP, 8192),
    ("WARPEDPIXEL_PREC_SHIFTS", c::WARPEDPIXEL_PREC_SHIFTS, 64),
    ("WARPEDDIFF_PREC_BITS", c::WARPEDDIFF_PREC_BITS, 10),
    ("GM_ALPHA_PREC_BITS", c::GM_ALPHA_PREC_BITS, 15),
    ("GM_TRANS_PREC_BITS", c::GM_TRANS_PREC_BITS, 6),
    ("GM_TRANS_ONLY_PREC_BITS", c::GM_TRANS_ONLY_PREC_BITS, 3),
    ("INTERINTRA_MODES", c::INTERINTRA_MODES, 4),
    ("MASK_MASTER_SIZE", c::MASK_MASTER_SIZE, 64),
    ("SEGMENT_ID_PREDICTED_CONTEXTS", c::SEGMENT_ID_PREDICTED_CONTEXTS, 3),
    ("FWD_REFS", c::FWD_REFS, 4),
    ("BWD_REFS", c::BWD_REFS, 3),
    ("SINGLE_REFS", c::SINGLE_REFS, 7),
    ("UNIDIR_COMP_REFS", c::UNIDIR_COMP_REFS, 4),
    ("COMPOUND_TYPES", c::COMPOUND_TYPES, 2),
    ("CFL_JOINT_SIGNS", c::CFL_JOINT_SIGNS, 8),
    ("CFL_ALPHABET_SIZE", c::CFL_ALPHABET_SIZE, 16),
    ("COMP_INTER_CONTEXTS", c::COMP_INTER_CONTEXTS, 5),
    ("COMP_REF_TYPE_CONTEXTS", c::COMP_REF_TYPE_CONTEXTS, 5),
    ("CFL_ALPHA_CONTEXTS", c::CFL_ALPHA_CONTEXTS, 6),
    ("INTRA_MODE_CONTEXTS", c::INTRA_MODE_CONTEXTS, 5),
    ("COMP_GROUP_IDX_CONTEXTS", c::COMP_GROUP_IDX_CONTEXTS, 6),
    ("COMPOUND_IDX_CONTEXTS", c::COMPOUND_IDX_CONTEXTS, 6),
    ("INTRA_EDGE_KERNELS", c::INTRA_EDGE_KERNELS, 3),
    ("INTRA_EDGE_TAPS", c::INTRA_EDGE_TAPS, 5),
    ("FRAME_LF_COUNT", c::FRAME_LF_COUNT, 4),
    ("MAX_VARTX_DEPTH", c::MAX_VARTX_DEPTH, 2),
    ("TXFM_PARTITION_CONTEXTS", c::TXFM_PARTITION_CONTEXTS, 21),
    ("REF_CAT_LEVEL", c::REF_CAT_LEVEL, 640),
    ("MAX_REF_MV_STACK_SIZE", c::MAX_REF_MV_STACK_SIZE, 8),
    ("MFMV_STACK_SIZE", c::MFMV_STACK_SIZE, 3),
    ("MAX_TX_DEPTH", c::MAX_TX_DEPTH, 2),
    ("WEDGE_TYPES", c::WEDGE_TYPES, 16),
    ("FILTER_BITS", c::FILTER_BITS, 7),
    ("WIENER_COEFFS", c::WIENER_COEFFS, 3),
    ("SGRPROJ_PARAMS_BITS", c::SGRPROJ_PARAMS_BITS, 4),
    ("SGRPROJ_PRJ_SUBEXP_K", c::SGRPROJ_PRJ_SUBEXP_K, 4),
    ("SGRPROJ_PRJ_BITS", c::SGRPROJ_PRJ_BITS, 7),
    ("SGRPROJ_RST_BITS", c::SGRPROJ_RST_BITS, 4),
    ("SGRPROJ_MTABLE_BITS", c::SGRPROJ_MTABLE_BITS, 20),
    ("SGRPROJ_RECIP_BITS", c::SGRPROJ_RECIP_BITS, 12),
    ("SGRPROJ_SGR_BITS", c::SGRPROJ_SGR_BITS, 8),
    ("EC_PROB_SHIFT", c::EC_PROB_SHIFT, 6),
    ("EC_MIN_PROB", c::EC_MIN_PROB, 4),
    ("SELECT_SCREEN_CONTENT_TOOLS", c::SELECT_SCREEN_CONTENT_TOOLS, 2),
    ("SELECT_INTEGER_MV", c::SELECT_INTEGER_MV, 2),
    ("RESTORATION_TILESIZE_MAX", c::RESTORATION_TILESIZE_MAX, 256),
    ("MAX_FRAME_DISTANCE", c::MAX_FRAME_DISTANCE, 31),
    ("MAX_OFFSET_WIDTH", c::MAX_OFFSET_WIDTH, 8),
    ("MAX_OFFSET_HEIGHT", c::MAX_OFFSET_HEIGHT, 0),
    ("WARP_PARAM_REDUCE_BITS", c::WARP_PARAM_REDUCE_BITS, 6),
    ("NUM_BASE_LEVELS", c::NUM_BASE_LEVELS, 2),
    ("COEFF_BASE_RANGE", c::COEFF_BASE_RANGE, 12),
    ("BR_CDF_SIZE", c::BR_CDF_SIZE, 4),
    ("SIG_COEF_CONTEXTS_EOB", c::SIG_COEF_CONTEXTS_EOB, 4),
    ("SIG_COEF_CONTEXTS_2D", c::SIG_COEF_CONTEXTS_2D, 26),
    ("SIG_COEF_CONTEXTS", c::SIG_COEF_CONTEXTS, 42),
    ("SIG_REF_DIFF_OFFSET_NUM", c::SIG_REF_DIFF_OFFSET_NUM, 5),
    ("SUPERRES_NUM", c::SUPERRES_NUM, 8),
    ("SUPERRES_DENOM_MIN", c::SUPERRES_DENOM_MIN, 9),
    ("SUPERRES_DENOM_BITS", c::SUPERRES_DENOM_BITS, 3),
    ("SUPERRES_FILTER_BITS", c::SUPERRES_FILTER_BITS, 6),
    ("SUPERRES_FILTER_SHIFTS", c::SUPERRES_FILTER_SHIFTS, 64),
    ("SUPERRES_FILTER_TAPS", c::SUPERRES_FILTER_TAPS, 8),
    ("SUPERRES_FILTER_OFFSET", c::SUPERRES_FILTER_OFFSET, 3),
    ("SUPERRES_SCALE_BITS", c::SUPERRES_SCALE_BITS, 14),
    ("SUPERRES_SCALE_MASK", c::SUPERRES_SCALE_MASK, 16383),
    ("SUPERRES_EXTRA_BITS", c::SUPERRES_EXTRA_BITS, 8),
    ("TXB_SKIP_CONTEXTS", c::TXB_SKIP_CONTEXTS, 13),
    ("EOB_COEF_CONTEXTS", c::EOB_COEF_CONTEXTS, 22),
    ("DC_SIGN_CONTEXTS", c::DC_SIGN_CONTEXTS, 3),
    ("LEVEL_CONTEXTS", c::LEVEL_CONTEXTS, 21),
    ("TX_CLASS_2D", c::TX_CLASS_2D, 0),
    ("TX_CLASS_HORIZ", c::TX_CLASS_HORIZ, 1),
    ("TX_CLASS_VERT", c::TX_CLASS_VERT, 2),
    ("REFMVS_LIMIT", c::REFMVS_LIMIT, 4095),
    ("INTRA_FILTER_SCALE_BITS", c::INTRA_FILTER_SCALE_BITS, 4),
    ("INTRA_FILTER_MODES", c::INTRA_FILTER_MODES, 5),
    ("COEFF_CDF_Q_CTXS", c::COEFF_CDF_Q_CTXS, 4),
    ("PRIMARY_REF_NONE", c::PRIMARY_REF_NONE, 7),
    ("TX_SET_DCTONLY", c::TX_SET_DCTONLY, 0),
    ("TX_SET_INTRA_1", c::TX_SET_INTRA_1, 1),
    ("TX_SET_INTRA_2", c::TX_SET_INTRA_2, 2),
    ("TX_SET_INTER_1", c::TX_SET_INTER_1, 1),
    ("TX_SET_INTER_2", c::TX_SET_INTER_2, 2),
    ("TX_SET_INTER_3", c::TX_SET_INTER_3, 3),
]
